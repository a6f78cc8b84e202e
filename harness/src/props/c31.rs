//! C31 - things come to rest.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::world::*;
use fluffy_tribble::GravityGenerator;

pub const PROP: Prop = Prop {
	id: "C31", body,
	rule: "one or two bodies (masses that cannot turn, balls), dropped with every combination of velocities, restitutions, coefficients, step lengths and orders into every place they cannot roll out of (planes, boxes and meshes: floors, valleys, bowls, slopes that are not too steep), simulated until everything sleeps, then on (nothing may stir), then kicked or hit and simulated until everything sleeps again; bounded liveness: 20 units of time are enough by far; non-trivial when it came to rest",
	assumptions: &["plenty of iterations and piles of at most two: with few iterations per step a pile of things that do not bounce may take for ever (each step ends before its contacts have settled)", "sleep thresholds above the energy that gravity gives within one step", "things that roll only in bowls (nothing stops a ball that rolls on level ground)"],
};

const WORLDS: usize = 7;
fn world(k: usize, mat: &dyn Fn(Col) -> Col) -> Vec<Ent> {
	let im = || Ent::new().own(INF);
	match k {
		0 => vec![im().col(mat(plane(O, v(0.0, 1.0, 0.0))))],
		1 => vec![im().col(mat(plane(O, v(1.0, 1.0, 0.0)))).col(mat(plane(O, v(-1.0, 1.2, 0.3)))).col(mat(plane(O, v(0.1, 1.0, -1.0)))).col(mat(plane(O, v(0.0, 0.9, 1.1))))],
		2 => vec![im().col(mat(boxx(O, v(-9.0, -1.0, -9.0), v(9.0, 0.0, 9.0))))],
		3 => vec![im().col(mat(boxx(O, v(-3.0, -1.0, -3.0), v(3.0, 0.0, 3.0)))), im().col(mat(plane(v(-2.0, 0.0, 0.0), v(1.0, 0.3, 0.0)))).col(mat(plane(v(2.0, 0.0, 0.0), v(-1.0, 0.2, 0.0)))).col(mat(plane(v(0.0, 0.0, 1.5), v(0.0, 0.4, -1.0)))).col(mat(plane(v(0.0, 0.0, -1.5), v(0.1, 0.3, 1.0))))],
		4 => { let (o, a, b, c, d) = (v(0.1, 0.0, -0.1), v(-9.0, 7.0, -9.0), v(9.0, 7.0, -9.0), v(9.0, 7.0, 9.0), v(-9.0, 7.0, 9.0)); vec![im().col(mat(mesh(O, vec![vec![o, a, b], vec![o, b, c], vec![o, c, d], vec![o, d, a]])))] }
		5 => vec![im().rot(v(-0.675, 0.0, 0.675)).col(mat(boxx(O, v(-1.0, -1.0, -1.0), v(9.0, 0.0, 9.0)))).col(mat(boxx(O, v(-1.0, -0.5, -1.0), v(0.0, 9.0, 9.0)))).col(mat(boxx(O, v(-0.5, -0.5, -1.0), v(9.0, 9.0, 0.0))))],
		_ => vec![im().col(mat(plane(O, v(0.1, 1.0, -0.15))))],
	}
}

fn body(ctx: &mut Ctx) -> R {
	let place = ctx.pick(WORLDS);
	let rolls = ctx.flag();
	if rolls && ![1, 4, 5].contains(&place) { return Err(Stop::Skip); }
	let n = 1 + ctx.pick(if [0, 2, 6].contains(&place) { 2 } else { 1 });
	let es3 = [(0.0f64, 0.3f64), (0.3, 0.8), (0.6, 0.3), (0.0, 0.8), (0.3, 0.3)];
	let (e, mu) = *ctx.of(&es3);
	if n > 1 && e < 0.3 { return Err(Stop::Skip); }
	let dt = *ctx.of(&[1.0 / 60.0, 0.05, 0.03]);
	let nudges = [O, v(0.13, 0.05, -0.08), v(-0.31, 0.11, 0.21), v(0.4, 0.4, 0.4)];
	let nudge = *ctx.of(&nudges[..if ctx.thorough { 4 } else { 2 }]);
	let vs = [O, v(1.0, -2.0, 0.5), v(-3.0, 1.0, 2.0), v(0.2, -6.0, -1.5)];
	let mut vel = vec![];
	for _ in 0..n { vel.push(*ctx.of(&vs)); }
	let stacked = n > 1 && ctx.flag();
	ctx.shard()?;
	let mat = |c: Col| c.rest(e.sqrt()).fric(mu.sqrt(), mu.sqrt(), 0.5);
	let mut es = world(place, &mat);
	let base = es.len();
	for i in 0..n {
		let r = [0.5, 0.4, 0.45][i];
		let at = if stacked { v(0.0, 1.5 + 1.0 * i as f64, 0.0) } else { v(-0.9 + 0.95 * i as f64, 1.7 + 0.3 * i as f64, 0.1 * i as f64) };
		let b = Ent::new().at(if i == 0 { at + nudge } else { at }).vel(vel[i]);
		es.push(if rolls { b.col(mat(sphere(r)).mass(1.0 + i as f64)) } else { b.own(1.0 + i as f64).col(mat(sphere(r))) });
	}
	let order: Vec<usize> = if ctx.flag() { (0..es.len()).rev().collect() } else { (0..es.len()).collect() };
	let mut w = W::build_in_order(&es, &order);
	w.sys.iteration_max = 255;
	let g = 10.0;
	w.sys.energy_sleep_threshold = (4.0 * 0.5 * (g * dt) * (g * dt)) as f32;
	w.sys.sleep_time_threshold = 0.25;
	w.sys.add_unary_force_generator(Box::new(GravityGenerator::new(f3(v(0.0, -g, 0.0))))).expect("generator refused");
	log_scene(ctx, &es);
	for round in 0..2 {
		let mut done = None;
		for k in 0..(20.0 / dt) as usize {
			w.tick(ctx, dt);
			if (0..es.len()).all(|i| w.body(i).asleep) { done = Some(k); break; }
		}
		let b = w.bodies();
		let k = match done { Some(k) => k, None => bad!("after 20 units of time something still does not rest: {}", b[base..].iter().map(|b| b.show()).collect::<Vec<_>>().join(" / ")) };
		ctx.dev("time", k as f64 * dt / 20.0);
		ctx.interesting();
		for x in &b[base..] { ensure!(x.com.y > -1.0 && x.com.len() < 60.0, "it came to rest outside: {}", x.show()); }
		for _ in 0..8 {
			w.tick(ctx, dt);
			ensure!(w.recs().is_empty(), "something collided while everything slept: {}", w.recs()[0].show());
			for (i, x) in w.bodies().iter().enumerate() { ensure!(x.asleep && x.com == b[i].com && x.rot == b[i].rot && x.vel == O && x.w == O, "entity {} stirs while everything sleeps: {}", i, x.show()); }
		}
		if round == 1 { break; }
		match ctx.pick(3) {
			0 => break,
			1 => { ctx.outcome("kicked"); w.edit(base, |e| e.velocity = f3(v(1.0, 2.0, -0.7))); }
			_ => { ctx.outcome("hit"); let at = w.body(base).com; let k = Ent::new().own(0.5).at(at + v(0.1, 2.0, 0.05)).col(mat(sphere(0.3))); if n > 1 || rolls { return Err(Stop::Skip); } w.add(&k); es.push(k); }
		}
	}
	Ok(())
}
