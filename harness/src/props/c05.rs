//! C05 - free motion and lock-step time.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C05", body,
	rule: "every world of one free subject (bare, off-centre composite with anisotropic inertia, massless, immovable; linear and spin velocities) among: nothing, a colliding pair, a sphere rattling between walls, a chain of spheres, sleepers plus a colliding pair; x step length (1e-5 to 8) x iteration limit 1..6 x insertion position x number of steps; every body's pose is predicted from start velocities and recorded impulses; plus tiny steps, and the same step taken collision by collision; non-trivial when something collides or sleeps or is composite",
	assumptions: &["no friction in this sweep, spheres central, so recorded impulses give every intermediate velocity", "collisions closer than 1e-3 of the step to each other are don't-cares for the splitting part"],
};

/// Bodies (spheres, unit-ish) that collide during a step of length dt, well away from the subject.
fn environment(k: usize, dt: f64) -> Vec<Ent> {
	let s = |x: f64, m: f64, vx: f64| Ent::new().own(m).at(v(x, 60.0, -3.0)).vel(v(vx / dt, 0.0, 0.0)).col(sphere(0.5));
	match k {
		0 => vec![],
		1 => vec![s(0.0, 1.0, 2.0), s(2.0, 3.0, -0.5)],
		2 => vec![s(0.0, 2.0, 3.7), Ent::new().own(INF).at(v(1.5, 60.0, -3.0)).col(boxx(O, v(0.0, -2.0, -2.0), v(1.0, 2.0, 2.0))), Ent::new().own(INF).at(v(-1.0, 60.0, -3.0)).col(plane(O, v(1.0, 0.0, 0.0)))],
		3 => vec![s(0.0, 1.0, 4.0), s(1.3, 2.0, 0.0), s(2.75, 1.5, 0.0), s(4.4, 1.0, -1.0)],
		_ => vec![s(0.0, 1.0, 2.0), s(2.0, 1.0, -0.5)],
	}
}
fn subject(k: usize) -> Ent {
	match k {
		0 => Ent::new().own(1.5),
		1 => Ent::new().own(0.5).col(sphere_at(v(1.0, 0.0, 0.0), 0.5).mass(2.0)).col(boxx(v(-0.5, 1.0, 0.0), v(-1.0, -0.25, -0.5), v(1.0, 0.25, 0.5)).mass(1.0)),
		2 => Ent::new().own(0.0).col(sphere(0.3)),
		_ => Ent::new().own(INF).col(boxx(O, v(-1.0, -0.25, -0.5), v(1.0, 0.25, 0.5))),
	}
}

/// Where every body must be `t` into a step, from velocities before it and the recorded impulses.
fn predict(before: &[Body], recs: &[Rec], t: f64) -> Vec<Body> {
	let mut bs: Vec<Body> = before.to_vec();
	let mut now = 0.0;
	for r in recs {
		for b in bs.iter_mut() { if !b.asleep { *b = b.moved(r.t - now); } }
		now = r.t;
		bs[r.a].vel = bs[r.a].vel - r.n * (r.j * bs[r.a].inv_mass());
		bs[r.b].vel = bs[r.b].vel + r.n * (r.j * bs[r.b].inv_mass());
		// Being hit wakes.
		for i in [r.a, r.b] { if bs[i].movable() { bs[i].asleep = false; } }
	}
	for b in bs.iter_mut() { if !b.asleep { *b = b.moved(t - now); } }
	bs
}

fn same(ctx: &mut Ctx, i: usize, got: &Body, want: &Body, tol: f64, turn_tol: f64) -> R {
	let vt = 1e-4 * (1.0 + want.vel.len());
	ctx.dev("position", (got.com - want.com).len() / tol * 1e-4);
	ensure!(near(got.com, want.com, tol), "entity {} ended at {:?}, should be at {:?}", i, got.com.arr(), want.com.arr());
	ensure!(near(got.vel, want.vel, vt), "entity {} ended with velocity {:?}, should have {:?}", i, got.vel.arr(), want.vel.arr());
	ensure!(near(got.w, want.w, 1e-5 * (1.0 + want.w.len())), "entity {} ended with angular velocity {:?}, should have {:?}", i, got.w.arr(), want.w.arr());
	ctx.dev("rotation", got.rot.max_diff(&want.rot));
	ensure!(got.rot.max_diff(&want.rot) < turn_tol, "entity {} ended turned to {:?}, should be {:?}", i, got.rot.0, want.rot.0);
	ensure!(near(got.off, want.off, 1e-6), "entity {}'s origin shifted inside it", i);
	Ok(())
}

fn body(ctx: &mut Ctx) -> R {
	let env = ctx.pick(5);
	let dt = *ctx.of(&[1.0, 0.1, 0.01, 1e-5, 8.0]);
	let sub = ctx.pick(4);
	let vel = *ctx.of(&[O, v(0.5, -1.0, 2.0), v(-30.0, 8.0, 4.0)]);
	// Long steps lead away from everything.
	let vel = if dt > 1.0 { v(vel.x.abs(), vel.y, vel.z) } else { vel };
	ctx.shard()?;
	let w0 = *ctx.of(&[O, v(1.0, 2.0, -0.5), v(0.0, 40.0, 3.0), v(0.0, 0.0, 1e-3)]);
	let at = ctx.pick(if env == 0 { 1 } else { 3 });
	let limit = *ctx.of(if ctx.thorough { &[5u8, 1, 2, 3, 4, 6, 200][..] } else { &[5u8, 1, 2, 3, 6][..] });
	let e = if env == 2 { ctx.pick(3) } else { ctx.pick(2) };
	let rest: f64 = [1.0, 0.5, 0.0][e];
	let drowsy = limit >= 5 && ctx.flag();
	let tail = ctx.pick(3); // 0: whole steps; 1: then a tiny step; 2: compare with collision-by-collision steps
	let mut es: Vec<Ent> = environment(env, dt);
	for x in es.iter_mut() { for c in x.cols.iter_mut() { c.rest = rest.sqrt(); } }
	let s = subject(sub).at(v(100.0, 80.0, 20.0)).rot(v(0.7, -0.4, 1.2)).vel(vel).w(w0);
	let pos = match at { 0 => 0, 1 => es.len(), _ => 1.min(es.len()) };
	es.insert(pos, s);
	let build = |ctx: &mut Ctx| -> Result<W, Stop> {
		let mut w = W::new();
		if env == 4 {
			// Two sleepers that are never touched, next to (but not touching) everything.
			for x in 0..2 { w.add(&Ent::new().own(2.0).at(v(1.0 + x as f64, 57.0, -3.0)).rot(v(0.0, 0.3, 0.0)).col(sphere(0.5))); }
			for _ in 0..4 { w.step(0.1); }
			ensure!(w.body(0).asleep && w.body(1).asleep, "two resting spheres are not asleep after 0.4 s");
		}
		let base = w.ents.len();
		for x in &es { w.add(x); }
		let _ = base;
		w.awake(drowsy);
		w.sys.iteration_max = limit;
		let _ = ctx;
		Ok(w)
	};
	let mut w = build(ctx)?;
	log_scene(ctx, &es);
	if env > 0 || sub == 1 { ctx.interesting(); }
	let steps = if ctx.thorough { 3 } else { 2 };
	let mut prev_recs = 0;
	for k in 0..steps {
		let before = w.bodies();
		w.tick(ctx, dt);
		let recs = w.recs();
		prev_recs = recs.len();
		let cut = recs.len() >= limit as usize;
		let end = if cut { recs[recs.len() - 1].t } else { r32(dt) };
		if cut { ctx.outcome("cut short"); } else if recs.is_empty() { ctx.outcome("nothing collides"); } else { ctx.outcome("collisions"); }
		let want = predict(&before, &recs, end);
		for (i, b) in w.bodies().iter().enumerate() {
			// Spheres that were hit: the impulses in the records are rounded.
			let hits = recs.iter().filter(|r| r.a == i || r.b == i).count();
			let path = (before[i].vel.len() + 1.0) * dt;
			same(ctx, i, b, &want[i], 3e-5 * (1.0 + before[i].com.len() * 0.2 + path) + 1e-4 * path * hits as f64, 2e-5 + 1e-6 * before[i].w.len() * dt)?;
			ensure!(!(before[i].asleep && !b.asleep) || hits > 0, "entity {} woke up though nothing touched it", i);
		}
		ctx.log(|| format!("step {} ended at {} of {}", k, end, dt));
	}
	match tail {
		1 => {
			let before: Vec<String> = w.bodies().iter().map(|b| format!("{:?}", b)).collect();
			let rb: Vec<String> = w.recs().iter().map(|b| b.show()).collect();
			for d in [9.9e-7, 0.0, 1e-12] { w.tick(ctx, d); }
			ensure!(before == w.bodies().iter().map(|b| format!("{:?}", b)).collect::<Vec<_>>(), "a step shorter than 1e-6 changed something");
			ensure!(rb == w.recs().iter().map(|b| b.show()).collect::<Vec<_>>() && rb.len() == prev_recs, "a step shorter than 1e-6 changed the collision records");
		}
		2 if limit >= 5 => {
			// Whole, and split at its collisions.
			let (mut a, mut b) = (build(ctx)?, build(ctx)?);
			a.sys.iteration_max = 60;
			a.tick(ctx, dt);
			let recs = a.recs();
			if recs.len() > 12 || recs.windows(2).any(|p| (p[1].t - p[0].t) < 1e-3 * dt) || recs.last().map(|r| r.t > 0.998 * dt).unwrap_or(false) { return Err(Stop::Skip); }
			b.sys.iteration_max = 1;
			let mut left = r32(dt);
			let mut n = 0;
			loop {
				b.tick(ctx, left);
				let rs = b.recs();
				if rs.is_empty() { break; }
				ensure!(n < recs.len(), "splitting the step gives an extra collision {}", rs[0].show());
				let (x, y) = (&recs[n], &rs[0]);
				ensure!((x.a, x.b) == (y.a, y.b) && ((dt - left + y.t) - x.t).abs() < 1e-4 * dt, "collision {} of the split step is {} ({} into it), of the whole step {}", n, y.show(), dt - left, x.show());
				left -= rs[0].t;
				n += 1;
				if left < 1.1e-6 { return Err(Stop::Skip); }
			}
			ensure!(n == recs.len(), "the whole step has {} collisions, the split one {}", recs.len(), n);
			for (i, (x, y)) in a.bodies().iter().zip(b.bodies()).enumerate() {
				let path = (x.vel.len() + 1.0) * dt;
				same(ctx, i, &y, x, 6e-5 * (1.0 + x.com.len() * 0.2 + path) + 3e-4 * path * n as f64, 1e-4 + 1e-5 * x.w.len() * dt)?;
			}
			ctx.outcome("split agrees");
		}
		_ => {}
	}
	Ok(())
}
