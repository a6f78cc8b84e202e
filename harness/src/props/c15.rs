//! C15 - kinetic energy.
use super::Prop;
use crate::engine::*;
use crate::geom::*;
use crate::m::*;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C15", body,
	rule: "every force-free world of 2-4 bodies (solid, heavy, light or unturnable central spheres, off-centre spheres and dumbbells that are equally hard to turn any way) among immovable obstacles at rest (none, a corner of three planes, a room of six planes, a floor box with a step box, a mesh ramp) x arrangement (in line, cluster touching, pile in the corner) x every assignment of velocities from an alphabet x spins x restitution/friction x step length x iteration limit x sleeping on/off, followed for several steps; kinetic energy is compared after each step; non-trivial when something collided",
	assumptions: &["inertia is the same about every axis (the integrator has no gyroscopic term, so a free asymmetric body's energy is not constant)"],
};

pub(super) fn obstacles(k: usize) -> Vec<Ent> {
	let im = || Ent::new().own(INF);
	match k {
		0 => vec![],
		1 => vec![im().col(plane(O, v(0.0, 1.0, 0.0))), im().col(plane(v(-2.0, 0.0, 0.0), v(1.0, 0.2, 0.0))), im().col(plane(v(0.0, 0.0, -2.0), v(0.0, 0.0, 1.0)))],
		2 => vec![im().col(plane(O, v(0.0, 1.0, 0.0))).col(plane(v(0.0, 3.0, 0.0), v(0.0, -1.0, 0.0))), im().col(plane(v(-2.0, 0.0, 0.0), v(1.0, 0.0, 0.0))).col(plane(v(4.0, 0.0, 0.0), v(-1.0, 0.0, 0.0))), im().col(plane(v(0.0, 0.0, -2.0), v(0.0, 0.0, 1.0))).col(plane(v(0.0, 0.0, 2.0), v(0.0, 0.0, -1.0)))],
		3 => vec![im().col(boxx(O, v(-10.0, -1.0, -10.0), v(10.0, 0.0, 10.0))), im().at(v(2.6, 0.0, 0.0)).rot(v(0.0, 0.4, 0.0)).col(boxx(O, v(-0.5, 0.0, -3.0), v(0.5, 1.0, 3.0)))],
		_ => vec![im().rot(v(0.0, 0.3, 0.0)).col(mesh(v(0.0, -1.0, 0.0), wedge().iter().map(|f| f.iter().map(|p| *p * 4.0).collect()).collect()))],
	}
}
pub(super) const ARR: [[V3; 4]; 3] = [
	[v(-1.0, 1.0, 0.0), v(0.1, 1.0, 0.0), v(1.15, 1.0, 0.0), v(2.1, 1.6, 0.3)],
	// Touching.
	[v(-0.5, 1.0, 0.0), v(0.5, 1.0, 0.0), v(0.0, 1.8660254, 0.0), v(0.0, 1.3, 0.85)],
	[v(-1.3, 0.55, -1.4), v(-0.2, 0.52, -1.3), v(-1.2, 1.7, -1.2), v(-0.9, 0.8, -0.2)],
];

fn body(ctx: &mut Ctx) -> R {
	let obs = ctx.pick(5);
	let arr = ctx.pick(3);
	let n = 2 + ctx.pick(if ctx.thorough { 3 } else { 2 });
	let vels = [O, v(2.0, -1.0, 0.0), v(-3.0, -2.0, -1.0), v(0.5, -4.0, 0.2), v(-20.0, -9.0, 4.0)];
	let mut vs = vec![];
	for i in 0..n { vs.push(*ctx.of(&vels[..if ctx.thorough && n < 4 { 5 } else if i < 2 { 4 } else { 3 }])); if i == 1 { ctx.shard()?; } }
	let ms = ctx.pick(5);
	let (rest, mus, mud, thr) = *ctx.of(&[(1.0, 0.0, 0.0, 0.25), (0.5, 0.0, 0.0, 0.25), (0.0, 0.0, 0.0, 0.25), (0.8, 0.5, 0.3, 0.25), (1.0, 2.0, 1.0, 1.0), (0.0, 1.0, 0.8, 0.5)]);
	let spin = ctx.pick(2);
	let limit = *ctx.of(if ctx.thorough { &[5u8, 1, 2, 3, 20][..] } else { &[5u8, 1, 20][..] });
	let dt = *ctx.of(&[0.1, 1.0]);
	let sleeping = if rest < 0.9 || ctx.thorough { ctx.flag() } else { false };
	let drowsy = !sleeping && limit != 1 && ctx.flag();
	let mat = |c: Col| c.rest(f64::sqrt(rest)).fric(mus, mud, thr);
	let mut es: Vec<Ent> = obstacles(obs);
	for e in es.iter_mut() { e.cols = e.cols.drain(..).map(|c| mat(c)).collect(); }
	let base = es.len();
	for i in 0..n {
		let s = mat(sphere(0.5));
		let e = match (ms, i) {
			(0, _) => Ent::new().col(s.mass(1.0)),
			(1, 0) => Ent::new().own(1.0).col(s),
			(1, 1) => Ent::new().own(20.0).col(s.mass(2.0)),
			(1, _) => Ent::new().col(s.mass(0.1)),
			// Off-centre balls and dumbbells that are equally hard to turn any way.
			(3, _) => { let m = [1.0, 2.0, 0.4, 1.0][i]; Ent::new().col(mat(sphere_at([v(0.3, 0.2, 0.0), v(0.0, -0.25, 0.3), v(-0.2, 0.0, 0.1), v(0.0, 0.3, 0.0)][i], 0.5))).col(null(O, m, M3::id().scale([0.1, 0.3, 0.02, 0.05][i]))) }
			(4, _) => { let m = [1.0, 0.3, 2.0, 1.0][i]; let d = [v(0.2, 0.25, 0.0), v(0.0, -0.25, 0.3), v(-0.3, 0.0, 0.1), v(0.0, 0.3, 0.0)][i]; Ent::new().col(mat(sphere_at(d, 0.4))).col(mat(sphere_at(-d, 0.3))).col(null(O, m, M3::id().scale(0.2 * m))) }
			(_, 1) => Ent::new().own(3.0).col(s),
			_ => Ent::new().own(0.5).col(s.mass(0.5)),
		};
		let sp = if spin == 1 && !(ms == 1 && i == 0) && !(ms == 2 && i == 1) { [v(0.0, 6.0, -3.0), v(-9.0, 1.0, 0.0), v(2.0, 2.0, 2.0), v(0.0, 0.0, 4.0)][i] } else { O };
		es.push(e.at(ARR[arr][i]).vel(vs[i]).w(sp));
	}
	let mut w = W::build(&es);
	if !sleeping { w.awake(drowsy); }
	w.sys.iteration_max = limit;
	log_scene(ctx, &es);
	let total = |bs: &[Body]| bs[base..].iter().map(|b| b.energy()).sum::<f64>();
	let mut e0 = total(&w.bodies());
	let start = e0;
	for k in 0..if ctx.thorough { 8 } else { 5 } {
		let asleep: Vec<bool> = w.bodies().iter().map(|b| b.asleep).collect();
		w.tick(ctx, dt);
		let bs = w.bodies();
		let e1 = total(&bs);
		let hits = w.recs().len() as f64;
		if hits > 0.0 { ctx.interesting(); }
		let tol = 1e-5 * (1.0 + hits) * (e0 + 0.001 * start) + 1e-9;
		ctx.dev("increase", (e1 - e0) / tol);
		ensure!(e1 <= e0 + tol, "step {} raised the kinetic energy from {} to {} ({} collisions)", k, e0, e1, hits);
		let slept = bs.iter().zip(&asleep).any(|(b, a)| b.asleep && !a);
		if rest == 1.0 && mus == 0.0 && !slept {
			ctx.dev("loss", (e0 - e1) / tol);
			ensure!(e1 >= e0 - tol, "step {} lowered the kinetic energy from {} to {} though everything is elastic ({} collisions)", k, e0, e1, hits);
			ctx.outcome("conserved");
		} else { ctx.outcome(if e1 < e0 - tol { "lost" } else { "kept" }); }
		for (i, b) in bs[..base].iter().enumerate() { ensure!(b.vel == O && b.w == O, "immovable obstacle {} moves", i); }
		e0 = e1;
	}
	Ok(())
}
