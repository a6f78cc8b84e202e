//! C19 - the collision records.
use super::Prop;
use crate::engine::*;
use crate::geom::*;
use crate::m::*;
use crate::world::*;
use fluffy_tribble::GravityGenerator;

pub const PROP: Prop = Prop {
	id: "C19", body,
	rule: "every world of 2-4 bodies (solid balls, light and heavy ones, an off-centre composite of two balls, a tetrahedron, a massless-collider body) among immovable obstacles (none, corner, room, floor box with a step, mesh ramp) x arrangement (in line, touching, pile) x every assignment of velocities x restitution/friction x step length x iteration limit 1..20 x gravity x sleeping x what happens between the steps (nothing, a body is removed, loses its colliders, is added); after each step every record is judged by itself and the velocities are rebuilt from the records one by one; non-trivial when something collided",
	assumptions: &["steps shorter than 1e-6 are ignored by the engine and leave the list alone", "with friction the records do not hold the friction impulse: only its bound is checked", "whether the recorded point touches both bodies is judged up to what the bodies turn within the step (documented linearisation)"],
};

const VELS: [V3; 5] = [v_(0.0, 0.0, 0.0), v_(2.0, -1.0, 0.3), v_(-3.0, -2.0, -1.0), v_(0.5, -4.0, 0.2), v_(-14.0, -9.0, 4.0)];
const fn v_(x: f64, y: f64, z: f64) -> V3 { V3 { x, y, z } }

/// How far `p` is from the surface of the nearest collider of an entity.
fn off_surface(p: V3, e: &Ent, b: &Body) -> f64 {
	e.cols.iter().map(|c| match &c.shape {
		Shape::Sphere { c, r } => ((p - b.world(*c)).len() - r).abs(),
		Shape::Plane { p: q, n } => (p - b.world(*q)).dot(n.unit()).abs(),
		Shape::Null { .. } => f64::INFINITY,
		s => dist_polys(p, &polys_of(s, b)),
	}).fold(f64::INFINITY, f64::min)
}

fn body(ctx: &mut Ctx) -> R {
	let obs = ctx.pick(5);
	let arr = ctx.pick(3);
	let n = 2 + ctx.pick(if ctx.thorough { 3 } else { 2 });
	let mut vs = vec![];
	for i in 0..n { vs.push(*ctx.of(&VELS[..if ctx.thorough && n < 4 { 5 } else if i < 2 { 4 } else { 2 }])); if i == 1 { ctx.shard()?; } }
	let kind = ctx.pick(3);
	let (rest, mus, mud) = *ctx.of(&[(1.0, 0.0, 0.0), (0.5, 0.0, 0.0), (0.0, 0.0, 0.0), (0.8, 0.5, 0.3)]);
	let limit = *ctx.of(if ctx.thorough { &[5u8, 1, 2, 3, 20, 60][..] } else { &[5u8, 1, 20][..] });
	let dt = *ctx.of(&[0.1, 1.0]);
	let gravity = if ctx.flag() { v(0.0, -10.0, 1.0) } else { O };
	let (sleeping, drowsy) = *ctx.of(&[(false, true), (true, false), (false, false)][..if n == 2 || ctx.thorough { 3 } else { 2 }].to_vec());
	let between = ctx.pick(if ctx.thorough { 4 } else { if n == 2 { 4 } else { 2 } });
	let mat = |c: Col| c.rest(f64::sqrt(rest)).fric(f64::sqrt(mus), f64::sqrt(mud), 0.5);
	let mut es: Vec<Ent> = super::c15::obstacles(obs);
	for e in es.iter_mut() { e.cols = e.cols.drain(..).map(|c| mat(c)).collect(); }
	let base = es.len();
	for i in 0..n {
		let e = match (kind, i) {
			(0, _) => Ent::new().col(mat(sphere(0.5)).mass(1.0)),
			(1, 0) => Ent::new().own(0.5).col(mat(sphere(0.45)).mass(1.0)).col(mat(sphere_at(v(0.1, 0.25, -0.1), 0.3)).mass(0.25)),
			(1, 1) => Ent::new().own(20.0).col(mat(sphere(0.5)).mass(2.0)).w(v(0.0, 1.0, -0.5)),
			(1, _) => Ent::new().own(1.0).col(mat(sphere(0.5))),
			(_, 0) => Ent::new().col(mat(mesh(v(-0.2, -0.2, -0.2), tetra(0.8)))).col(null(O, 2.0, M3::diag(0.2, 0.3, 0.25))).w(v(0.3, 0.0, 1.0)),
			(_, 1) => Ent::new().own(0.5).col(mat(sphere(0.5)).mass(0.5)).w(v(0.0, 6.0, -3.0)),
			_ => Ent::new().col(mat(sphere(0.5)).mass(3.0)),
		};
		es.push(e.at(super::c15::ARR[arr][i]).vel(vs[i]));
	}
	let mut w = W::build(&es);
	if !sleeping { w.awake(drowsy); }
	if gravity != O { w.sys.add_unary_force_generator(Box::new(GravityGenerator::new(f3(gravity)))).ok(); }
	w.sys.iteration_max = limit;
	log_scene(ctx, &es);
	let mut gone: Vec<bool> = vec![false; es.len()];
	for k in 0..if ctx.thorough { 5 } else { 3 } {
		if k == 1 {
			match between {
				1 => { let h = w.ents[base]; ensure!(w.sys.remove_entity(h), "a live entity could not be removed"); gone[base] = true; }
				2 => { for c in w.cols[base + 1].clone() { ensure!(w.sys.link_collider(c, None).is_ok(), "a collider could not be unlinked"); } es[base + 1].cols.clear(); }
				3 => { let e = Ent::new().col(mat(sphere(0.5)).mass(1.0)).at(v(0.3, 3.1, 0.2)).vel(v(0.0, -9.0, 0.0)); w.add(&e); es.push(e); gone.push(false); }
				_ => {}
			}
		}
		let read = |w: &W| -> Vec<Body> { (0..es.len()).map(|i| if gone[i] { Body { com: O, rot: M3::id(), vel: O, w: O, mass: INF, own: INF, inertia: M3::ZERO, off: O, asleep: true } } else { w.body(i) }).collect() };
		let before = read(&w);
		w.step(dt);
		ctx.step();
		let f = w.fp();
		ctx.state(f);
		let recs = w.recs();
		let after = read(&w);
		if ctx.tracing {
			ctx.log(|| format!("step({})", dt));
			for r in &recs { ctx.log(|| format!("   {}", r.show())); }
			for (i, b) in after.iter().enumerate() { ctx.log(|| format!("   entity {} {}", i, b.show())); }
		}
		ensure!(recs.len() <= limit as usize, "{} collisions recorded, the limit is {}", recs.len(), limit);
		if !recs.is_empty() { ctx.interesting(); ctx.outcome("collisions"); } else { ctx.outcome("nothing collided"); }
		// What is rebuilt from the records (forces do not act on sleepers, nor on what has no mass or too much).
		let pull = |b: &Body, gone: bool| if gone || b.asleep || !b.movable() || b.mass < 1e-6 { O } else { gravity };
		let mut bs = before.clone();
		for (i, b) in bs.iter_mut().enumerate() { b.vel = b.vel + pull(&before[i], gone[i]) * dt; }
		let mut now = 0.0;
		let mut slid: Vec<f64> = vec![0.0; es.len()];
		let mut arm: Vec<f64> = vec![0.0; es.len()];
		for (k, r) in recs.iter().enumerate() {
			ensure!(r.a < es.len() && r.b < es.len() && r.a != r.b && !gone[r.a] && !gone[r.b], "record {} is about entities {} and {}", k, r.a as isize, r.b as isize);
			ensure!(es[r.a].cols.iter().any(|c| !matches!(c.shape, Shape::Null { .. })) && es[r.b].cols.iter().any(|c| !matches!(c.shape, Shape::Null { .. })), "record {} is about entities {} and {}, one of which has nothing to collide with", k, r.a, r.b);
			ensure!(r.pos.finite() && r.t.is_finite() && r.n.finite() && r.j.is_finite(), "record {} is not finite: {}", k, r.show());
			ensure!(r.t >= 0.0 && r.t <= dt * (1.0 + 1e-6), "record {} is at time {} of a step of {}", k, r.t, dt);
			ensure!(r.t >= now - 1e-6 * dt, "record {} is at {}, after one at {}", k, r.t, now);
			ensure!((r.n.len() - 1.0).abs() < 1e-4, "record {} has the normal {:?}", k, r.n.arr());
			ensure!(r.j >= 0.0, "record {} has the impulse {}", k, r.j);
			ensure!((r.e - rest).abs() < 1e-5, "record {} has restitution {}, both have the square root of {}", k, r.e, rest);
			for b in bs.iter_mut() { if !b.asleep || b.vel != O || b.w != O { *b = b.moved(r.t - now); } }
			now = now.max(r.t);
			slid[r.a] += mus.max(mud) * r.j; slid[r.b] += mus.max(mud) * r.j;
			if mus > 0.0 && k > 0 { continue; }
			let (a, b) = (&bs[r.a], &bs[r.b]);
			let speed = a.vel.len() + b.vel.len() + (a.w.len() * (r.pos - a.com).len()) + b.w.len() * (r.pos - b.com).len() + 0.1;
			let closing = (a.vel_at(r.pos) - b.vel_at(r.pos)).dot(r.n);
			// Errors of earlier collisions add up.
			let tol = 1e-5 * speed * (k + 1) as f64;
			ctx.dev("parting", -closing / tol);
			ensure!(closing >= -tol, "record {}: the touching points were parting at {} along the normal {:?}", k, -closing, r.n.arr());
			if k == 0 {
				// On both bodies, unless they started inside each other.
				let central = |e: &Ent| e.cols.iter().all(|c| matches!(&c.shape, Shape::Sphere { c, .. } if *c == O) || matches!(&c.shape, Shape::Null { .. }));
				let apart = (a.com - b.com).len().min(3.0) + 1.0;
				let travel = (a.vel - b.vel).len() * dt;
				let at = |i: usize| { let d = off_surface(r.pos, &es[i], &bs[i]); let th = if central(&es[i]) { 0.0 } else { bs[i].w.len() * dt }; (d, 2e-4 * (1.0 + bs[i].vel.len() * dt) + 0.5 * th * (th * apart + travel) + if es[i].cols.iter().any(|c| matches!(c.shape, Shape::Mesh { .. })) { th * (r.pos - bs[i].com).len() } else { 0.0 }) };
				let ((da, ta), (db, tb)) = (at(r.a), at(r.b));
				if r.t > 1e-3 * dt {
					ctx.dev("off the surface", (da / (ta + tb)).max(db / (ta + tb)));
					ensure!(da <= ta + tb && db <= ta + tb, "record {}: {:?} is {} off entity {} and {} off entity {}", k, r.pos.arr(), da, r.a, db, r.b);
				}
			}
			let want = (1.0 + r.e) * closing / crate::pairs::k_along(a, b, r.pos, r.n);
			let jt = 1e-4 * want.abs() + 5.0 * tol / crate::pairs::k_along(a, b, r.pos, r.n);
			ctx.dev("impulse", (r.j - want).abs() / jt);
			ensure!((r.j - want).abs() <= jt, "record {} has the impulse {}, the restitution law needs {}", k, r.j, want);
			for (i, s) in [(r.a, -1.0), (r.b, 1.0)] {
				let j = r.n * (r.j * s);
				let (dv, dw) = (j * bs[i].inv_mass(), bs[i].inv_inertia().mv((r.pos - bs[i].com).cross(j)));
				arm[i] += 1e-6 * (1.0 + r.pos.len() + bs[i].com.len()) * r.j * bs[i].inv_inertia().max_abs();
				if bs[i].movable() { bs[i].vel = bs[i].vel + dv; bs[i].w = bs[i].w + dw; }
			}
		}
		for i in 0..es.len() {
			if gone[i] { continue; }
			let hits = recs.iter().filter(|r| r.a == i || r.b == i).count() as f64;
			let (is, want) = (&after[i], &bs[i]);
			// Falling asleep stops a body.
			if is.asleep { ensure!(is.vel == O && is.w == O, "entity {} moves while asleep", i); continue; }
			if !is.movable() || hits == 0.0 {
				ensure!(near(is.vel, before[i].vel + pull(&before[i], false) * dt, 1e-5 * (1.0 + is.vel.len())) && near(is.w, before[i].w, 1e-5 * (1.0 + is.w.len())), "entity {} went from v={:?} w={:?} to v={:?} w={:?} without a record", i, before[i].vel.arr(), before[i].w.arr(), is.vel.arr(), is.w.arr());
				continue;
			}
			if mus > 0.0 {
				// The records' normal impulses leave at most what friction can do.
				let n = recs.iter().filter(|r| r.a == i || r.b == i).fold(O, |s, r| s + r.n * if r.a == i { -r.j } else { r.j });
				let left = (is.vel - before[i].vel - pull(&before[i], false) * dt) * is.mass - n;
				let lt = slid[i] * 1.0001 + 1e-4 * is.mass * (1.0 + is.vel.len() + before[i].vel.len());
				ctx.dev("friction", left.len() / lt);
				ensure!(left.len() <= lt, "entity {} changed its momentum by {:?} more than its {} records say, friction can do {}", i, left.arr(), hits, slid[i]);
				continue;
			}
			let (vt, wt) = (3e-5 * hits * (1.0 + want.vel.len() + before[i].vel.len()), 3e-5 * hits * (1.0 + want.w.len() + before[i].w.len() + want.vel.len()) + arm[i]);
			ctx.dev("velocity", (is.vel - want.vel).len() / vt);
			ctx.dev("angular velocity", (is.w - want.w).len() / wt);
			ensure!(near(is.vel, want.vel, vt), "entity {} ended with velocity {:?}, its {} records make it {:?}", i, is.vel.arr(), hits, want.vel.arr());
			ensure!(near(is.w, want.w, wt), "entity {} ended with angular velocity {:?}, its {} records make it {:?}", i, is.w.arr(), hits, want.w.arr());
		}
	}
	Ok(())
}
