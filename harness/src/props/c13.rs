//! C13 - restitution and momentum.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::pairs;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C13", body,
	rule: "every frictionless single-collision scene over: contact kind (sphere-sphere, -plane, -box face/edge/corner, -mesh face/edge, mesh-plane, mesh-mesh) x how each body carries its mass (in the body, in the collider, anisotropic with an off-centre centre of mass, immovable by a collider, immovable by its own mass) x mass ratios up to 1:175 and masses up to 4e6 x restitution pairs x spins x closing and sliding speeds x frame velocity x turned frame x overlapping or later contact x insertion order x another body or collider of other material in line to be hit later (looked at before or after); both bodies' velocities before and after are compared with the record; and every step with many frictionless collisions over: obstacles (incl. a turning paddle and a moving wall) x arrangement x 2-3 bodies (anisotropic, next to weightless, dumbbells, off-centre balls, meshes) x velocities x spins x restitution x step length x limit x insertion order, its records performed one by one in double precision; non-trivial when a collision was handled",
	assumptions: &["single scenes have one collision per step (iteration limit 1), so every velocity change belongs to the record", "pairs in which no body can move are C20's"],
};

fn body(ctx: &mut Ctx) -> R { if ctx.flag() { several(ctx) } else { single(ctx) } }

/// Steps with many collisions: the records are performed one after another in double precision.
fn several(ctx: &mut Ctx) -> R {
	let obs = ctx.pick(6);
	let arr = ctx.pick(3);
	let n = 2 + ctx.pick(2);
	let dirs = [v(2.0, -1.0, 0.3), v(-3.0, -2.0, -1.0), O, v(0.5, -4.0, 0.2), v(-14.0, -9.0, 4.0)];
	let mut vs = vec![];
	for i in 0..n { vs.push(*ctx.of(&dirs[..if i < 2 { if ctx.thorough { 5 } else { 4 } } else { 2 }])); if i == 1 { ctx.shard()?; } }
	let how = ctx.pick(6);
	let (ea, eb) = *ctx.of(&[(1.0, 1.0), (0.5, 0.8), (0.0, 1.0), (0.25, 0.9)]);
	let spin = ctx.pick(if ctx.thorough { 3 } else { 2 });
	let dt = *ctx.of(&[0.1, 0.5]);
	let limit = *ctx.of(if ctx.thorough { &[20u8, 4, 2][..] } else { &[20u8, 3][..] });
	let rev = ctx.flag();
	let mut es: Vec<Ent> = if obs < 5 { super::c15::obstacles(obs) } else {
		// A heavy turning paddle and a wall on the move.
		vec![Ent::new().own(INF).w(v(0.0, 0.0, 1.5)).at(v(0.0, -0.5, 0.0)).col(boxx(O, v(-4.0, -0.25, -3.0), v(4.0, 0.25, 3.0))), Ent::new().own(INF).vel(v(-1.0, 0.5, 0.0)).col(plane(v(4.0, 0.0, 0.0), v(-1.0, 0.0, 0.0)))]
	};
	for e in es.iter_mut() { for c in e.cols.iter_mut() { c.rest = ea; } }
	let base = es.len();
	for i in 0..n {
		let m = [1.0, 3.0, 0.2][if how == 4 { 2 - i } else { i }];
		// (The last way is the first one, next to weightless.)
		let (how, m) = if how == 5 { (0, m * 1e-4) } else { (how, m) };
		let e = match (how, i) {
			// A ball on a body that is hard to turn one way, easy another, and does not balance at the ball.
			(0, _) => Ent::new().own(m * 0.25).col(sphere_at(v(0.1, -0.1, 0.05), 0.45)).col(null(v(-0.3, 0.2, 0.1), m * 0.5, M3::diag(0.11, 0.3, 0.22).scale(m))).col(null(v(0.1, -0.4, 0.25), m * 0.25, M3::diag(0.02, 0.01, 0.02).scale(m))),
			// Two balls far apart.
			(1, _) => Ent::new().col(sphere_at(v(0.25, 0.1, 0.0), 0.35).mass(m)).col(sphere_at(v(-0.25, -0.1, 0.1), 0.3).mass(2.0 * m)),
			(2, 0) => Ent::new().col(mesh(v(-0.3, -0.2, -0.25), crate::geom::tetra(0.9))).col(null(O, m, M3::diag(0.07, 0.2, 0.1).scale(m))),
			(2, _) | (3, 0) => Ent::new().col(sphere(0.5).mass(m)),
			(3, 1) => Ent::new().own(m).col(sphere(0.5)),
			(3, _) => Ent::new().col(sphere_at(v(0.0, 0.3, 0.0), 0.3)).col(null(O, m, M3::diag(0.05, 0.01, 0.05).scale(m))),
			_ => Ent::new().own(m).col(sphere_at(v(-0.2, 0.1, 0.0), 0.4)).col(null(v(0.4, -0.2, 0.1), m * 0.3, M3::diag(0.02, 0.1, 0.09).scale(m))),
		};
		let w = [[O, O, O], [v(0.0, 1.0, -4.0), v(3.0, 0.5, 2.0), v(-1.0, 5.0, 0.0)], [v(12.0, 0.0, 0.0), v(0.0, -9.0, 3.0), O]][spin][i];
		let mut e = e.at(super::c15::ARR[arr][i]).rot([O, v(0.6, -0.35, 1.1), v(0.0, 2.0, 0.3)][i]).vel(vs[i]).w(w);
		for c in e.cols.iter_mut() { c.rest = eb; }
		es.push(e);
	}
	let mut order: Vec<usize> = (0..es.len()).collect();
	if rev { order.reverse(); }
	let mut w = W::build_in_order(&es, &order);
	w.no_sleep();
	w.sys.iteration_max = limit;
	log_scene(ctx, &es);
	for _ in 0..if ctx.thorough { 3 } else { 2 } {
		let mut bs = w.bodies();
		let before = bs.clone();
		w.tick(ctx, dt);
		let recs = w.recs();
		let after = w.bodies();
		if recs.len() > 1 { ctx.interesting(); }
		ctx.outcome(match recs.len() { 0 => "nothing collided", 1 => "one of possibly many", 2..=5 => "several in a step", _ => "many in a step" });
		let mut now = 0.0;
		let (mut err, mut arm) = (vec![0.0; es.len()], vec![0.0; es.len()]);
		for (k, r) in recs.iter().enumerate() {
			ensure!(r.a < es.len() && r.b < es.len() && r.a != r.b, "record {} names entities {} and {}", k, r.a as isize, r.b as isize);
			for b in bs.iter_mut() { *b = b.moved(r.t - now); }
			now = now.max(r.t);
			let e = if r.a < base || r.b < base { r32(ea) * r32(eb) } else { r32(eb) * r32(eb) };
			ensure!((r.e - e).abs() < 1e-6, "record {}: the restitution is {}, the product of the two is {}", k, r.e, e);
			let (a, b) = (&bs[r.a], &bs[r.b]);
			let speed = a.vel.len() + b.vel.len() + a.w.len() * (r.pos - a.com).len() + b.w.len() * (r.pos - b.com).len() + 0.1;
			let closing = (a.vel_at(r.pos) - b.vel_at(r.pos)).dot(r.n);
			let kk = pairs::k_along(a, b, r.pos, r.n);
			let want = (1.0 + r.e) * closing / kk;
			let tol = 1e-5 * speed * (k + 1) as f64;
			let jt = 1e-4 * want.abs() + 5.0 * tol / kk;
			ctx.dev("impulse, many", (r.j - want).abs() / jt);
			ensure!((r.j - want).abs() <= jt, "record {}: the impulse is {}, the restitution law needs {} (closing {}, effective mass {})", k, r.j, want, closing, 1.0 / kk);
			for (i, s) in [(r.a, -1.0), (r.b, 1.0)] {
				let j = r.n * (r.j * s);
				arm[i] += 1e-6 * (1.0 + r.pos.len() + bs[i].com.len()) * r.j * bs[i].inv_inertia().max_abs();
				let (dv, dw) = (j * bs[i].inv_mass(), bs[i].inv_inertia().mv((r.pos - bs[i].com).cross(j)));
				err[i] += 3e-5;
				if bs[i].movable() { bs[i].vel = bs[i].vel + dv; bs[i].w = bs[i].w + dw; }
			}
		}
		for i in 0..es.len() {
			let (is, want) = (&after[i], &bs[i]);
			if !want.movable() { ensure!(is.vel == before[i].vel && is.w == before[i].w, "immovable entity {} went from v={:?} w={:?} to v={:?} w={:?}", i, before[i].vel.arr(), before[i].w.arr(), is.vel.arr(), is.w.arr()); continue; }
			let (vt, wt) = ((err[i] + 1e-6) * (1.0 + want.vel.len() + before[i].vel.len()), (err[i] + 1e-6) * (1.0 + want.w.len() + before[i].w.len() + want.vel.len()) + arm[i]);
			ctx.dev("velocity, many", (is.vel - want.vel).len() / vt);
			ctx.dev("angular velocity, many", (is.w - want.w).len() / wt);
			ensure!(near(is.vel, want.vel, vt), "entity {} ended with velocity {:?}, its records make it {:?}", i, is.vel.arr(), want.vel.arr());
			ensure!(near(is.w, want.w, wt), "entity {} ended with angular velocity {:?}, its records make it {:?}", i, is.w.arr(), want.w.arr());
		}
	}
	Ok(())
}

fn single(ctx: &mut Ctx) -> R {
	let p = pairs::pick_pair(ctx, false)?;
	let mut w = pairs::build(&p);
	log_scene(ctx, &p.ents);
	let before = w.bodies();
	w.tick(ctx, p.dt);
	let recs = w.recs();
	let after = w.bodies();
	if !pairs::is_ours(&p, &recs)? { ctx.outcome("something else first"); return Err(Stop::Skip); }
	if recs.is_empty() {
		for i in 0..2 { ensure!(near(after[i].vel, before[i].vel, 1e-6 * (1.0 + before[i].vel.len())) && near(after[i].w, before[i].w, 1e-6 * (1.0 + before[i].w.len())), "nothing was recorded but entity {} changed its velocity", i); }
		ctx.outcome("no contact");
		return Ok(());
	}
	ensure!(recs.len() == 1, "an iteration limit of 1 handled {} collisions", recs.len());
	ctx.interesting();
	ctx.outcome(["sphere-sphere", "sphere-plane", "sphere-box face", "sphere-box edge", "sphere-box corner", "sphere-mesh face", "sphere-mesh edge", "mesh-plane", "mesh-mesh"][p.kind]);
	let r = &recs[0];
	check_normal(ctx, r, &before, &after, p.e)
}

/// The bodies at the moment of contact must have been changed by the recorded impulse, and only by it.
pub fn check_normal(ctx: &mut Ctx, r: &Rec, before: &[Body], after: &[Body], e: f64) -> R {
	ensure!((r.e - e).abs() < 1e-6, "the recorded restitution is {}, the product of the two is {}", r.e, e);
	ensure!((r.n.len() - 1.0).abs() < 1e-4, "the normal {:?} is not a unit vector", r.n.arr());
	let at: Vec<Body> = before.iter().map(|b| b.moved(r.t)).collect();
	let (a, b) = (&at[r.a], &at[r.b]);
	let (x, y) = (&after[r.a], &after[r.b]);
	let closing = (a.vel_at(r.pos) - b.vel_at(r.pos)).dot(r.n);
	ensure!(closing > -1e-5, "the points were separating at {}", -closing);
	let k = pairs::k_along(a, b, r.pos, r.n);
	let want = (1.0 + e) * closing / k;
	let lever = (r.pos - a.com).len().max((r.pos - b.com).len());
	let speed = a.vel.len() + b.vel.len() + lever * (a.w.len() + b.w.len()) + 1.0;
	let jtol = 3e-5 * want.abs() + 2e-6 * speed / k;
	ctx.dev("impulse", (r.j - want).abs() / jtol);
	ensure!((r.j - want).abs() <= jtol, "the recorded impulse is {}, the restitution law needs {} (closing {}, effective mass {})", r.j, want, closing, 1.0 / k);
	for (i, s, was, is) in [(r.a, -1.0, a, x), (r.b, 1.0, b, y)] {
		let j = r.n * (r.j * s);
		let (dv, dw) = (j * was.inv_mass(), was.inv_inertia().mv((r.pos - was.com).cross(j)));
		let vt = 1e-5 * dv.len() + 1e-6 * (was.vel.len() + is.vel.len()) + 1e-6;
		// The moment arm is a difference of rounded positions.
		let arm = 1e-6 * (1.0 + r.pos.len() + was.com.len()) * r.j * was.inv_inertia().max_abs();
		let wt = 3e-5 * dw.len() + 2e-6 * (was.w.len() + is.w.len()) + 1e-6 + arm + 1e-5 * r.j * (r.pos - was.com).len() * was.inv_inertia().max_abs();
		if !was.movable() {
			ensure!(is.vel == was.vel && is.w == was.w, "immovable entity {} went from v={:?} w={:?} to v={:?} w={:?}", i, was.vel.arr(), was.w.arr(), is.vel.arr(), is.w.arr());
			continue;
		}
		ctx.dev("velocity", (is.vel - was.vel - dv).len() / vt);
		ctx.dev("angular velocity", (is.w - was.w - dw).len() / wt);
		ensure!(near(is.vel, was.vel + dv, vt), "entity {} (mass {}) went from velocity {:?} to {:?}, the recorded impulse makes it {:?}", i, was.mass, was.vel.arr(), is.vel.arr(), (was.vel + dv).arr());
		ensure!(near(is.w, was.w + dw, wt), "entity {} went from angular velocity {:?} to {:?}, the recorded impulse makes it {:?}", i, was.w.arr(), is.w.arr(), (was.w + dw).arr());
	}
	// Seen directly: the bounce, and momentum.
	let (x, y) = (Body { vel: x.vel, w: x.w, ..a.clone() }, Body { vel: y.vel, w: y.w, ..b.clone() });
	let parting = -(x.vel_at(r.pos) - y.vel_at(r.pos)).dot(r.n);
	let bt = 1e-4 * closing.abs() + 3e-6 * speed + 3e-6 * lever * (x.w.len() + y.w.len());
	ctx.dev("bounce", (parting - e * closing).abs() / bt);
	ensure!((parting - e * closing).abs() <= bt, "the points closed at {} and part at {}, restitution is {}", closing, parting, e);
	if a.movable() && b.movable() {
		let lin = |p: &Body, q: &Body| p.vel * p.mass + q.vel * q.mass;
		let ang = |p: &Body, q: &Body| p.com.cross(p.vel * p.mass) + p.inertia.mv(p.w) + q.com.cross(q.vel * q.mass) + q.inertia.mv(q.w);
		let big = a.mass * (a.vel.len() + 1.0) + b.mass * (b.vel.len() + 1.0);
		// A body that cannot be turned by impulses (no inertia) soaks up angular momentum.
		ensure!(near(lin(&x, &y), lin(a, b), 2e-5 * big + 1e-4 * r.j), "momentum went from {:?} to {:?}", lin(a, b).arr(), lin(&x, &y).arr());
		if a.inertia.max_abs() > 1e-9 && b.inertia.max_abs() > 1e-9 && !a.inertia.thin() && !b.inertia.thin() {
			let bt = 4e-5 * big + 4e-5 * r.j + 1e-6 * (a.inertia.max_abs() * (a.w.len() + x.w.len()) + b.inertia.max_abs() * (b.w.len() + y.w.len()));
			ctx.dev("angular momentum", (ang(&x, &y) - ang(a, b)).len() / bt);
			ensure!(near(ang(&x, &y), ang(a, b), bt), "angular momentum went from {:?} to {:?}", ang(a, b).arr(), ang(&x, &y).arr());
		}
	}
	Ok(())
}
