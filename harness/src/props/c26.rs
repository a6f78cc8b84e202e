//! C26 - only the scene matters, not how it came about.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::scenes::{self, *};
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C26", body,
	rule: "every scene of scenes.rs x placements x velocities x restitution/friction x step length x iteration limit x force generators, run once as built and once after every sequence (to the depth bound) of detours that end in the same scene: colliders holding other values for a while, colliders on another entity for a while, heavy or immovable parts or bodies for a while (with and without a step meanwhile), poses stored after linking, an earlier life of the same bodies (awake or asleep, under other materials, forces and limits) followed by putting everything back, an earlier life of other bodies in the same slots, visitors that came, collided and left; records and states of all later steps are compared; non-trivial when something collided",
	assumptions: &["compared as in C21: judged are the steps in which the same collisions happen when everything is nudged by 1e-5 four ways, and rounding may move the result at most twice as far as such a nudge does plus a floor"],
};

const DETOURS: usize = 14;

/// Puts the bodies where (and how fast) they are to start from.
fn put_back(w: &mut W, s: &Scene, start: &[Body]) {
	for (i, e) in s.ents.iter().enumerate() {
		// By way of somewhere else, so that it is a change in any case.
		for away in [3.0, 0.0] {
			w.edit(i, |x| {
				x.position = f3(start[i].com + v(0.0, 0.0, away));
				x.rotation = f3(e.rot);
				x.velocity = f3(e.vel + v(away, 0.0, 0.0));
				x.angular_velocity = f3(e.w);
				x.own_mass = e.own as f32;
			});
		}
	}
}
fn each_collider<F: FnMut(&mut W, &Col, fluffy_tribble::ColliderHandle, usize)>(w: &mut W, s: &Scene, mut f: F) {
	for (i, e) in s.ents.iter().enumerate() { for (k, c) in e.cols.iter().enumerate() { let h = w.cols[i][k]; f(w, c, h, i); } }
}
/// The same kind of collider with everything about it different.
fn changed(c: &Col) -> Col {
	let mut x = c.clone().rest(0.1).fric(2.0, 1.5, 3.0);
	x.mass = c.mass * 3.0 + 1.0;
	let by = v(0.7, -0.2, 0.4);
	match &mut x.shape {
		Shape::Null { pos, tensor } => { *pos = *pos + by; *tensor = tensor.scale(2.0); }
		Shape::Sphere { c, r } => { *c = *c - by; *r *= 1.7; }
		Shape::Plane { p, n } => { *p = *p + by; *n = v(n.y, n.z, n.x); }
		Shape::Box { pos, a, .. } => { *pos = *pos - by; *a = *a * 2.0; }
		Shape::Mesh { pos, faces } => { *pos = *pos + by; for f in faces.iter_mut() { for p in f.iter_mut() { *p = *p * 1.5; } } }
	}
	x
}

fn detour(ctx: &mut Ctx, w: &mut W, s: &Scene, start: &[Body], k: usize) -> R {
	let ok = |r: Result<(), ()>, what: &str| -> R { if r.is_err() { bad!("{} was refused", what); } Ok(()) };
	let mut res: R = Ok(());
	// The last few are the first few with a step in their middle.
	let (k, mid) = if k < 10 { (k, false) } else { (k - 9, true) };
	let middle = |w: &mut W, ctx: &mut Ctx| if mid { w.drowsy(); for i in 0..s.ents.len() { w.edit(i, |x| if x.own_mass.is_finite() { x.own_mass = 1.0 }); } w.tick(ctx, s.dt); };
	match k {
		// Other values for a while.
		0 => {
			each_collider(w, s, |w, c, h, _| if res.is_ok() { res = ok(w.sys.update_collider(h, changed(c).wrap()), "an update"); });
			each_collider(w, s, |w, c, h, _| if res.is_ok() { res = ok(w.sys.update_collider(h, c.wrap()), "an update"); });
		}
		// On another entity for a while.
		1 => {
			let host = w.sys.add_entity(Ent::new().own(3.0).at(v(5.0, 60.0, 0.0)).rot(v(0.3, 0.0, 1.0)).public()).expect("entity refused");
			each_collider(w, s, |w, _, h, _| if res.is_ok() { res = ok(w.sys.link_collider(h, Some(host)), "a link"); });
			middle(w, ctx);
			each_collider(w, s, |w, _, h, i| if res.is_ok() { let e = w.ents[i]; res = ok(w.sys.link_collider(h, Some(e)), "a link"); });
			ensure!(w.sys.remove_entity(host), "the other entity is gone");
		}
		// Nowhere for a while.
		2 => {
			each_collider(w, s, |w, _, h, _| if res.is_ok() { res = ok(w.sys.link_collider(h, None), "an unlink"); });
			middle(w, ctx);
			each_collider(w, s, |w, _, h, i| if res.is_ok() { let e = w.ents[i]; res = ok(w.sys.link_collider(h, Some(e)), "a link"); });
		}
		// A heavy, then an immovable part for a while.
		3 => { let mut hs = vec![]; for i in 0..s.ents.len() {
			let h = w.sys.add_collider(null(v(1.0, 2.0, -1.0), 9.0, M3::diag(3.0, 1.0, 2.0)).wrap()).expect("collider refused");
			res = res.and(ok(w.sys.link_collider(h, Some(w.ents[i])), "a link"));
			res = res.and(ok(w.sys.update_collider(h, null(v(0.0, 0.5, 0.0), INF, M3::id()).wrap()), "an update"));
			if mid { hs.push(h); } else { w.sys.remove_collider(h); }
		} middle(w, ctx); for h in hs { w.sys.remove_collider(h); } }
		// Another own mass and pose for a while.
		4 => { for i in 0..s.ents.len() { w.edit(i, |x| { x.own_mass = if s.ents[i].own.is_finite() { INF as f32 } else { 2.0 }; x.rotation = f3(v(1.0, 2.0, 3.0)); }); } middle(w, ctx); put_back(w, s, start); }
		// An earlier life.
		5 | 6 | 7 => {
			let gens: Vec<_> = s.gens.iter().map(|_| ()).collect();
			let mut hs = vec![];
			if k == 5 { for _ in gens { hs.push(w.sys.add_unary_force_generator(Box::new(fluffy_tribble::GravityGenerator::new(f3(v(1.0, -9.0, 2.0))))).expect("generator refused")); } }
			if k == 6 { w.sys.energy_sleep_threshold = 1e30; w.sys.sleep_time_threshold = 0.0; } else { w.drowsy(); }
			if k == 7 {
				w.sys.iteration_max = 1;
				each_collider(w, s, |w, c, h, _| if res.is_ok() { res = ok(w.sys.update_collider(h, c.clone().rest(0.0).fric(1.0, 1.0, 1.0).wrap()), "an update"); });
				for i in 0..s.ents.len() { w.edit(i, |x| x.velocity = f3(v(0.5, -3.0, 0.2) * if i % 2 == 0 { 1.0 } else { -1.0 })); }
			}
			for _ in 0..3 { w.tick(ctx, s.dt * if k == 7 { 2.0 } else { 1.0 }); }
			if k == 7 { each_collider(w, s, |w, c, h, _| if res.is_ok() { res = ok(w.sys.update_collider(h, c.wrap()), "an update"); }); }
			for h in hs { ensure!(w.sys.remove_unary_force_generator(h).is_some(), "the generator is gone"); }
			put_back(w, s, start);
		}
		// Everybody leaves, then the same come anew (into the old slots).
		8 => {
			w.drowsy();
			w.tick(ctx, s.dt);
			for i in 0..s.ents.len() { ensure!(w.sys.remove_entity(w.ents[i]), "entity {} is gone", i); }
			w.ents.clear();
			w.cols.clear();
			w.tick(ctx, s.dt);
			for e in &s.ents { w.add(e); }
		}
		// Visitors that collide with everything and leave.
		_ => {
			w.drowsy();
			let mut vis = vec![];
			for i in 0..s.ents.len() {
				let e = w.sys.add_entity(Ent::new().own(4.0).at(start[i].com + v(0.4, 0.9, 0.1)).vel(v(-1.0, -5.0, 0.0)).public()).expect("entity refused");
				let c = w.sys.add_collider(sphere(0.6).wrap()).expect("collider refused");
				res = res.and(ok(w.sys.link_collider(c, Some(e)), "a link"));
				vis.push(e);
			}
			for _ in 0..2 { w.tick(ctx, s.dt); }
			for e in vis { ensure!(w.sys.remove_entity(e), "a visitor is gone"); }
			put_back(w, s, start);
		}
	}
	if mid { put_back(w, s, start); }
	res
}

fn body(ctx: &mut Ctx) -> R {
	let s = scenes::pick(ctx, SCENES)?;
	let base = reference(ctx, &s);
	if base.run.is_empty() { ctx.outcome("hangs on a hair"); return Err(Stop::Skip); }
	if base.run.iter().any(|x| !x.recs.is_empty()) { ctx.interesting(); ctx.outcome("collisions"); }
	let mut w = W::build(&s.ents);
	let start = w.bodies();
	log_scene(ctx, &s.ents);
	for n in 0..2 {
		let k = if n == 0 || ctx.thorough { ctx.pick(DETOURS + n) } else { ctx.pick(11) };
		if k == if ctx.thorough { DETOURS } else { 10 } && n == 1 { break; }
		ctx.log(|| format!("-- detour {}", k));
		detour(ctx, &mut w, &s, &start, k)?;
		ctx.step();
	}
	let got = run(ctx, w, &s, &s.gens);
	compare(ctx, &s, &base, &got, 2.0, "after the detours")
}
