//! C06 - forces.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::world::*;
use fluffy_tribble::*;
use std::cell::RefCell;
use std::rc::Rc;

pub const PROP: Prop = Prop {
	id: "C06", body,
	rule: "every set of up to 3 (thorough 4) generators out of 7 kinds (push at a world point, push at a point of the body, drag, mass-proportional, library gravity, library gravity along a skew direction, a pull towards how another entity moves) x worlds of 1-3 entities (and crowds of a dozen entities under a dozen generators) out of 8 kinds (bare mass, tiny mass, two point masses, off-centre sphere, spinning anisotropic composite, massless, immovable by its own mass, immovable by a collider) x order x step length x what happens between the two or three steps (nothing, a generator is removed, a generator is added, a collider is added, mass changes); velocities and poses are compared with Newton-Euler and every question asked of a generator is logged; non-trivial when a force acts",
	assumptions: &["entities stay clear of each other", "sleeping is disabled here (sleepers are C17's)", "masses of 1e-3 and more count as non-zero"],
};

type Log = Rc<RefCell<Vec<(usize, EntityHandle, f32)>>>;
/// Generator kinds; `force` is the reference law, also used by the implementation below.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Law { Push(V3, V3), BodyPush(V3, V3), Drag(f64), Prop(V3), Gravity(V3), Follow(f64) }
fn force(l: Law, b: &Body, leader: &Body) -> (V3, V3) {
	match l {
		Law::Follow(k) => ((leader.vel - b.vel + (leader.w - b.w) * 0.5) * k + (leader.com - b.com) * 0.05, b.com),
		Law::Push(f, at) => (f, at),
		Law::BodyPush(f, off) => (f, b.com + off),
		Law::Drag(k) => (b.vel * -k, b.com),
		Law::Prop(a) => (a * b.mass, b.com + v(0.25, 0.0, -0.5)),
		Law::Gravity(a) => (a * b.mass, b.com),
	}
}
#[derive(Debug)]
struct Gen { id: usize, law: Law, log: Log, leader: EntityHandle }
impl UnaryForceGenerator for Gen {
	fn make_force(&mut self, dt: f32, physics: &PhysicsSystem, e: EntityHandle) -> Force {
		self.log.borrow_mut().push((self.id, e, dt));
		let b = body_of(&physics.get_entity(e).expect("a generator is asked about an entity that does not exist"));
		let leader = body_of(&physics.get_entity(self.leader).expect("an entity vanished"));
		let (f, at) = force(self.law, &b, &leader);
		Force::new(f3(f), f3(at))
	}
}

fn laws() -> Vec<Law> {
	vec![
		Law::Push(v(3.0, -1.0, 0.5), v(1.0, 2.0, -1.0)),
		Law::BodyPush(v(0.0, 4.0, -2.0), v(0.5, 0.0, 0.25)),
		Law::Drag(0.7),
		Law::Prop(v(0.0, 0.0, 2.0)),
		Law::Gravity(v(0.0, -9.81, 0.0)),
		Law::Gravity(v(1.0, -3.0, 0.25)),
		Law::Follow(0.6),
	]
}
fn entity(k: usize) -> Ent {
	match k {
		0 => Ent::new().own(2.0),
		1 => Ent::new().own(0.5).col(sphere_at(v(1.0, 0.0, 0.0), 0.5).mass(2.0)).col(boxx(v(-0.5, 1.0, 0.0), v(-1.0, -0.25, -0.5), v(1.0, 0.25, 0.5)).mass(1.0)).w(v(1.0, -2.0, 0.5)),
		2 => Ent::new().col(sphere_at(v(0.0, 0.5, 0.0), 0.25).mass(0.4)).col(null(v(0.0, 0.5, 0.0), 3.0, M3::diag(0.5, 2.0, 1.0))),
		3 => Ent::new().own(0.0).col(sphere(0.3)),
		4 => Ent::new().own(INF).col(boxx(O, v(-1.0, -0.25, -0.5), v(1.0, 0.25, 0.5)).mass(2.0)),
		5 => Ent::new().own(1.0).col(null(v(0.0, 1.0, 0.0), INF, M3::id())),
		6 => Ent::new().own(1e-3),
		_ => Ent::new().own(0.1).col(null(v(0.0, 1.0, 0.5), 2.0, M3::ZERO)).col(null(v(0.0, -1.0, -0.5), 1.0, M3::ZERO)),
	}
}

struct G { law: Law, h: UnaryForceGeneratorHandle, alive: bool }

fn body(ctx: &mut Ctx) -> R {
	let laws = laws();
	let mut gens: Vec<usize> = vec![];
	let most = if ctx.thorough { 4 } else { 3 };
	while gens.len() < most { let g = ctx.pick(laws.len() + 1); if g == 0 { break; } gens.push(g - 1); }
	// The same few over and over, on a crowd.
	let crowd = gens.len() <= 2 && ctx.flag();
	if crowd { let few = gens.clone(); for k in 0..if few.is_empty() { 0 } else { 9 } { gens.push(if k % 4 == 3 { k % laws.len() } else { few[k % few.len()] }); } }
	let n = 1 + ctx.pick(if gens.len() < 3 || ctx.thorough { 3 } else { 2 });
	ctx.shard()?;
	let kinds: Vec<usize> = match n { 1 => vec![ctx.pick(8)], 2 => { let a = ctx.pick(8); vec![a, (a + 1 + ctx.pick(3)) % 8] } _ => { let a = ctx.pick(8); vec![a, (a + 2) % 8, (a + 5) % 8] } };
	let kinds: Vec<usize> = if crowd { (0..12).map(|i| if i % 3 == 2 { i % 8 } else { kinds[i % kinds.len()] }).collect() } else { kinds };
	let dt = *ctx.of(&[0.1, 1.0, 1e-3, 5.0]);
	let vels = [v(0.5, -1.0, 2.0), O, v(-3.0, 0.0, 1.0)];
	let es: Vec<Ent> = kinds.iter().enumerate().map(|(i, k)| entity(*k).at(v(40.0 * i as f64, -10.0, 3.0)).rot(v(0.7, -0.4, 1.2) * i as f64 + v(0.3, 0.0, -0.9)).vel(vels[(i + n) % 3])).collect();
	let mut between = vec![];
	for _ in 0..if ctx.thorough { 2 } else { 1 } { between.push(ctx.pick(6)); }
	// All asleep before anything pulls (sleepers are asked about too, but feel nothing).
	let sleepers = gens.len() <= 2 && n < 3 && ctx.flag();
	let mut w = W::new();
	for e in &es { w.add(e); }
	if sleepers {
		w.sys.energy_sleep_threshold = 1e30; w.sys.sleep_time_threshold = 0.0;
		for i in 0..es.len() { w.edit(i, |e| { e.velocity = f3(O); e.angular_velocity = f3(O); }); }
		for _ in 0..3 { w.step(0.1); }
		for (i, b) in w.bodies().iter().enumerate() { ensure!(b.asleep, "entity {} is not asleep after three steps at rest", i); }
	}
	w.no_sleep();
	let log: Log = Rc::new(RefCell::new(vec![]));
	let mut gs: Vec<G> = vec![];
	fn add(w: &mut W, gs: &mut Vec<G>, log: &Log, law: Law) {
		let id = gs.len();
		let h = match law {
			Law::Gravity(a) => w.sys.add_unary_force_generator(Box::new(GravityGenerator::new(f3(a)))),
			l => w.sys.add_unary_force_generator(Box::new(Gen { id, law: l, log: log.clone(), leader: w.ents[0] })),
		};
		gs.push(G { law, h: h.expect("generator refused"), alive: true });
	}
	for g in &gens { add(&mut w, &mut gs, &log, laws[*g]); }
	log_scene(ctx, &es);
	ctx.log(|| format!("generators {:?} then {:?}", gens.iter().map(|g| laws[*g]).collect::<Vec<_>>(), between));
	for k in 0..=between.len() {
		if k > 0 {
			match between[k - 1] {
				0 => {}
				1 | 2 => { let j = if between[k - 1] == 1 { 0 } else { gs.len().max(1) - 1 }; if j < gs.len() && gs[j].alive { ensure!(w.sys.remove_unary_force_generator(gs[j].h).is_some(), "a generator could not be removed"); gs[j].alive = false; } }
				3 => add(&mut w, &mut gs, &log, Law::BodyPush(v(1.0, 1.0, 1.0), v(0.0, 0.3, 0.0))),
				4 => { let c = w.sys.add_collider(sphere_at(v(0.0, 0.0, 1.5), 0.5).mass(1.5).wrap()).expect("collider refused"); w.sys.link_collider(c, Some(w.ents[0])).expect("link refused"); }
				_ => w.edit(0, |e| e.own_mass += 1.25),
			}
		}
		let before = w.bodies();
		log.borrow_mut().clear();
		w.tick(ctx, dt);
		let d = r32(dt);
		// Who was asked.
		let asked = log.borrow().clone();
		let mut expected = 0;
		for (gi, g) in gs.iter().enumerate() {
			if let Law::Gravity(_) = g.law { continue; }
			for (i, b) in before.iter().enumerate() {
				let c = asked.iter().filter(|(a, h, _)| *a == gi && *h == w.ents[i]).count();
				let want = (g.alive && b.mass.is_finite() && b.mass > 1e-6) as usize;
				expected += want;
				ensure!(c == want, "generator {} ({:?}) was asked {} times about entity {} of mass {}, should be {}", gi, g.law, c, i, b.mass, want);
			}
		}
		ensure!(asked.len() == expected, "{} questions were asked, {} expected", asked.len(), expected);
		ensure!(asked.iter().all(|(_, _, t)| *t as f64 == d), "a generator was told another step length");
		if (crowd || dt > 1.0) && !w.recs().is_empty() { return Err(Stop::Skip); }
		ensure!(w.recs().is_empty(), "something collided");
		for (i, (b, a)) in before.iter().zip(w.bodies()).enumerate() {
			let (mut dv, mut torque) = (O, O);
			let mut only_gravity = true;
			if b.asleep { ensure!(a.asleep, "entity {} woke up though it is not touched", i); ctx.outcome("asleep"); }
			if b.mass.is_finite() && b.mass > 1e-6 && !b.asleep {
				for g in gs.iter().filter(|g| g.alive) {
					let (f, at) = force(g.law, b, &before[0]);
					dv = dv + f * (d / b.mass);
					torque = torque + (at - b.com).cross(f);
					if let Law::Gravity(_) = g.law {} else { only_gravity = false; }
				}
			}
			let dw = b.inv_inertia().mv(torque * d);
			if dv.len() > 0.0 { ctx.interesting(); ctx.outcome("accelerated"); } else if !b.mass.is_finite() || b.mass == 0.0 { ctx.outcome("ignores forces"); }
			let (vt, wt) = (2e-5 * (1.0 + b.vel.len() + dv.len()), 2e-4 * (dw.len() + 0.05 * b.w.len()) + 1e-6);
			ctx.dev("velocity", (a.vel - b.vel - dv).len() / vt);
			ctx.dev("angular velocity", (a.w - b.w - dw).len() / wt);
			ensure!(near(a.vel, b.vel + dv, vt), "entity {} of mass {} went from velocity {:?} to {:?}, Newton says {:?}", i, b.mass, b.vel.arr(), a.vel.arr(), (b.vel + dv).arr());
			// Gravity acts at the centre as it was rounded: no turning beyond that.
			if only_gravity { ensure!(near(a.w, b.w, 1e-5), "gravity turns entity {} from {:?} to {:?}", i, b.w.arr(), a.w.arr()); }
			ensure!(near(a.w, b.w + dw, wt), "entity {} went from angular velocity {:?} to {:?}, Euler says {:?}", i, b.w.arr(), a.w.arr(), (b.w + dw).arr());
			let want = Body { vel: a.vel, w: a.w, ..b.clone() }.moved(d);
			ensure!(near(a.com, want.com, 1e-5 * (1.0 + b.com.len() + a.vel.len() * d)), "entity {} moved to {:?}, its new velocity takes it to {:?}", i, a.com.arr(), want.com.arr());
			ctx.dev("rotation", a.rot.max_diff(&want.rot) / (1.0 + a.w.len() * d));
			ensure!(a.rot.max_diff(&want.rot) < 2e-5 * (1.0 + a.w.len() * d), "entity {} turned to {:?}, its new angular velocity takes it to {:?}", i, a.rot.0, want.rot.0);
		}
	}
	Ok(())
}
