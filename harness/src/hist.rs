//! Histories of a world with gravity, sleeping and interventions, shared by C16, C17 and C18.
//!
//! A history is: a world, its parameters, and a run of `horizon` steps during which up to `devs`
//! interventions happen, each at any step (all placements, all interventions: enumerated).
//! The reference bookkeeping is done from what can be observed from outside only.
use crate::engine::*;
use crate::geom::*;
use crate::m::*;
use crate::world::*;
use fluffy_tribble::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Who { C16, C17, C18 }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Iv { Push(usize, V3), Stop(usize), Same(usize), Away(usize), Mass(usize), Remove(usize), Shoot(usize, V3), Drop(usize), Gravity(V3), Spin(usize), Turn(usize), Nudge(usize), Twist(usize) }

pub struct Wd { pub ents: Vec<Ent>, pub gravity: V3, pub name: &'static str }

/// Spheres carry their mass in the body (`1`), or as colliders (`2`), so some can be turned.
pub fn ball(p: V3, m: f64, e: f64, k: usize) -> Ent { let s = sphere(0.5).rest(e); if k == 1 { Ent::new().own(m).at(p).col(s) } else { Ent::new().at(p).col(s.mass(m)) } }
pub const WORLDS: usize = 12;
pub fn world(k: usize, e: f64) -> Wd {
	let mut wd = placed(k, e);
	// Turned by more than half a turn either way, or not at all.
	for (i, x) in wd.ents.iter_mut().enumerate() { if x.own.is_finite() { *x = x.clone().rot([O, v(0.0, 4.0, 0.0), v(1.2, -3.0, 0.7), v(0.1, 0.2, -0.3)][(k + i) % 4]); } }
	wd
}
fn placed(k: usize, e: f64) -> Wd {
	let im = || Ent::new().own(INF);
	let b = |x: f64, y: f64, z: f64, m: f64| ball(v(x, y, z), m, e, 1);
	let plane_floor = || im().col(plane(O, v(0.0, 1.0, 0.0)).rest(e));
	let g = v(0.0, -10.0, 0.0);
	match k {
		0 => Wd { name: "ball on a plane", gravity: g, ents: vec![plane_floor(), b(0.0, 0.5, 0.0, 1.0)] },
		1 => Wd { name: "two-ball stack on a plane", gravity: g, ents: vec![plane_floor(), b(0.0, 0.5, 0.0, 1.0), b(0.0, 1.5, 0.0, 1.0)] },
		2 => Wd { name: "stack listed top first on a box", gravity: g, ents: vec![b(0.0, 1.5, 0.0, 1.0), b(0.0, 0.5, 0.0, 2.0), im().col(boxx(O, v(-9.0, -1.0, -9.0), v(9.0, 0.0, 9.0)).rest(e))] },
		3 => Wd { name: "ball above a ball above a mesh", gravity: g, ents: vec![b(0.2, 0.52, 0.1, 0.5), im().col(mesh(O, box_faces(v(-9.0, -1.0, -9.0), v(9.0, 0.0, 9.0))).rest(e)), b(0.2, 1.56, 0.1, 1.0)] },
		4 => Wd { name: "three balls in a row on a plane, touching", gravity: g, ents: vec![b(-1.0, 0.5, 0.0, 1.0), b(0.0, 0.5, 0.0, 1.0), plane_floor(), b(1.0, 0.5, 0.0, 3.0)] },
		5 => Wd { name: "two balls at rest in space, touching, one apart", gravity: O, ents: vec![b(0.0, 0.0, 0.0, 1.0), b(1.0, 0.0, 0.0, 1.0), b(4.0, 0.0, 0.0, 2.0)] },
		6 => Wd { name: "ball pressed into a corner of two planes", gravity: v(-7.0, -7.0, 0.0), ents: vec![b(0.5, 0.5, 0.0, 1.0), plane_floor(), im().col(plane(O, v(1.0, 0.0, 0.0)).rest(e)), b(1.5, 0.5, 0.0, 1.0)] },
		7 => Wd { name: "ball falling onto a resting ball's floor", gravity: g, ents: vec![plane_floor(), b(0.0, 0.5, 0.0, 1.0), b(2.0, 0.8, 0.0, 1.0)] },
		10 => {
			// Moving and turning: each half of the energy below a threshold (0.001, 0.05), together above one or not.
			let spun = |x: f64, lin: f64, rot: f64| {
				let b = ball(v(x, 3.0, 0.0), 2.0, e, 2);
				let i = 0.4 * 2.0 * 0.25;
				b.vel(v(0.6, 0.0, 0.8) * f64::sqrt(lin)).w(v(0.0, 0.8, -0.6) * f64::sqrt(2.0 * rot / i))
			};
			let bar = Ent::new().own(0.5).at(v(30.0, 3.0, 0.0)).vel(v(0.0, 0.2, 0.0)).w(v(0.0, 0.15, 0.0)).col(sphere_at(v(0.7, 0.0, 0.0), 0.4).mass(1.0)).col(sphere_at(v(-0.7, 0.0, 0.0), 0.4).mass(1.0));
			Wd { name: "turning balls drifting in space", gravity: O, ents: vec![spun(0.0, 0.035, 0.035), spun(8.0, 0.0007, 0.0007), spun(16.0, 0.0007, 0.0002), spun(-8.0, 0.01, 0.035), bar] }
		}
		11 => Wd { name: "a dozen balls in a line in space, the first drifting into the next", gravity: O, ents: (0..12).map(|i| ball(v(1.0001 * i as f64 - 4.0, 3.0, 0.0), 1.0, e, 1 + i % 2).vel(if i == 0 { v(0.04, 0.0, 0.0) } else { O })).collect() },
		9 => Wd { name: "ball on a plane, beside immovable things that turn, move and rest", gravity: g, ents: vec![im().at(v(6.0, 3.0, 0.0)).w(v(0.0, 2.0, 0.0)).col(sphere(0.5).rest(e)), plane_floor(), b(0.0, 0.5, 0.0, 1.0), im().at(v(-6.0, 3.0, 0.0)).vel(v(0.0, 0.2, 0.1)).col(sphere(0.5).rest(e)), im().at(v(0.0, 3.0, 9.0)).col(sphere(0.5).rest(e)).col(boxx(v(0.0, 1.0, 0.0), v(-1.0, 0.0, -1.0), v(1.0, 1.0, 1.0)))] },
		_ => Wd { name: "three-ball stack", gravity: g, ents: vec![b(0.0, 2.5, 0.0, 1.0), b(0.0, 1.5, 0.0, 1.0), b(0.0, 0.5, 0.0, 1.0), im().col(plane(O, v(0.0, 1.0, 0.0)).rest(e))] },
	}
}
pub fn interventions(wd: &Wd, th: bool) -> Vec<Iv> {
	let mut r = vec![];
	if wd.ents.len() > 9 {
		for i in [0, 5, 11] { r.extend([Iv::Push(i, v(0.0, 3.0, 0.0)), Iv::Same(i), Iv::Away(i), Iv::Remove(i), Iv::Shoot(i, v(0.0, -25.0, 0.0)), Iv::Spin(i), Iv::Nudge(i)]); }
		return r;
	}
	for (i, e) in wd.ents.iter().enumerate() {
		if e.own.is_finite() {
			r.extend([Iv::Push(i, v(0.0, 3.0, 0.0)), Iv::Push(i, v(2.0, 0.0, 0.5)), Iv::Push(i, v(0.01, 0.0, 0.0)), Iv::Stop(i), Iv::Same(i), Iv::Away(i), Iv::Mass(i), Iv::Remove(i), Iv::Shoot(i, v(0.0, -25.0, 0.0)), Iv::Shoot(i, v(0.0, 0.0, 12.0)), Iv::Spin(i), Iv::Nudge(i), Iv::Twist(i)]);
			if th { r.extend([Iv::Push(i, v(-30.0, 0.0, 0.0)), Iv::Drop(i), Iv::Turn(i), Iv::Push(i, v(0.0, -5.0, 0.0))]); }
		} else {
			r.extend([Iv::Push(i, v(0.0, 0.3, 0.0)), Iv::Same(i), Iv::Remove(i)]);
			if th { r.extend([Iv::Push(i, v(0.5, -0.2, 0.0)), Iv::Turn(i)]); }
		}
	}
	r.extend([Iv::Gravity(v(0.0, 4.0, 0.0)), Iv::Gravity(v(6.0, -8.0, 0.0))]);
	if th { r.push(Iv::Gravity(O)); }
	r
}

/// What is known about a history from outside.
pub struct H {
	pub w: W, pub ents: Vec<Ent>, pub alive: Vec<bool>, pub g: V3, gen: Option<UnaryForceGeneratorHandle>,
	pub thr: f64, pub t: f64,
	/// Consecutive steps each entity has ended at or below the threshold (0 = the last one did not).
	pub slow: Vec<usize>,
	/// The same, since it (or something it is linked with) was last disturbed.
	pub calm: Vec<usize>,
	/// Steps since it was last woken by a stored change (large = long ago).
	pub since_wake: Vec<usize>,
	/// Touched since it last was fast, woken or disturbed.
	pub touched: Vec<Vec<usize>>,
	/// Pairs that touched and have not been seen apart with one of them fast since.
	pub weak: Vec<(usize, usize)>,
	/// User-made overlap or out-of-scope contact: the penetration oracle is off.
	pub tainted: bool,
	pub events: usize,
}

impl H {
	pub fn new(wd: &Wd, thr: f64, t: f64, limit: u8) -> H {
		let mut w = W::build(&wd.ents);
		w.sys.energy_sleep_threshold = thr as f32;
		w.sys.sleep_time_threshold = t as f32;
		w.sys.iteration_max = limit;
		let n = wd.ents.len();
		let mut h = H { w, ents: wd.ents.clone(), alive: vec![true; n], g: O, gen: None, thr, t, slow: vec![0; n], calm: vec![0; n], since_wake: vec![9999; n], touched: vec![vec![]; n], weak: vec![], tainted: false, events: 0 };
		h.gravity(wd.gravity);
		h
	}
	fn gravity(&mut self, g: V3) {
		if let Some(x) = self.gen.take() { self.w.sys.remove_unary_force_generator(x); }
		if g != O { self.gen = Some(self.w.sys.add_unary_force_generator(Box::new(GravityGenerator::new(f3(g)))).expect("generator refused")); }
		self.g = g;
	}
	pub fn n(&self) -> usize { self.ents.len() }
	pub fn body(&self, i: usize) -> Body { self.w.body(i) }
	fn asleep(&self, i: usize) -> bool { self.alive[i] && self.w.body(i).asleep }
	fn finite(&self, i: usize) -> bool { self.ents[i].own.is_finite() }
	/// Everything that has to be woken with `i`: finite-mass sleepers reachable over "came to rest against".
	pub fn closure(&self, i: usize) -> Vec<usize> {
		let mut out = vec![];
		let mut todo = vec![i];
		while let Some(x) = todo.pop() {
			for y in 0..self.n() {
				if y == i || out.contains(&y) || !self.alive[y] || !self.finite(y) || !self.asleep(y) { continue; }
				// Sleeping y touched x on its way to sleep, or sleeping x touched y on its own way to sleep.
				let l = self.touched[y].contains(&x) || (self.asleep(x) && self.touched[x].contains(&y));
				if l { out.push(y); todo.push(y); }
			}
		}
		out
	}
	fn forget(&mut self, i: usize) { self.slow[i] = 0; self.calm[i] = 0; self.part(i); }
	/// `i` was fast (or woken): nothing rests against it until it is touched again.
	fn part(&mut self, i: usize) { self.touched[i].clear(); for t in &mut self.touched { t.retain(|x| *x != i); } }
	/// Everything that may count as disturbed when `i` is: linked by touches, through anything but immovables.
	fn shaken(&self, i: usize) -> Vec<usize> {
		let mut out = vec![i];
		let mut k = 0;
		while k < out.len() {
			let x = out[k];
			k += 1;
			if x != i && !self.finite(x) { continue; }
			for y in 0..self.n() { if !out.contains(&y) && self.weak.iter().any(|p| *p == (x.min(y), x.max(y))) { out.push(y); } }
		}
		out
	}
	fn woken(&mut self, set: &[usize]) { for x in set { self.forget(*x); self.since_wake[*x] = 0; } }

	/// Performs an intervention; the oracle of C18 looks at who wakes.
	pub fn act(&mut self, ctx: &mut Ctx, who: Who, iv: Iv) -> R {
		ctx.log(|| format!("-- {:?}", iv));
		ctx.step();
		let before: Vec<Option<Body>> = (0..self.n()).map(|i| if self.alive[i] { Some(self.body(i)) } else { None }).collect();
		let was: Vec<bool> = before.iter().map(|b| b.as_ref().map(|b| b.asleep).unwrap_or(false)).collect();
		let target = match iv { Iv::Push(i, _) | Iv::Stop(i) | Iv::Same(i) | Iv::Away(i) | Iv::Mass(i) | Iv::Remove(i) | Iv::Shoot(i, _) | Iv::Drop(i) | Iv::Spin(i) | Iv::Turn(i) | Iv::Nudge(i) | Iv::Twist(i) => Some(i), Iv::Gravity(_) => None };
		if let Some(i) = target { if !self.alive[i] { ctx.log(|| "   (gone)".into()); return Ok(()); } }
		// Whom a change of the target must wake.
		let near: Vec<usize> = target.map(|i| self.closure(i)).unwrap_or_default();
		let mut changed = false;
		match iv {
			Iv::Push(i, x) => { changed = (self.body(i).vel - x).len() > 1e-5; self.w.edit(i, |e| e.velocity = f3(x)); }
			Iv::Stop(i) => { let b = self.body(i); changed = b.vel.len() > 1e-5 || b.w.len() > 1e-5; let tiny = !changed && (b.vel.len() > 1e-7 || b.w.len() > 1e-7); if tiny { return Err(Stop::Skip); } self.w.edit(i, |e| { e.velocity = f3(O); e.angular_velocity = f3(O); }); }
			Iv::Same(i) => self.w.edit(i, |_| {}),
			Iv::Away(i) => { let p = v(12.0 + 2.0 * i as f64, 4.0, -7.0); changed = (self.body(i).com - p).len() > 1e-4; if changed { self.w.edit(i, |e| e.position = f3(p)); } else { self.w.edit(i, |_| {}); } }
			Iv::Mass(i) => { changed = true; self.w.edit(i, |e| e.own_mass += 1.0); }
			Iv::Spin(i) => { changed = true; self.w.edit(i, |e| e.angular_velocity.y += 0.5); }
			// Barely more than nothing.
			Iv::Nudge(i) => { changed = true; self.w.edit(i, |e| e.position.z += 1e-3); }
			Iv::Twist(i) => { changed = true; self.w.edit(i, |e| e.rotation.y += 4e-3); }
			Iv::Turn(i) => { changed = true; self.w.edit(i, |e| e.rotation.y += 0.3); }
			Iv::Remove(i) => {
				let r = self.w.sys.remove_entity(self.w.ents[i]);
				ensure!(r, "entity {} could not be removed", i);
				self.alive[i] = false;
			}
			Iv::Shoot(i, vel) => { let p = self.body(i).com - vel.unit() * 4.0; self.spawn(p, vel)?; }
			Iv::Drop(i) => { let p = self.body(i).com + v(0.3, 1.2, 0.1); self.spawn(p, O)?; }
			Iv::Gravity(g) => self.gravity(g),
		}
		for i in 0..was.len() {
			if !self.alive[i] || !was[i] { continue; }
			let now = self.asleep(i);
			if who == Who::C18 && !now && !changed && !matches!(iv, Iv::Remove(_)) { bad!("{:?} changes nothing but woke entity {}", iv, i); }
		}
		if changed {
			let i = target.unwrap();
			if who == Who::C18 {
				ensure!(!self.asleep(i), "{:?} left the entity asleep", iv);
				for x in &near { ensure!(!self.asleep(*x), "{:?} left entity {} asleep, which had come to rest against it (or against something that had)", iv, x); ctx.outcome("woken with its neighbour"); }
				for x in 0..was.len() { if x != i && was[x] && !self.finite(x) { ensure!(self.asleep(x), "{:?} woke immovable entity {}", iv, x); } }
			}
			let mut all = near.clone();
			all.push(i);
			if was[i] { self.events += 1; }
			for x in 0..self.n() { if !all.contains(&x) && self.alive[x] && x < was.len() && was[x] && !self.asleep(x) { all.push(x); } }
			// Those that were already awake keep their slow count but the target counts as disturbed.
			let woke: Vec<usize> = all.iter().cloned().filter(|x| was[*x]).collect();
			for x in self.shaken(i) { self.calm[x] = 0; self.part(x); }
			for x in all { self.calm[x] = 0; }
			self.woken(&woke);
			self.part(i);
		}
		if let Iv::Remove(i) = iv {
			if who == Who::C18 {
				for x in &near { ensure!(!self.asleep(*x), "entity {} rested against entity {}, which is gone, but it sleeps on", x, i); ctx.outcome("woken by a removal"); }
			}
			let woke: Vec<usize> = (0..was.len()).filter(|x| self.alive[*x] && was[*x] && !self.asleep(*x)).collect();
			for x in self.shaken(i) { self.calm[x] = 0; self.part(x); }
			self.woken(&woke);
			if was[i] { self.events += 1; }
			self.part(i);
			self.weak.retain(|p| p.0 != i && p.1 != i);
		}
		Ok(())
	}
	fn spawn(&mut self, p: V3, vel: V3) -> R {
		let e = ball(p, 1.0, 0.3, 1).vel(vel);
		for j in 0..self.n() { if self.alive[j] && self.depth_of(p, 0.5, j) > -0.01 { return Err(Stop::Skip); } }
		self.w.add(&e);
		self.ents.push(e);
		self.alive.push(true);
		self.slow.push(0); self.calm.push(0); self.since_wake.push(9999); self.touched.push(vec![]);
		Ok(())
	}
	fn depth_of(&self, c: V3, r: f64, j: usize) -> f64 { let b = self.body(j); self.ents[j].cols.iter().map(|x| penetration(c, r, &x.shape, &b)).fold(-INF, f64::max) }
	/// The deepest penetration of any sphere into anything.
	pub fn depth(&self) -> (f64, usize, usize) {
		let mut worst = (-INF, 0, 0);
		for i in 0..self.n() {
			if !self.alive[i] { continue; }
			let b = self.body(i);
			for c in &self.ents[i].cols { if let Shape::Sphere { c: at, r } = &c.shape { for j in 0..self.n() {
				if j == i || !self.alive[j] || (j < i && matches!(self.ents[j].cols[0].shape, Shape::Sphere { .. })) { continue; }
				let d = self.depth_of(b.world(*at), *r, j);
				if d > worst.0 { worst = (d, i, j); }
			} } }
		}
		worst
	}

	/// One step, with the oracles.
	pub fn tick(&mut self, ctx: &mut Ctx, who: Who, dt: f64) -> R {
		let n = self.n();
		let before: Vec<Option<Body>> = (0..n).map(|i| if self.alive[i] { Some(self.body(i)) } else { None }).collect();
		let links: Vec<Vec<usize>> = (0..n).map(|i| if self.alive[i] { self.closure(i) } else { vec![] }).collect();
		self.w.sys.step(dt as f32);
		ctx.step();
		let recs = self.w.recs();
		if ctx.tracing {
			ctx.log(|| format!("step({})", dt));
			for r in &recs { ctx.log(|| format!("   {}", r.show())); }
			for i in 0..n { if self.alive[i] { let s = self.body(i).show(); ctx.log(|| format!("   entity {} {}", i, s)); } }
		}
		let mut f = Fp::new();
		for i in 0..n { if self.alive[i] { self.body(i).fp(&mut f); f.u(self.slow[i].min(9) as u64); } }
		ctx.state(f.get());
		let bs: Vec<Option<Body>> = (0..n).map(|i| if self.alive[i] { Some(self.body(i)) } else { None }).collect();
		// Energy at the end of the step as far as it can be told (a body that was put to sleep has lost it).
		let dt = r32(dt);
		let mut energy = vec![0.0; n];
		for i in 0..n {
			if let (Some(a), Some(b)) = (&before[i], &bs[i]) {
				// Nothing changes how an immovable body moves.
				energy[i] = if b.movable() { b.energy() } else { a.energy() };
				if b.asleep && !a.asleep && b.movable() {
					let mut vel = a.vel + self.g * dt;
					for r in &recs { if r.a == i { vel = vel - r.n * (r.j / b.mass); } if r.b == i { vel = vel + r.n * (r.j / b.mass); } }
					energy[i] = 0.5 * b.mass * vel.dot(vel) + 0.5 * b.inertia.mv(a.w).dot(a.w);
				}
			}
		}
		let hit = |i: usize| recs.iter().any(|r| r.a == i || r.b == i);
		if who == Who::C16 {
			let (d, i, j) = self.depth();
			ctx.dev("penetration", d);
			ensure!(d <= 1e-3 || self.tainted, "sphere {} has sunk {} into entity {}", i, d, j);
		}
		let thr = r32(self.thr);
		for i in 0..n {
			let (a, b) = match (&before[i], &bs[i]) { (Some(a), Some(b)) => (a, b), _ => continue };
			let edge = (energy[i] - thr).abs() < 1e-3 * thr;
			if who == Who::C17 {
				if b.asleep { ensure!(b.vel == O && b.w == O, "entity {} is asleep with velocity {:?} / {:?}", i, b.vel.arr(), b.w.arr()); }
				if a.asleep && !hit(i) { ensure!(b.com == a.com && b.rot == a.rot, "sleeping entity {} moved from {:?} to {:?}", i, a.com.arr(), b.com.arr()); ctx.outcome("slept through a step"); }
				if b.asleep && !a.asleep {
					ctx.outcome("fell asleep");
					self.events += 1;
					ensure!(energy[i] <= thr * 1.001 + 1e-9, "entity {} was put to sleep with energy {} (threshold {})", i, energy[i], thr);
					// slow = slow steps before this one.
					ensure!(self.slow[i] as f64 * dt >= self.t - 1e-4, "entity {} was put to sleep after {} slow steps of {} before this one (time threshold {})", i, self.slow[i], dt, self.t);
				}
				if a.asleep && !b.asleep { ctx.outcome("woke"); }
			}
			if who == Who::C18 && !edge {
				// Immovable sleepers do not wake by themselves.
				if a.asleep && !b.movable() { ensure!(b.asleep, "immovable entity {} woke during a step", i); }
				// Woken by a stored change: stays awake until slow for long enough.
				if b.asleep && !a.asleep { ensure!(self.since_wake[i] as f64 * dt >= self.t - 1e-4 || self.since_wake[i] >= 9999, "entity {} was woken {} steps of {} ago and is asleep again", i, self.since_wake[i] + 1, dt); }
				// Hit, and left moving.
				if hit(i) && b.movable() && energy[i] > thr * 1.001 {
					ensure!(!b.asleep, "entity {} was hit and moves with energy {}, but is asleep", i, energy[i]);
					if a.asleep { self.events += 1; ctx.outcome("woken by a collision"); }
					for x in &links[i] { if let Some(y) = &bs[*x] { ensure!(!y.asleep, "entity {} was hit and moves with energy {}, but entity {}, which rested against it, sleeps on", i, energy[i], x); ctx.outcome("woken along"); } }
				}
				// Awake bodies feel forces and move on.
				if !a.asleep && !hit(i) && b.movable() && !b.asleep && recs.len() < self.w.sys.iteration_max as usize {
					ensure!(near(b.vel, a.vel + self.g * dt, 1e-4 * (1.0 + a.vel.len())), "entity {} is awake but went from velocity {:?} to {:?} under gravity {:?}", i, a.vel.arr(), b.vel.arr(), self.g.arr());
					ensure!(near(b.com, a.com + b.vel * dt, 1e-4 * (1.0 + a.com.len() * 0.1 + b.vel.len() * dt)), "entity {} is awake with velocity {:?} but went from {:?} to {:?}", i, b.vel.arr(), a.com.arr(), b.com.arr());
				}
			}
			if b.asleep != a.asleep || hit(i) { ctx.interesting(); }
		}
		// Bookkeeping.
		for r in &recs { if r.a >= n || r.b >= n { continue; } for (x, y) in [(r.a, r.b), (r.b, r.a)] { if !self.touched[x].contains(&y) && bs[x].as_ref().map(|b| !b.asleep || !before[x].as_ref().unwrap().asleep).unwrap_or(false) { self.touched[x].push(y); } } }
		let fast: Vec<bool> = (0..n).map(|i| bs[i].is_some() && energy[i] > thr * 0.999).collect();
		let surely: Vec<bool> = (0..n).map(|i| bs[i].is_some() && energy[i] > thr * 1.001).collect();
		let touching: Vec<(usize, usize)> = recs.iter().filter(|r| r.a < n && r.b < n).map(|r| (r.a.min(r.b), r.a.max(r.b))).collect();
		for p in &touching { if !self.weak.contains(p) { self.weak.push(*p); } }
		for i in 0..n { if fast[i] { for x in self.shaken(i) { self.calm[x] = 0; self.part(x); } } }
		self.weak.retain(|p| touching.contains(p) || !(fast[p.0] || fast[p.1]));
		for i in 0..n {
			if bs[i].is_none() { continue; }
			let woke = before[i].as_ref().unwrap().asleep && !bs[i].as_ref().unwrap().asleep;
			if fast[i] { self.calm[i] = 0; self.part(i); } else { self.calm[i] += 1; }
			if surely[i] { self.slow[i] = 0; } else { self.slow[i] += 1; }
			if woke { self.forget(i); if !surely[i] { self.slow[i] = 1; } }
			self.since_wake[i] = (self.since_wake[i] + 1).min(9999);
			if who == Who::C17 && !bs[i].as_ref().unwrap().asleep {
				ensure!(self.calm[i] < 4 || ((self.calm[i] - 3) as f64) * dt < self.t + 1e-4, "entity {} has been slow and undisturbed for {} steps of {} but is not asleep (time threshold {})", i, self.calm[i], dt, self.t);
			}
		}
		Ok(())
	}
}

/// The whole family of histories.
pub fn histories(ctx: &mut Ctx, who: Who) -> R {
	let wk = ctx.pick(WORLDS);
	let e: f64 = *ctx.of(&[0.0, 0.6]);
	let wd = world(wk, e.sqrt());
	// Two interventions for a few parameter sets, one for all of them.
	let sets: &[(f64, f64, f64, u8)] = if ctx.thorough { &[(0.05, 0.001, 0.1, 40), (1.0 / 64.0, 0.05, 0.1, 5), (0.05, 0.05, 0.22, 5), (0.2, 0.001, 0.02, 40)] } else { &[(0.05, 0.001, 0.1, 40), (1.0 / 64.0, 0.05, 0.1, 5)] };
	let set = ctx.pick(sets.len() + 1);
	let devs = if set == sets.len() { 1 } else { 2 };
	let (dt, thr, t, limit) = if set < sets.len() { sets[set] } else {
		let dt: f64 = *ctx.of(if ctx.thorough { &[0.05, 1.0 / 64.0, 0.2, 1.0 / 240.0][..] } else { &[0.05, 1.0 / 64.0, 0.2][..] });
		let (thr, t): (f64, f64) = *ctx.of(&[(0.001, 0.1), (0.05, 0.1), (0.001, 0.02), (0.05, 0.22), (0.05, 1.7)]);
		if t / dt > 12.0 { return Err(Stop::Skip); }
		(dt, thr, t, *ctx.of(if ctx.thorough { &[5u8, 40, 2][..] } else { &[5u8, 2][..] }))
	};
	let ivs = interventions(&wd, ctx.thorough);
	// Reaching rest, then the steps at which things may happen.
	let rest = (t / dt).ceil() as usize + 2;
	let horizon = rest + if ctx.thorough { 6 } else { 4 };
	// Interventions happen before steps at, chosen in increasing order; positions thin out before rest is reached.
	let spots: Vec<usize> = (0..horizon).filter(|k| *k + 1 >= rest || *k < 1 || k % 3 == 0).collect();
	let mut plan: Vec<(usize, Iv)> = vec![];
	let mut from = 0;
	for d in 0..devs {
		let a = ctx.pick(spots.len() - from.min(spots.len()) + 1);
		if a == 0 { break; }
		let at = from + a - 1;
		let few: Vec<Iv>;
		let iv = if d == 0 || ctx.thorough { *ctx.of(&ivs) } else { few = ivs.iter().cloned().filter(|i| !matches!(i, Iv::Stop(_) | Iv::Mass(_) | Iv::Same(_) | Iv::Spin(_) | Iv::Nudge(_) | Iv::Twist(_))).collect(); *ctx.of(&few) };
		plan.push((spots[at], iv));
		from = at;
		if d == 0 { ctx.shard()?; }
	}
	let mut h = H::new(&wd, thr, t, limit);
	ctx.log(|| format!("world: {} (restitution {}), energy threshold {}, time threshold {}, iteration limit {}", wd.name, e, thr, t, limit));
	log_scene(ctx, &wd.ents);
	let tail = if ctx.thorough { 8 } else { 5 };
	for k in 0..horizon + tail {
		for (at, iv) in plan.clone() { if at == k { h.act(ctx, who, iv)?; } }
		h.tick(ctx, who, dt)?;
	}
	Ok(())
}
