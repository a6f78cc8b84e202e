//! Reference model of the object store (entities, colliders, links, force generators) and the
//! operation alphabet shared by C01, C02 and C04.  The model knows nothing about arenas or sets:
//! objects are numbered in the order they were added and stay dead once removed.
use crate::engine::*;
use crate::m::*;
use crate::world::*;
use fluffy_tribble::*;
use std::cell::RefCell;
use std::rc::Rc;

/// A force generator that only notes who it was asked for.
#[derive(Debug)]
pub struct Stub { pub id: usize, pub log: Rc<RefCell<Vec<(usize, EntityHandle)>>> }
impl UnaryForceGenerator for Stub {
	fn make_force(&mut self, _dt: f32, physics: &PhysicsSystem, entity: EntityHandle) -> Force {
		self.log.borrow_mut().push((self.id, entity));
		Force::new(types::Vec3::zeros(), physics.get_entity(entity).map(|e| e.position).unwrap_or(types::Vec3::zeros()))
	}
}

pub struct MEnt { pub h: EntityHandle, pub alive: bool, pub com: V3, pub rot: M3, pub vel: V3, pub w: V3, pub own: f64, pub links: Vec<usize> }
pub struct MCol { pub h: ColliderHandle, pub alive: bool, pub c: Col, pub owner: Option<usize> }
pub struct MGen { pub h: UnaryForceGeneratorHandle, pub alive: bool }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { AddE(usize), AddC(usize), AddG, RemE(usize), RemC(usize), RemG(usize), UpdE(usize, usize), UpdC(usize, usize), Link(usize, Option<usize>), Step, DupE(usize), CopyE(usize, usize), DupC(usize), CopyC(usize, usize) }

/// The objects that may appear, and what is compared after each operation.
pub struct Cfg {
	/// Colliders by (kind, variant); an update may only switch between variants of one kind.
	pub cols: Vec<Vec<Col>>,
	/// Entities: initial values and values stored by updates.
	pub ents: Vec<Ent>,
	pub upds: Vec<Ent>,
	pub max_e: usize, pub max_c: usize, pub max_g: usize,
	/// Offer operations through dead handles too.
	pub stale: bool,
	pub steps: bool,
	pub values: bool, pub links: bool, pub masses: bool,
	/// Whatever can fall asleep does so during any step.
	pub sleepy: bool,
	/// Offer to add or store copies of what is read back.
	pub copies: bool,
}

pub struct Store { pub sys: PhysicsSystem, pub e: Vec<MEnt>, pub c: Vec<MCol>, pub g: Vec<MGen>, pub kind: Vec<usize>, pub log: Rc<RefCell<Vec<(usize, EntityHandle)>>>, pub tag: usize }

/// Mass and centre of mass of a collider by itself, and its inertia tensor about that centre.
pub fn part(c: &Col) -> (f64, V3, M3) {
	match &c.shape {
		Shape::Null { pos, tensor } => (c.mass, *pos, *tensor),
		Shape::Sphere { c: p, r } => (c.mass, *p, M3::id().scale(0.4 * c.mass * r * r)),
		Shape::Plane { p, .. } => (c.mass, *p, M3::ZERO),
		Shape::Box { pos, a, b } => { let d = *b - *a; let k = c.mass / 12.0; (c.mass, *pos + (*a + *b) * 0.5, M3::diag(k * (d.y * d.y + d.z * d.z), k * (d.x * d.x + d.z * d.z), k * (d.x * d.x + d.y * d.y))) }
		Shape::Mesh { pos, .. } => (0.0, *pos, M3::ZERO),
	}
}

impl Store {
	pub fn new() -> Store {
		let mut sys = PhysicsSystem::new();
		sys.energy_sleep_threshold = -1.0;
		Store { sys, e: vec![], c: vec![], g: vec![], kind: vec![], log: Rc::new(RefCell::new(vec![])), tag: 0 }
	}
	/// (total mass, centre of mass in local space, inertia about it in local axes) of an entity's parts.
	pub fn compose(&self, i: usize) -> (f64, V3, Option<M3>) {
		let e = &self.e[i];
		let parts: Vec<(f64, V3, M3)> = e.links.iter().map(|c| part(&self.c[*c].c)).collect();
		if parts.iter().any(|p| p.0.is_infinite()) { return (INF, O, None); }
		let sum: f64 = parts.iter().map(|p| p.0).sum();
		let centre = if sum > 0.0 { parts.iter().fold(O, |a, p| a + p.1 * p.0) * (1.0 / sum) } else { O };
		let mut inertia = M3::ZERO;
		for (m, p, t) in &parts {
			let d = *p - centre;
			inertia = inertia.add(t).add(&M3::id().scale(m * d.dot(d))).add(&M3::outer(d, d).scale(-m));
		}
		(e.own + sum, centre, Some(inertia))
	}
	fn origin(&self, i: usize) -> V3 { self.e[i].com - self.e[i].rot.mv(self.compose(i).1) }
	/// Performs `f` on the parts of an entity keeping its local origin where it is.
	fn reparts<F: FnOnce(&mut Store)>(&mut self, who: &[usize], f: F) {
		let origins: Vec<(usize, V3)> = who.iter().map(|i| (*i, self.origin(*i))).collect();
		f(self);
		for (i, o) in origins { let c = self.compose(i).1; self.e[i].com = o + self.e[i].rot.mv(c); }
	}
	pub fn ops(&self, cfg: &Cfg) -> Vec<Op> {
		let mut r = vec![];
		let live = |alive: bool| alive || cfg.stale;
		for i in 0..self.e.len() { if live(self.e[i].alive) { r.push(Op::RemE(i)); for k in 0..cfg.upds.len() { r.push(Op::UpdE(i, k)); } } }
		for i in 0..self.c.len() {
			if !live(self.c[i].alive) { continue; }
			r.push(Op::RemC(i));
			for k in 0..cfg.cols[self.kind[i]].len() { r.push(Op::UpdC(i, k)); }
			r.push(Op::Link(i, None));
			for j in 0..self.e.len() { if live(self.e[j].alive) { r.push(Op::Link(i, Some(j))); } }
		}
		for i in 0..self.g.len() { if live(self.g[i].alive) { r.push(Op::RemG(i)); } }
		if self.e.len() < cfg.max_e { for k in 0..cfg.ents.len() { r.push(Op::AddE(k)); } }
		if self.c.len() < cfg.max_c { for k in 0..cfg.cols.len() { r.push(Op::AddC(k)); } }
		if self.g.len() < cfg.max_g { r.push(Op::AddG); }
		if cfg.steps { r.push(Op::Step); }
		if cfg.copies {
			for i in 0..self.e.len() {
				if !self.e[i].alive { continue; }
				if self.e.len() < cfg.max_e { r.push(Op::DupE(i)); }
				for j in 0..self.e.len() { if i != j && live(self.e[j].alive) { r.push(Op::CopyE(i, j)); } }
			}
			for i in 0..self.c.len() {
				if !self.c[i].alive { continue; }
				if self.c.len() < cfg.max_c { r.push(Op::DupC(i)); }
				for j in 0..self.c.len() { if i != j && self.kind[i] == self.kind[j] && live(self.c[j].alive) { r.push(Op::CopyC(i, j)); } }
			}
		}
		r
	}
	/// A value no other object has (small multiples of 2^-10, exact in single precision).
	fn fresh(&mut self) -> f64 { self.tag += 1; self.tag as f64 / 1024.0 }

	/// Performs one operation on both sides and compares its result.
	pub fn apply(&mut self, op: Op, cfg: &Cfg) -> R {
		match op {
			Op::AddE(k) => {
				let mut e = cfg.ents[k].clone();
				e.pos = e.pos + v(0.0, 0.0, 200.0 * self.e.len() as f64);
				if cfg.values { e.vel.x = self.fresh(); }
				let h = match self.sys.add_entity(e.public()) { Ok(h) => h, Err(()) => bad!("valid entity refused") };
				for x in &self.e { ensure!(x.h != h, "entity handle {:?} was given out before", h); }
				self.e.push(MEnt { h, alive: true, com: e.pos.r32(), rot: M3::rot(e.rot.r32()), vel: e.vel.r32(), w: e.w.r32(), own: r32(e.own), links: vec![] });
			}
			Op::AddC(k) => {
				let mut c = cfg.cols[k][0].clone();
				if cfg.values { c.rest = self.fresh(); }
				let h = match self.sys.add_collider(c.wrap()) { Ok(h) => h, Err(()) => bad!("valid collider refused") };
				for x in &self.c { ensure!(x.h != h, "collider handle {:?} was given out before", h); }
				self.c.push(MCol { h, alive: true, c, owner: None });
				self.kind.push(k);
			}
			Op::AddG => {
				let id = self.g.len();
				let h = match self.sys.add_unary_force_generator(Box::new(Stub { id, log: self.log.clone() })) { Ok(h) => h, Err(()) => bad!("generator refused") };
				for x in &self.g { ensure!(x.h != h, "generator handle {:?} was given out before", h); }
				self.g.push(MGen { h, alive: true });
			}
			Op::RemE(i) => {
				let r = self.sys.remove_entity(self.e[i].h);
				ensure!(r == self.e[i].alive, "remove_entity said {} for an entity that is {}", r, if self.e[i].alive { "there" } else { "gone" });
				if r { self.e[i].alive = false; for c in std::mem::take(&mut self.e[i].links) { self.c[c].alive = false; self.c[c].owner = None; } }
			}
			Op::RemC(i) => {
				self.sys.remove_collider(self.c[i].h);
				if self.c[i].alive {
					let who: Vec<usize> = self.c[i].owner.into_iter().collect();
					self.reparts(&who, |s| { s.c[i].alive = false; if let Some(o) = s.c[i].owner.take() { s.e[o].links.retain(|c| *c != i); } });
				}
			}
			Op::RemG(i) => {
				let r = self.sys.remove_unary_force_generator(self.g[i].h);
				ensure!(r.is_some() == self.g[i].alive, "remove_unary_force_generator returned {} for a generator that is {}", if r.is_some() { "something" } else { "nothing" }, if self.g[i].alive { "there" } else { "gone" });
				if let Some(b) = r { match b.downcast_ref::<Stub>() { Some(s) => ensure!(s.id == i, "removing generator {} returned generator {}", i, s.id), None => bad!("another kind of generator came back") } }
				self.g[i].alive = false;
			}
			Op::UpdE(i, k) => {
				let mut e = cfg.upds[k].clone();
				e.pos = e.pos + v(0.0, 0.0, 200.0 * i as f64);
				if cfg.values { e.vel.x = self.fresh(); }
				// Start from what is stored (as callers do) when it exists.
				let mut src = self.sys.get_entity(self.e[i].h).unwrap_or_else(Entity::new);
				src.position = f3(e.pos); src.rotation = f3(e.rot); src.velocity = f3(e.vel); src.angular_velocity = f3(e.w); src.own_mass = e.own as f32;
				let r = self.sys.update_entity(self.e[i].h, src);
				ensure!(r.is_ok() == self.e[i].alive, "update_entity returned {:?} for an entity that is {}", r, if self.e[i].alive { "there" } else { "gone" });
				if r.is_ok() { let m = &mut self.e[i]; m.com = e.pos.r32(); m.rot = M3::rot(e.rot.r32()); m.vel = e.vel.r32(); m.w = e.w.r32(); m.own = r32(e.own); }
			}
			Op::UpdC(i, k) => {
				let mut c = cfg.cols[self.kind[i]][k].clone();
				if cfg.values { c.rest = self.fresh(); }
				let r = self.sys.update_collider(self.c[i].h, c.wrap());
				ensure!(r.is_ok() == self.c[i].alive, "update_collider returned {:?} for a collider that is {}", r, if self.c[i].alive { "there" } else { "gone" });
				if r.is_ok() { let who: Vec<usize> = self.c[i].owner.into_iter().collect(); self.reparts(&who, |s| s.c[i].c = c); }
			}
			Op::Link(c, e) => {
				let r = self.sys.link_collider(self.c[c].h, e.map(|e| self.e[e].h));
				let valid = self.c[c].alive && e.map(|e| self.e[e].alive).unwrap_or(true);
				ensure!(r.is_ok() == valid, "link_collider returned {:?} where it should {}", r, if valid { "succeed" } else { "be refused" });
				if valid {
					let who: Vec<usize> = self.c[c].owner.into_iter().chain(e).collect();
					let old = self.c[c].owner;
					if old != e {
						self.reparts(&who, |s| {
							if let Some(o) = old { s.e[o].links.retain(|x| *x != c); }
							if let Some(n) = e { s.e[n].links.push(c); }
							s.c[c].owner = e;
						});
					}
				}
			}
			Op::DupE(i) => {
				let n = self.e.len();
				let mut src = match self.sys.get_entity(self.e[i].h) { Some(e) => e, None => bad!("entity {} is gone", i) };
				src.position.z += 200.0 * (n as f32 - i as f32);
				let com = d3(&src.position);
				let h = match self.sys.add_entity(src) { Ok(h) => h, Err(()) => bad!("what was read back is refused") };
				for x in &self.e { ensure!(x.h != h, "entity handle {:?} was given out before", h); }
				let m = &self.e[i];
				let m = MEnt { h, alive: true, com, rot: m.rot, vel: m.vel, w: m.w, own: m.own, links: vec![] };
				self.e.push(m);
			}
			Op::CopyE(i, j) => {
				let mut src = match self.sys.get_entity(self.e[i].h) { Some(e) => e, None => bad!("entity {} is gone", i) };
				src.position.z += 200.0 * (j as f32 - i as f32);
				let com = d3(&src.position);
				let r = self.sys.update_entity(self.e[j].h, src);
				ensure!(r.is_ok() == self.e[j].alive, "update_entity returned {:?} for an entity that is {}", r, if self.e[j].alive { "there" } else { "gone" });
				if r.is_ok() { let (rot, vel, w, own) = { let m = &self.e[i]; (m.rot, m.vel, m.w, m.own) }; let m = &mut self.e[j]; m.com = com; m.rot = rot; m.vel = vel; m.w = w; m.own = own; }
			}
			Op::DupC(i) => {
				let src = match self.sys.get_collider(self.c[i].h) { Some(c) => c, None => bad!("collider {} is gone", i) };
				let h = match self.sys.add_collider(src) { Ok(h) => h, Err(()) => bad!("what was read back is refused") };
				for x in &self.c { ensure!(x.h != h, "collider handle {:?} was given out before", h); }
				let c = self.c[i].c.clone();
				self.c.push(MCol { h, alive: true, c, owner: None });
				self.kind.push(self.kind[i]);
			}
			Op::CopyC(i, j) => {
				let src = match self.sys.get_collider(self.c[i].h) { Some(c) => c, None => bad!("collider {} is gone", i) };
				let r = self.sys.update_collider(self.c[j].h, src);
				ensure!(r.is_ok() == self.c[j].alive, "update_collider returned {:?} for a collider that is {}", r, if self.c[j].alive { "there" } else { "gone" });
				if r.is_ok() { let c = self.c[i].c.clone(); let who: Vec<usize> = self.c[j].owner.into_iter().collect(); self.reparts(&who, |s| s.c[j].c = c); }
			}
			Op::Step => {
				let dt = 0.125;
				self.log.borrow_mut().clear();
				let asleep = |s: &Store| -> Vec<bool> { s.e.iter().map(|m| s.sys.get_entity(m.h).map(|e| e.was_asleep()).unwrap_or(false)).collect() };
				let slept = asleep(self);
				self.sys.step(dt as f32);
				let sleeps = asleep(self);
				for (i, m) in self.e.iter_mut().enumerate() { if m.alive && !slept[i] { m.com = m.com + m.vel * dt; m.rot = M3::rot(m.w * dt).mm(&m.rot); } }
				if !self.sys.collision_records.is_empty() {
					// An infinite plane may get in the way: motion is then not this model's business.
					ensure!(cfg.masses, "bodies 200 apart collided");
					for m in self.e.iter_mut() { if let Some(e) = self.sys.get_entity(m.h) { let b = body_of(&e); m.com = b.com; m.rot = b.rot; m.vel = b.vel; m.w = b.w; } }
				}
				for (i, m) in self.e.iter_mut().enumerate() { if sleeps[i] { ensure!(cfg.sleepy, "entity {} fell asleep though nothing may", i); m.vel = O; m.w = O; } }
				let log = self.log.borrow();
				for g in 0..self.g.len() { for i in 0..self.e.len() {
					let n = log.iter().filter(|x| **x == (g, self.e[i].h)).count();
					let mass = if self.e[i].alive { self.compose(i).0 } else { 0.0 };
					let want = if self.g[g].alive && self.e[i].alive && mass.is_finite() && mass > 1e-3 { 1 } else { 0 };
					// Whether generators are asked about sleepers is not this model's business.
					ensure!(n == want || (n == 0 && slept[i]), "generator {} was asked {} times for entity {}", g, n, i);
				} }
			}
		}
		Ok(())
	}

	/// Compares everything observable with the model.
	pub fn check(&self, ctx: &mut Ctx, cfg: &Cfg) -> R {
		for (i, m) in self.e.iter().enumerate() {
			let got = self.sys.get_entity(m.h);
			ensure!(got.is_some() == m.alive, "entity {} is {} but the system says it is {}", i, if m.alive { "there" } else { "gone" }, if got.is_some() { "there" } else { "gone" });
			let e = match got { Some(e) => e, None => continue };
			let b = body_of(&e);
			let (mass, centre, inertia) = self.compose(i);
			let scale = 1.0 + m.com.len() * 0.05;
			if cfg.values || cfg.links {
				ensure!(b.vel == m.vel && b.w == m.w && b.own == m.own, "entity {} has velocity {:?}, angular velocity {:?}, own mass {}; last stored {:?} {:?} {}", i, b.vel.arr(), b.w.arr(), b.own, m.vel.arr(), m.w.arr(), m.own);
				ensure!(b.rot.max_diff(&m.rot) < 1e-4, "entity {} is turned differently from what was stored", i);
				let o = self.origin(i);
				ensure!(near(b.origin(), o, 2e-4 * scale), "entity {}'s local origin is at {:?}, not {:?}", i, b.origin().arr(), o.arr());
				ctx.dev("origin", (b.origin() - o).len() / scale);
			}
			// Links, seen from the entity.
			if cfg.links || cfg.values {
				let listed = e.get_colliders();
				ensure!(listed.len() == m.links.len() && m.links.iter().all(|c| listed.contains(&self.c[*c].h)), "entity {} lists {} colliders, it should list {:?}", i, listed.len(), m.links);
				for h in &listed { ensure!(self.sys.get_collider(*h).is_some(), "entity {} lists a collider that does not exist", i); }
			}
			if cfg.masses {
				ensure!(if mass.is_finite() { (b.mass - mass).abs() <= 1e-4 * (1.0 + mass) } else { b.mass == mass }, "entity {} has total mass {}, its parts make {}", i, b.mass, mass);
				ctx.dev("centre of mass", (b.com - m.com).len() / scale);
				ensure!(near(b.com, m.com, 2e-4 * scale), "entity {}'s centre of mass is at {:?}, its parts put it at {:?}", i, b.com.arr(), m.com.arr());
				ensure!(near(b.off, -centre, 2e-4), "entity {}'s origin offset is {:?}, expected {:?}", i, b.off.arr(), (-centre).arr());
				ensure!(near(b.origin(), m.com - m.rot.mv(centre), 2e-4 * scale), "entity {}'s local origin moved to {:?} from {:?}", i, b.origin().arr(), (m.com - m.rot.mv(centre)).arr());
				if let Some(local) = inertia {
					let want = m.rot.mm(&local).mm(&m.rot.t());
					let d = b.inertia.max_diff(&want) / (1.0 + want.max_abs());
					ctx.dev("inertia", d);
					ensure!(d < 5e-4, "entity {} has moment of inertia {:?}, its parts make {:?}", i, b.inertia.0, want.0);
				}
			}
		}
		for (i, m) in self.c.iter().enumerate() {
			let got = self.sys.get_collider(m.h);
			ensure!(got.is_some() == m.alive, "collider {} is {} but the system says it is {}", i, if m.alive { "there" } else { "gone" }, if got.is_some() { "there" } else { "gone" });
			if let Some(g) = got {
				let owner = owner_of(&g);
				let want = m.owner.map(|o| self.e[o].h);
				ensure!(owner == want, "collider {} reports owner {:?}, expected {:?}", i, owner, want);
				if cfg.values { same_collider(&g, &m.c, i)?; }
			}
		}
		Ok(())
	}
	pub fn fp(&self) -> u64 {
		let mut f = Fp::new();
		for e in &self.e { f.u(e.alive as u64).f(e.com.x).f(e.com.y).f(e.com.z).f(e.vel.x).f(e.own); for l in &e.links { f.u(*l as u64 + 7); } }
		for c in &self.c { f.u(c.alive as u64).u(c.owner.map(|x| x as u64 + 1).unwrap_or(0)).f(c.c.mass).f(c.c.rest); }
		for g in &self.g { f.u(g.alive as u64); }
		f.get()
	}
}

pub fn owner_of(c: &ColliderWrapper) -> Option<EntityHandle> {
	match c { ColliderWrapper::Null(c) => c.get_entity(), ColliderWrapper::Sphere(c) => c.get_entity(), ColliderWrapper::Plane(c) => c.get_entity(), ColliderWrapper::Mesh(c) => c.get_entity(), ColliderWrapper::AlignedBox(c) => c.get_entity() }
}

/// Is what was read back the collider that was stored?
pub fn same_collider(got: &ColliderWrapper, want: &Col, i: usize) -> R {
	macro_rules! mat { ($c:expr) => {{ ensure!(
		$c.restitution_coefficient == want.rest as f32 && $c.friction_threshold == want.thr as f32 && $c.static_friction_coefficient == want.mus as f32 && $c.dynamic_friction_coefficient == want.mud as f32,
		"collider {}: material {} {} {} {} instead of {} {} {} {}", i, $c.restitution_coefficient, $c.friction_threshold, $c.static_friction_coefficient, $c.dynamic_friction_coefficient, want.rest, want.thr, want.mus, want.mud); }} }
	macro_rules! eq { ($a:expr, $b:expr, $n:expr) => { ensure!($a == $b, "collider {}: {} is {:?}, stored {:?}", i, $n, $a, $b) } }
	match (got, &want.shape) {
		(ColliderWrapper::Null(c), Shape::Null { pos, tensor }) => { eq!(c.position, f3(*pos), "position"); eq!(c.mass, want.mass as f32, "mass"); eq!(c.moment_of_inertia, fm(tensor), "tensor"); }
		(ColliderWrapper::Sphere(c), Shape::Sphere { c: p, r }) => { eq!(c.center, f3(*p), "centre"); eq!(c.radius, *r as f32, "radius"); eq!(c.mass, want.mass as f32, "mass"); mat!(c); }
		(ColliderWrapper::Plane(c), Shape::Plane { p, n }) => {
			eq!(c.position, f3(*p), "position"); eq!(c.mass, want.mass as f32, "mass"); mat!(c);
			ensure!((d3(&c.normal) - n.unit()).len() < 1e-5, "collider {}: normal {:?}, stored {:?}", i, c.normal, n.arr());
		}
		(ColliderWrapper::AlignedBox(c), Shape::Box { pos, a, b }) => {
			eq!(c.position, f3(*pos), "position"); eq!(c.mass, want.mass as f32, "mass"); mat!(c);
			eq!(c.min_corner, f3(v(a.x.min(b.x), a.y.min(b.y), a.z.min(b.z))), "min corner");
			eq!(c.max_corner, f3(v(a.x.max(b.x), a.y.max(b.y), a.z.max(b.z))), "max corner");
		}
		(ColliderWrapper::Mesh(c), Shape::Mesh { pos, faces }) => {
			eq!(c.position, f3(*pos), "position"); mat!(c);
			let mut m = MeshCollider::new();
			for f in faces { m.add_face(&f.iter().map(|p| f3(*p)).collect()); }
			eq!((c.vertex_count(), c.edge_count(), c.face_count()), (m.vertex_count(), m.edge_count(), m.face_count()), "shape (vertices, edges, faces)");
		}
		_ => bad!("collider {}: read back as another kind", i),
	}
	Ok(())
}

/// Explores every operation sequence of the given length after `prefix`.
pub fn explore_ops(ctx: &mut Ctx, cfg: &Cfg, prefix: &[Op], depth: usize) -> R { explore_with(ctx, cfg, prefix, depth, &|s| s.ops(cfg)) }
/// The same, with another set of operations.
pub fn explore_with(ctx: &mut Ctx, cfg: &Cfg, prefix: &[Op], depth: usize, ops: &dyn Fn(&Store) -> Vec<Op>) -> R {
	let mut s = Store::new();
	if cfg.sleepy { s.sys.energy_sleep_threshold = 1e30; s.sys.sleep_time_threshold = 0.0; }
	for op in prefix { s.apply(*op, cfg)?; }
	s.check(ctx, cfg)?;
	for d in 0..depth {
		let ops = ops(&s);
		let op = *ctx.of(&ops);
		if d == 1 || depth == 1 { ctx.shard()?; }
		ctx.log(|| format!("{:?}", op));
		s.apply(op, cfg)?;
		s.check(ctx, cfg)?;
		ctx.step();
		ctx.state(s.fp());
	}
	ctx.interesting();
	Ok(())
}
