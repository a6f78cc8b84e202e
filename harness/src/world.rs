//! Scene descriptions, building them through the public API, and reading the state back.
use crate::engine::*;
use crate::m::*;
use fluffy_tribble::types::{Mat3, Vec3};
use fluffy_tribble::*;

pub fn f3(a: V3) -> Vec3 { Vec3::new(a.x as f32, a.y as f32, a.z as f32) }
pub fn d3(a: &Vec3) -> V3 { v(a.x as f64, a.y as f64, a.z as f64) }
pub fn dm(a: &Mat3) -> M3 { let mut r = M3::ZERO; for i in 0..3 { for j in 0..3 { r.0[i][j] = a[(i, j)] as f64; } } r }
pub fn fm(a: &M3) -> Mat3 { let m = &a.0; Mat3::new(m[0][0] as f32, m[0][1] as f32, m[0][2] as f32, m[1][0] as f32, m[1][1] as f32, m[1][2] as f32, m[2][0] as f32, m[2][1] as f32, m[2][2] as f32) }
pub fn r32(x: f64) -> f64 { x as f32 as f64 }

#[derive(Clone, Debug)]
pub enum Shape {
	Null { pos: V3, tensor: M3 },
	Sphere { c: V3, r: f64 },
	Plane { p: V3, n: V3 },
	Box { pos: V3, a: V3, b: V3 },
	Mesh { pos: V3, faces: Vec<Vec<V3>> },
}
#[derive(Clone, Debug)]
pub struct Col { pub shape: Shape, pub mass: f64, pub rest: f64, pub thr: f64, pub mus: f64, pub mud: f64 }
impl Col {
	pub fn new(shape: Shape) -> Col { Col { shape, mass: 0.0, rest: 1.0, thr: 0.25, mus: 0.0, mud: 0.0 } }
	pub fn mass(mut self, m: f64) -> Col { self.mass = m; self }
	pub fn rest(mut self, e: f64) -> Col { self.rest = e; self }
	pub fn fric(mut self, s: f64, d: f64, thr: f64) -> Col { self.mus = s; self.mud = d; self.thr = thr; self }
	pub fn wrap(&self) -> ColliderWrapper {
		macro_rules! mat { ($c:expr) => {{ $c.restitution_coefficient = self.rest as f32; $c.friction_threshold = self.thr as f32; $c.static_friction_coefficient = self.mus as f32; $c.dynamic_friction_coefficient = self.mud as f32; }} }
		match &self.shape {
			Shape::Null { pos, tensor } => { let mut c = NullCollider::new(); c.position = f3(*pos); c.mass = self.mass as f32; c.moment_of_inertia = fm(tensor); ColliderWrapper::Null(c) }
			Shape::Sphere { c: p, r } => { let mut c = SphereCollider::new(*r as f32); c.center = f3(*p); c.mass = self.mass as f32; mat!(c); ColliderWrapper::Sphere(c) }
			Shape::Plane { p, n } => { let mut c = PlaneCollider::new(); c.position = f3(*p); c.normal = f3(*n); c.mass = self.mass as f32; mat!(c); ColliderWrapper::Plane(c) }
			Shape::Box { pos, a, b } => { let mut c = AlignedBoxCollider::new(); c.position = f3(*pos); c.min_corner = f3(*a); c.max_corner = f3(*b); c.mass = self.mass as f32; mat!(c); ColliderWrapper::AlignedBox(c) }
			Shape::Mesh { pos, faces } => { let mut c = MeshCollider::new(); c.position = f3(*pos); for f in faces { c.add_face(&f.iter().map(|p| f3(*p)).collect()); } mat!(c); ColliderWrapper::Mesh(c) }
		}
	}
}
pub fn sphere(r: f64) -> Col { Col::new(Shape::Sphere { c: O, r }) }
pub fn sphere_at(c: V3, r: f64) -> Col { Col::new(Shape::Sphere { c, r }) }
pub fn plane(p: V3, n: V3) -> Col { Col::new(Shape::Plane { p, n }) }
pub fn boxx(pos: V3, a: V3, b: V3) -> Col { Col::new(Shape::Box { pos, a, b }) }
pub fn mesh(pos: V3, faces: Vec<Vec<V3>>) -> Col { Col::new(Shape::Mesh { pos, faces }) }
pub fn null(pos: V3, mass: f64, tensor: M3) -> Col { Col::new(Shape::Null { pos, tensor }).mass(mass) }

#[derive(Clone, Debug)]
pub struct Ent { pub pos: V3, pub rot: V3, pub vel: V3, pub w: V3, pub own: f64, pub cols: Vec<Col> }
impl Ent {
	pub fn new() -> Ent { Ent { pos: O, rot: O, vel: O, w: O, own: 0.0, cols: vec![] } }
	pub fn at(mut self, p: V3) -> Ent { self.pos = p; self }
	pub fn rot(mut self, r: V3) -> Ent { self.rot = r; self }
	pub fn vel(mut self, x: V3) -> Ent { self.vel = x; self }
	pub fn w(mut self, x: V3) -> Ent { self.w = x; self }
	pub fn own(mut self, m: f64) -> Ent { self.own = m; self }
	pub fn col(mut self, c: Col) -> Ent { self.cols.push(c); self }
	pub fn public(&self) -> Entity {
		let mut e = Entity::new();
		e.position = f3(self.pos); e.rotation = f3(self.rot); e.velocity = f3(self.vel); e.angular_velocity = f3(self.w); e.own_mass = self.own as f32;
		e
	}
}
pub const INF: f64 = f64::INFINITY;

/// What can be read back about one entity.
#[derive(Clone, Debug)]
pub struct Body { pub com: V3, pub rot: M3, pub vel: V3, pub w: V3, pub mass: f64, pub own: f64, pub inertia: M3, pub off: V3, pub asleep: bool }
impl Body {
	/// World position of a local point.
	pub fn world(&self, p: V3) -> V3 { self.com + self.rot.mv(self.off + p) }
	pub fn origin(&self) -> V3 { self.world(O) }
	pub fn vel_at(&self, p: V3) -> V3 { self.vel + self.w.cross(p - self.com) }
	pub fn movable(&self) -> bool { self.mass.is_finite() }
	/// Inverse inertia used for responses (zero for immovable bodies).
	pub fn inv_inertia(&self) -> M3 { if self.mass.is_finite() && self.inertia.max_abs() > 1e-8 * self.mass { self.inertia.inv_inertia() } else { M3::ZERO } }
	pub fn inv_mass(&self) -> f64 { 1.0 / self.mass }
	pub fn energy(&self) -> f64 {
		if !self.mass.is_finite() { return if self.vel.len() < 1e-6 && self.w.len() < 1e-6 { 0.0 } else { INF }; }
		0.5 * self.mass * self.vel.dot(self.vel) + 0.5 * self.inertia.mv(self.w).dot(self.w)
	}
	/// The pose after moving freely for `t`.
	pub fn moved(&self, t: f64) -> Body {
		let mut b = self.clone();
		b.com = self.com + self.vel * t;
		b.rot = M3::rot(self.w * t).mm(&self.rot);
		b.inertia = { let d = M3::rot(self.w * t); d.mm(&self.inertia).mm(&d.t()) };
		b
	}
	pub fn finite(&self) -> bool { self.com.finite() && self.vel.finite() && self.w.finite() && self.rot.0.iter().all(|r| r.iter().all(|x| x.is_finite())) }
	pub fn fp(&self, f: &mut Fp) {
		for x in self.com.arr().iter().chain(self.vel.arr().iter()).chain(self.w.arr().iter()) { f.f(*x); }
		for r in &self.rot.0 { for x in r { f.f(*x); } }
		f.u(self.asleep as u64).f(self.mass);
	}
	pub fn show(&self) -> String { format!("com={:?} vel={:?} w={:?} mass={} asleep={}", self.com.arr(), self.vel.arr(), self.w.arr(), self.mass, self.asleep) }
}
pub fn body_of(e: &Entity) -> Body {
	let o = e.get_last_orientation();
	Body {
		com: d3(&e.position), rot: M3::quat(o.rotation.w as f64, o.rotation.i as f64, o.rotation.j as f64, o.rotation.k as f64),
		vel: d3(&e.velocity), w: d3(&e.angular_velocity), mass: e.get_last_total_mass() as f64, own: e.own_mass as f64,
		inertia: dm(&e.get_last_moment_of_inertia()), off: d3(&o.internal_origin_offset), asleep: e.was_asleep(),
	}
}

/// A collision record with entity indices instead of handles.
#[derive(Clone, Debug)]
pub struct Rec { pub a: usize, pub b: usize, pub pos: V3, pub t: f64, pub n: V3, pub e: f64, pub j: f64 }
impl Rec { pub fn show(&self) -> String { format!("rec {}-{} t={} pos={:?} n={:?} e={} j={}", self.a, self.b, self.t, self.pos.arr(), self.n.arr(), self.e, self.j) } }

pub struct W { pub sys: PhysicsSystem, pub ents: Vec<EntityHandle>, pub cols: Vec<Vec<ColliderHandle>> }
impl W {
	pub fn new() -> W { W { sys: PhysicsSystem::new(), ents: vec![], cols: vec![] } }
	/// Adds an entity with its colliders; returns its index.
	pub fn add(&mut self, e: &Ent) -> usize {
		let h = self.sys.add_entity(e.public()).expect("entity refused");
		let mut cs = vec![];
		for c in &e.cols {
			let ch = self.sys.add_collider(c.wrap()).expect("collider refused");
			self.sys.link_collider(ch, Some(h)).expect("link refused");
			cs.push(ch);
		}
		self.ents.push(h);
		self.cols.push(cs);
		self.ents.len() - 1
	}
	pub fn build(es: &[Ent]) -> W { let mut w = W::new(); for e in es { w.add(e); } w }
	/// Adds the entities in the given order, but keeps their indices.
	pub fn build_in_order(es: &[Ent], order: &[usize]) -> W {
		let t = { let mut w = W::new(); for i in order { w.add(&es[*i]); } w };
		let mut at = vec![0; es.len()];
		for (k, i) in order.iter().enumerate() { at[*i] = k; }
		W { sys: t.sys, ents: at.iter().map(|k| t.ents[*k]).collect(), cols: at.iter().map(|k| t.cols[*k].clone()).collect() }
	}
	pub fn body(&self, i: usize) -> Body { body_of(&self.sys.get_entity(self.ents[i]).expect("entity vanished")) }
	pub fn bodies(&self) -> Vec<Body> { (0..self.ents.len()).map(|i| self.body(i)).collect() }
	pub fn edit<F: FnOnce(&mut Entity)>(&mut self, i: usize, f: F) { let mut e = self.sys.get_entity(self.ents[i]).expect("entity vanished"); f(&mut e); self.sys.update_entity(self.ents[i], e).expect("update refused"); }
	pub fn index(&self, h: EntityHandle) -> usize { self.ents.iter().position(|x| *x == h).unwrap_or(usize::MAX) }
	pub fn recs(&self) -> Vec<Rec> {
		self.sys.collision_records.iter().map(|r| Rec {
			a: self.index(r.first_entity), b: self.index(r.second_entity), pos: d3(&r.position), t: r.time as f64, n: d3(&r.normal),
			e: r.restitution_coefficient as f64, j: r.impulse_magnitude as f64,
		}).collect()
	}
	pub fn step(&mut self, dt: f64) { self.sys.step(dt as f32); }
	/// Steps, counting the transition and recording the reached state.
	pub fn tick(&mut self, ctx: &mut Ctx, dt: f64) {
		self.sys.step(dt as f32);
		ctx.step();
		let f = self.fp();
		ctx.state(f);
		if ctx.tracing {
			ctx.log(|| format!("step({})", dt));
			for r in self.recs() { ctx.log(|| format!("   {}", r.show())); }
			for (i, b) in self.bodies().iter().enumerate() { ctx.log(|| format!("   entity {} {}", i, b.show())); }
		}
	}
	pub fn fp(&self) -> u64 {
		let mut f = Fp::new();
		for i in 0..self.ents.len() { if let Some(e) = self.sys.get_entity(self.ents[i]) { body_of(&e).fp(&mut f); } }
		for r in self.recs() { f.u(r.a as u64).u(r.b as u64).f(r.t).f(r.j); }
		f.get()
	}
	pub fn no_sleep(&mut self) { self.sys.energy_sleep_threshold = -1.0; }
	/// Everything counts as slow all the time (so who touched whom is kept from step to step), but nothing ever falls asleep. Must be no different from no_sleep().
	pub fn drowsy(&mut self) { self.sys.energy_sleep_threshold = 1e30; self.sys.sleep_time_threshold = 1e30; }
	/// Either.
	pub fn awake(&mut self, drowsy: bool) { if drowsy { self.drowsy() } else { self.no_sleep() } }
}

/// Compares two vectors with an absolute tolerance.
pub fn near(a: V3, b: V3, tol: f64) -> bool { let d = (a - b).len(); d <= tol }
pub fn log_scene(ctx: &mut Ctx, es: &[Ent]) { if ctx.tracing { for (i, e) in es.iter().enumerate() { ctx.log(|| format!("entity {}: {:?}", i, e)); } } }
