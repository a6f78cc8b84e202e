//! Small worlds in which no two things happen at once, for the comparisons of C21 and C22.
use crate::engine::*;
use crate::geom::*;
use crate::m::*;
use crate::world::*;
use crate::props::c09::icosahedron;
use fluffy_tribble::*;

/// A spring pulling everything towards a point, grabbing bodies off their centre; or air.
#[derive(Debug, Clone, Copy)]
pub enum Gen { Gravity(V3), Spring(V3, f64, V3), Drag(f64), /** Towards how everything moves on average. */ Flock(f64) }
#[derive(Debug)]
struct Puller(Gen, Vec<EntityHandle>);
impl UnaryForceGenerator for Puller {
	fn make_force(&mut self, _dt: f32, physics: &PhysicsSystem, e: EntityHandle) -> Force {
		let b = body_of(&physics.get_entity(e).expect("a generator is asked about an entity that does not exist"));
		match self.0 {
			Gen::Gravity(g) => Force::new(f3(g * b.mass), f3(b.com)),
			Gen::Spring(p, k, grab) => { let at = b.com + b.rot.mv(grab); Force::new(f3((p - at) * k), f3(at)) }
			Gen::Drag(k) => Force::new(f3(b.vel * -k), f3(b.com)),
			Gen::Flock(k) => {
				let all: Vec<Body> = self.1.iter().map(|h| body_of(&physics.get_entity(*h).expect("an entity vanished"))).collect();
				let mean = all.iter().fold(O, |a, b| a + b.vel) * (1.0 / all.len() as f64);
				Force::new(f3((mean - b.vel) * (k * b.mass)), f3(b.com))
			}
		}
	}
}
impl Gen {
	pub fn add(&self, w: &mut W) {
		let g: Box<dyn UnaryForceGenerator> = match self { Gen::Gravity(g) => Box::new(GravityGenerator::new(f3(*g))), g => Box::new(Puller(*g, w.ents.clone())) };
		w.sys.add_unary_force_generator(g).expect("generator refused");
	}
}

#[derive(Clone)]
pub struct Scene { pub ents: Vec<Ent>, pub gens: Vec<Gen>, pub dt: f64, pub limit: u8, pub sleep: bool, pub drowsy: (f64, f64), pub steps: usize, pub k: usize }
pub const SCENES: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 14];
pub const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
/// Those in which everything that can turn is a ball around its own centre (so that no contact depends on how turning is approximated).
pub const SMOOTH: &[usize] = &[0, 3, 6, 9, 10, 11, 12, 13, 15];

pub fn pick(ctx: &mut Ctx, scenes: &[usize]) -> Result<Scene, Stop> { pick_in(ctx, scenes, true, false) }
pub fn pick_in(ctx: &mut Ctx, scenes: &[usize], forces: bool, rich: bool) -> Result<Scene, Stop> {
	let k = *ctx.of(scenes);
	let nudges = [O, v(0.13, 0.05, -0.08), v(-0.07, 0.11, 0.21), v(0.09, -0.1, 0.03), v(-0.15, 0.02, -0.12)];
	let nudge = *ctx.of(if rich { &nudges[..] } else { &nudges[..3] });
	let vs = [v(1.7, -2.3, 0.4), v(-3.1, -0.9, 0.7), v(9.3, -7.1, 2.9), v(0.0, 0.0, 0.0), v(0.3, -1.1, -0.9), v(-16.0, -5.0, 11.0), v(0.05, -0.2, 0.1)];
	let vs = if rich { &vs[..] } else { &vs[..4] };
	let (va, vb) = (*ctx.of(vs), *ctx.of(vs));
	ctx.shard()?;
	let mats = [(1.0, 0.0), (0.5, 0.3), (0.9, 0.05), (0.3, 0.0), (0.6, 0.6)];
	let (e, mu) = *ctx.of(if rich { &mats[..] } else { &mats[..3] });
	let dt = *ctx.of(&[0.1, 0.37]);
	let limit = *ctx.of(if ctx.thorough { &[5u8, 1, 2, 20][..] } else { &[5u8, 2][..] });
	let g = if forces { ctx.pick(4) } else { 0 };
	// No two colliders of the same material.
	let count = std::cell::Cell::new(0);
	let m = |c: Col| { let q = [1.0, 0.9, 0.8, 0.95, 0.7, 0.85][count.replace(count.get() + 1) % 6]; c.rest(f64::sqrt(e) * q).fric(f64::sqrt(mu * 1.2) * q, f64::sqrt(mu) * (1.5 - 0.7 * q), 0.5) };
	let im = || Ent::new().own(INF);
	let ball = |p: V3, r: f64, mass: f64| Ent::new().at(p).col(m(sphere(r)).mass(mass));
	let point = |p: V3, own: f64| Ent::new().own(own).at(p);
	let comp = |p: V3| Ent::new().own(0.4).at(p).rot(v(0.3, -0.5, 0.2)).w(v(0.7, -0.4, 1.1))
		.col(m(sphere_at(v(0.45, 0.1, 0.0), 0.31)).mass(0.7)).col(m(sphere_at(v(-0.4, 0.05, 0.2), 0.38)).mass(0.5)).col(m(sphere_at(v(0.05, -0.35, -0.3), 0.27)).mass(0.9));
	let hedge = |p: V3| Ent::new().at(p).rot(v(-0.2, 0.9, 0.4)).w(v(0.0, 0.8, -0.3))
		.col(m(sphere_at(v(0.5, -0.1, 0.1), 0.36)).mass(0.8)).col(m(sphere_at(v(-0.45, 0.2, -0.1), 0.33)).mass(1.1)).col(m(boxx(v(0.0, 0.1, 0.0), v(-0.4, -0.2, -0.3), v(0.35, 0.25, 0.2))).mass(1.3));
	let tet = |p: V3| Ent::new().at(p).rot(v(0.4, 0.2, -0.3)).col(m(mesh(v(-0.21, -0.19, -0.2), tetra(0.83)))).col(null(v(0.02, 0.03, 0.01), 1.7, M3::diag(0.15, 0.22, 0.19))).w(v(0.2, 0.3, -0.25));
	let ents = match k {
		0 => vec![ball(v(-1.1, 1.3, 0.1) + nudge, 0.45, 1.0).vel(va).w(v(1.0, 0.0, 2.0)), ball(v(0.2, 1.1, 0.0), 0.52, 2.2).vel(vb * -0.7), ball(v(1.35, 0.85, 0.2), 0.4, 0.6)],
		1 => vec![comp(v(-1.0, 0.9, 0.1) + nudge).vel(va), hedge(v(0.55, 0.4, 0.25)).vel(vb * -0.6)],
		2 => vec![ball(v(0.1, 1.4, 0.2) + nudge, 0.41, 1.0).vel(va), im().at(v(0.0, 0.1, 0.0)).col(m(plane(v(0.0, 0.0, 0.0), v(0.3, 1.0, 0.1)))).col(m(plane(v(1.1, 0.0, 0.0), v(-1.0, 0.45, -0.2)))), comp(v(-0.9, 2.2, -0.3)).vel(vb)],
		3 => vec![im().rot(v(0.0, 0.3, 0.0)).col(m(boxx(O, v(-4.0, -1.0, -4.0), v(4.0, 0.03, 4.0)))), ball(v(0.3, 0.75, 0.1) + nudge, 0.43, 0.9).vel(va), im().at(v(1.4, -0.1, 0.2)).rot(v(0.1, 0.5, 0.0)).col(m(mesh(O, wedge()))), ball(v(-0.75, 1.05, 0.3), 0.39, 1.4).vel(vb)],
		4 => vec![tet(v(-0.1, 0.8, 0.15) + nudge).vel(va), im().col(m(plane(v(0.0, 0.05, 0.0), v(0.15, 1.0, -0.1)))), ball(v(0.95, 1.1, 0.3), 0.38, 0.7).vel(vb)],
		5 => vec![im().rot(v(0.1, 0.25, 0.05)).at(v(0.1, -0.9, 0.0)).col(m(mesh(O, box_faces(v(-2.0, -0.5, -2.0), v(2.0, 0.5, 2.0))))), tet(v(0.05, 0.35, 0.1) + nudge).vel(va), ball(v(-1.05, 0.25, 0.3), 0.37, 0.8).vel(vb)],
		// Something immovable, but moving.
		6 => vec![im().at(v(-2.1, 0.8, 0.0)).vel(v(3.3, 0.2, 0.0)).col(m(boxx(v(0.1, 0.0, 0.0), v(-0.5, -0.9, -0.7), v(0.5, 0.8, 0.9)))), ball(v(-0.7, 1.0, 0.05) + nudge, 0.44, 1.0).vel(va), ball(v(0.6, 1.05, -0.1), 0.4, 3.0).vel(vb * 0.3)],
		// Several colliders on both, all of them spheres and planes.
		7 => vec![comp(v(-0.8, 1.0, 0.1) + nudge).vel(va), im().col(m(plane(v(0.0, 0.0, 0.0), v(0.1, 1.0, 0.0)))).col(m(sphere_at(v(1.2, 0.3, 0.2), 0.5))).col(m(boxx(O, v(-3.0, -1.0, 1.4), v(3.0, 2.0, 2.0)))), ball(v(0.5, 1.7, -0.2), 0.35, 0.5).vel(vb)],
		// A corner of planes.
		9 => vec![im().col(m(plane(v(0.0, 0.0, 0.0), v(0.3, 1.0, 0.1)))).col(m(plane(v(1.1, 0.0, 0.0), v(-1.0, 0.45, -0.2)))), ball(v(0.1, 1.4, 0.2) + nudge, 0.41, 1.0).vel(va).w(v(3.0, 0.0, -2.0)), im().at(v(0.2, 2.9, 0.0)).rot(v(0.2, 0.1, 0.9)).vel(v(0.1, -0.4, 0.0)).col(m(plane(v(0.5, 0.3, 0.1), v(-0.6, -0.7, 0.1)))), ball(v(-0.9, 1.2, -0.3), 0.36, 0.4).vel(vb)],
		// Many balls.
		10 => vec![ball(v(0.03, 0.1, 0.02), 0.4, 1.0), ball(v(0.91, 0.0, 0.1), 0.42, 2.0).w(v(0.0, 2.0, 0.5)), ball(v(-1.4, 0.3, 0.05) + nudge, 0.39, 1.0).vel(va + v(5.0, 0.0, 0.0)), ball(v(0.5, 0.85, -0.2), 0.41, 0.3), ball(v(0.4, -0.95, 0.3), 0.43, 1.5).vel(vb * 0.5), ball(v(2.0, 0.9, 0.4), 0.35, 0.7).vel(vb)],
		// Things of any shape that can't be turned, as their masses are points.
		11 => vec![im().col(m(plane(v(0.0, 0.0, 0.0), v(0.2, 1.0, -0.1)))), point(v(-0.3, 1.0, 0.1), 1.0).rot(v(0.4, 0.2, -0.3)).vel(va).col(m(mesh(v(-0.21, -0.19, -0.2), tetra(0.83)))), point(v(0.9, 0.9, 0.2) + nudge, 2.0).rot(v(0.1, 0.7, -0.2)).vel(vb).col(m(sphere_at(v(0.3, 0.1, 0.0), 0.3))).col(m(sphere_at(v(-0.3, -0.1, 0.2), 0.35))), ball(v(0.1, 1.9, 0.0), 0.4, 0.5)],
		12 => vec![point(v(0.0, 0.2, 0.0), 2.0).rot(v(0.2, 0.1, 0.5)).vel(vb * 0.4).col(m(boxx(v(0.1, 0.0, 0.0), v(-0.6, -0.4, -0.5), v(0.5, 0.4, 0.5)))), ball(v(0.2, 1.3, 0.1) + nudge, 0.4, 1.0).vel(va), point(v(-1.5, 0.5, 0.1), 0.7).vel(v(1.0, 0.0, 0.0)).rot(v(0.0, 0.3, 0.0)).col(m(sphere_at(v(0.2, 0.3, 0.0), 0.3))).col(m(sphere_at(v(0.1, -0.3, 0.1), 0.3))), ball(v(0.3, -0.9, 0.0), 0.35, 0.6)],
		13 => vec![im().rot(v(0.1, 0.25, 0.05)).at(v(0.1, -0.9, 0.0)).col(m(mesh(O, box_faces(v(-2.0, -0.5, -2.0), v(2.0, 0.5, 2.0))))), point(v(0.05, 0.35, 0.1) + nudge, 1.2).rot(v(0.4, 0.2, -0.3)).vel(va).col(m(mesh(v(-0.21, -0.19, -0.2), tetra(0.83)))), ball(v(-1.05, 0.25, 0.3), 0.37, 0.8).vel(vb)],
		// Slowing down and falling asleep one after the other, some of them after having been hit by those that still move.
		14 => vec![ball(v(-1.1, 1.3, 0.1) + nudge, 0.45, 1.0).vel(va * 1.5).w(v(0.5, 0.0, 0.3)), ball(v(0.2, 1.1, 0.0), 0.52, 1.2).vel(vb * -0.7), ball(v(3.0, 0.2, 0.1), 0.4, 0.9).vel(v(5.5, 0.1, 0.0)), ball(v(4.5, 0.1, 0.0) + nudge, 0.45, 1.1), ball(v(5.6, 0.7, 0.2), 0.4, 0.8).vel(v(0.0, 0.3, 0.1))],
		// Balls on gravel: many short edges.
		15 => {
			let stone = |at: V3, turn: V3| -> Vec<Vec<V3>> { icosahedron().into_iter().map(|f| f.into_iter().map(|p| (M3::rot(turn).mv(p * 0.2) + at).r32()).collect()).collect() };
			let stones: Vec<Vec<V3>> = [(v(-0.75, 0.1, 0.05), O), (v(0.35, -0.05, 0.3), v(0.4, 0.9, 0.1)), (v(0.1, 0.0, -0.55), v(-0.3, 0.2, 1.0)), (v(1.5, 0.15, 0.1), v(0.0, 0.7, 0.3))].iter().flat_map(|(p, t)| stone(*p, *t)).collect();
			vec![im().at(v(0.05, 0.1, 0.0)).rot(v(0.1, 0.2, 0.0)).col(m(mesh(O, stones))), ball(v(-0.3, 0.8, 0.1) + nudge, 0.42, 1.0).vel(va).w(v(0.5, 0.0, 0.8)), ball(v(0.85, 0.85, 0.2), 0.38, 1.6).vel(vb)]
		}
		// Sleepers that get hit.
		_ => vec![ball(v(-0.6, 0.5, 0.1), 0.5, 1.0), ball(v(0.75, 0.6, -0.1), 0.45, 0.7).vel(O), ball(v(-2.6, 0.9, 0.0) + nudge, 0.4, 1.2).vel(va + v(4.0, 0.0, 0.0)), ball(v(3.4, 0.7, 0.1), 0.5, 0.9).vel(vb - v(5.0, 0.0, 0.0))],
	};
	let gens = match g { 0 => vec![], 1 => vec![Gen::Gravity(v(0.3, -6.1, 0.2))], 3 => vec![Gen::Flock(1.5)], _ => vec![Gen::Gravity(v(0.0, -4.0, 0.1)), Gen::Spring(v(0.4, 0.9, 0.2), 1.3, v(0.1, 0.0, -0.05)), Gen::Drag(0.2)] };
	let gens = match (k, g) { (8, _) => gens.into_iter().filter(|g| matches!(g, Gen::Drag(_) | Gen::Flock(_))).collect(), (14, 0) => vec![Gen::Drag(3.5)], (14, 1) => vec![Gen::Drag(2.0)], (14, 2) => vec![Gen::Spring(v(0.4, 0.9, 0.2), 1.3, v(0.1, 0.0, -0.05)), Gen::Drag(2.6)], (14, _) => vec![Gen::Flock(1.5), Gen::Drag(2.2)], _ => gens };
	let steps = if k == 14 { 8 } else if ctx.thorough { 6 } else { 4 };
	let drowsy = if k == 14 { (0.25, 0.15) } else { (0.01, 0.15) };
	Ok(Scene { ents, gens, dt, limit, sleep: k == 8 || k == 14, drowsy, steps, k })
}

/// What happened in one step.
pub struct Seen { pub bodies: Vec<Body>, pub recs: Vec<Rec>, pub cut: bool }
/// What is compared runs drowsily, the reference wide awake: that makes no difference either.
pub fn run(ctx: &mut Ctx, w: W, s: &Scene, gens: &[Gen]) -> Vec<Seen> { run_as(ctx, w, s, gens, true) }
fn run_as(ctx: &mut Ctx, mut w: W, s: &Scene, gens: &[Gen], drowsy: bool) -> Vec<Seen> {
	w.sys.iteration_max = s.limit;
	if s.sleep { w.sys.sleep_time_threshold = s.drowsy.1 as f32; w.sys.energy_sleep_threshold = s.drowsy.0 as f32; } else { w.awake(drowsy); }
	for g in gens { g.add(&mut w); }
	let mut r = vec![];
	for _ in 0..s.steps { w.tick(ctx, s.dt); let recs = w.recs(); r.push(Seen { bodies: w.bodies(), cut: recs.len() >= s.limit as usize, recs }); }
	r
}
/// Names and sizes of the differences between two records / two bodies.
fn rec_diff(p: &Rec, q: &Rec, dt: f64) -> [(&'static str, f64); 5] {
	let n = if p.a == q.a { q.n } else { -q.n };
	[("time", (p.t - q.t).abs() / dt), ("position", (p.pos - q.pos).len() / (1.0 + p.pos.len() * 0.1)), ("normal", (p.n - n).len()), ("restitution", (p.e - q.e).abs()), ("impulse", (p.j - q.j).abs() / (1.0 + p.j))]
}
fn body_diff(p: &Body, q: &Body) -> [(&'static str, f64); 6] {
	[("body", (p.com - q.com).len() / (1.0 + 0.1 * p.com.len())), ("velocity", (p.vel - q.vel).len() / (1.0 + p.vel.len())), ("turning", (p.w - q.w).len() / (3.0 + p.w.len())), ("rotation", p.rot.max_diff(&q.rot)), ("mass", if p.mass == q.mass { 0.0 } else { (p.mass - q.mass).abs() / p.mass }), ("inertia", if p.movable() { p.inertia.max_diff(&q.inertia) / (0.1 + p.inertia.max_abs()) } else { 0.0 })]
}
fn alike(x: &Seen, y: &Seen) -> bool {
	x.recs.len() == y.recs.len() && x.recs.iter().zip(&y.recs).all(|(p, q)| (p.a, p.b) == (q.a, q.b)) && x.bodies.iter().zip(&y.bodies).all(|(p, q)| p.asleep == q.asleep)
}

/// Did two things happen at the same time, or something right at the start or end of the step?
pub fn tied(s: &Seen, dt: f64, nudge: f64) -> bool {
	let eps = 20.0 * nudge * dt;
	s.recs.windows(2).any(|p| (p[1].t - p[0].t).abs() < eps) || s.recs.iter().any(|r| r.t < eps || r.t > dt - eps)
}

/// A scene's run in the natural order, and how much each number in it moves when everything is nudged by 1e-5.
/// Only as many steps as come out with the same collisions whichever way it is nudged.
pub struct Reference { pub run: Vec<Seen>, recs: Vec<Vec<[f64; 5]>>, bodies: Vec<Vec<[f64; 6]>> }
impl Reference {
	pub fn map<F: FnMut(&Seen) -> Seen>(&self, f: F) -> Reference { Reference { run: self.run.iter().map(f).collect(), recs: self.recs.clone(), bodies: self.bodies.clone() } }
}
thread_local! { static LAST: std::cell::RefCell<Vec<(u64, Vec<u32>, std::rc::Rc<Reference>)>> = std::cell::RefCell::new(vec![]); }
/// The reference of the scene chosen just now (kept while the same scene is compared again and again).
pub fn reference(ctx: &mut Ctx, s: &Scene) -> std::rc::Rc<Reference> { let key = ctx.chosen(); reference_by(ctx, s, 1e-5, key) }
/// With nudges of another size.
pub fn reference_by(ctx: &mut Ctx, s: &Scene, nudge: f64, key: Vec<u32>) -> std::rc::Rc<Reference> {
	let tag = nudge.to_bits();
	if let Some(r) = LAST.with(|l| l.borrow().iter().find(|x| x.0 == tag && x.1 == key).map(|x| x.2.clone())) { return r; }
	let mut r = Reference { run: run_as(ctx, W::build(&s.ents), s, &s.gens, false), recs: vec![], bodies: vec![] };
	for x in &r.run { r.recs.push(vec![[0.0; 5]; x.recs.len()]); r.bodies.push(vec![[0.0; 6]; x.bodies.len()]); }
	for k in 0..4 {
		let mut es = s.ents.clone();
		for (i, e) in es.iter_mut().enumerate() {
			let d = [v(0.6, -0.5, 0.62), v(-0.3, 0.9, 0.3), v(0.7, 0.7, -0.14), v(-0.58, -0.58, -0.57)][(i + k) % 4] * if k % 2 == 0 { nudge } else { -nudge };
			e.pos = e.pos + d;
			e.rot = e.rot + v(d.y, -d.z, d.x);
			if e.vel != O { e.vel = e.vel + v(d.z, d.x, -d.y); }
			if e.w != O { e.w = e.w + v(-d.y, d.z, -d.x) * 3.0; }
		}
		let quiet = ctx.tracing;
		ctx.tracing = false;
		let other = run_as(ctx, W::build(&es), s, &s.gens, false);
		ctx.tracing = quiet;
		let same = r.run.iter().zip(&other).take_while(|(x, y)| alike(x, y) && !tied(x, s.dt, nudge) && !tied(y, s.dt, nudge)).count();
		r.run.truncate(same);
		for (n, (x, y)) in r.run.iter().zip(&other).enumerate() {
			for (i, (p, q)) in x.recs.iter().zip(&y.recs).enumerate() { for (m, d) in rec_diff(p, q, s.dt).iter().enumerate() { r.recs[n][i][m] = r.recs[n][i][m].max(d.1); } }
			for (i, (p, q)) in x.bodies.iter().zip(&y.bodies).enumerate() { for (m, d) in body_diff(p, q).iter().enumerate() { r.bodies[n][i][m] = r.bodies[n][i][m].max(d.1); } }
		}
	}
	let r = std::rc::Rc::new(r);
	LAST.with(|l| { let mut l = l.borrow_mut(); l.retain(|x| x.0 != tag); l.push((tag, key, r.clone())); });
	r
}
/// Compares a run with the reference.
pub fn compare(ctx: &mut Ctx, s: &Scene, a: &Reference, b: &[Seen], loose: f64, what: &str) -> R {
	// Next to an edge, which of face and edge is hit is a matter of rounding, and tilts the normal by sqrt(rounding).
	let edged = s.ents.iter().any(|e| e.cols.iter().any(|c| matches!(c.shape, Shape::Box { .. } | Shape::Mesh { .. })));
	let (mut floor, grow) = if edged { (1e-3, 3.0) } else { (3e-5, 1.0) };
	floor *= loose;
	for k in 0..a.run.len() {
		let (x, y) = (&a.run[k], &b[k]);
		if loose > 1.0 && x.recs.len() != y.recs.len() {
			// Whether what just bounced off grazes the same thing once more (without any effect) is a matter of rounding.
			let heavy = |x: &Seen| x.recs.iter().filter(|r| r.j > 1e-5).count();
			if heavy(x) == heavy(y) { ctx.outcome("grazes once more"); return Err(Stop::Skip); }
		}
		ensure!(x.recs.len() == y.recs.len(), "step {}: {} collisions, but {} {}", k, x.recs.len(), y.recs.len(), what);
		for (i, (p, q)) in x.recs.iter().zip(&y.recs).enumerate() {
			ensure!((p.a, p.b) == (q.a, q.b) || (p.a, p.b) == (q.b, q.a), "step {}: collision {} is of entities {}-{}, but of {}-{} {}", k, i, p.a, p.b, q.a, q.b, what);
			for (m, (name, d)) in rec_diff(p, q, s.dt).iter().enumerate() {
				// (How soon something slow arrives hangs on every bit of where it is.)
				let f = floor * if s.k == 14 && *name == "time" { 1.0 + 3.0 / p.j } else { 1.0 } + 2.0 * a.recs[k][i][m];
				ctx.dev(name, d / f);
				ensure!(*d <= f, "step {}: collision {} of {}-{} has {} off by {} {}: {} / {}", k, i, p.a, p.b, name, d, what, p.show(), q.show());
			}
			floor *= grow;
		}
		for (i, (p, q)) in x.bodies.iter().zip(&y.bodies).enumerate() {
			for (m, (name, d)) in body_diff(p, q).iter().enumerate() {
				// An impulse's arm is a difference of rounded positions, and light bodies are easily spun.
				let f = floor * if loose > 1.0 && (*name == "turning" || *name == "rotation") { 20.0 } else { 1.0 } + 2.0 * a.bodies[k][i][m];
				ctx.dev(name, d / f);
				ensure!(*d <= f, "step {}: entity {} has {} off by {} {}: {} / {}", k, i, name, d, what, p.show(), q.show());
			}
			ensure!(p.asleep == q.asleep, "step {}: entity {} is {}asleep, but {}asleep {}", k, i, if p.asleep { "" } else { "not " }, if q.asleep { "" } else { "not " }, what);
		}
	}
	Ok(())
}
