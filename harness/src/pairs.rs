//! Two bodies about to touch once: the scenes shared by C13 (normal response) and C14 (friction).
use crate::engine::*;
use crate::geom::*;
use crate::m::*;
use crate::world::*;

/// Ways a body carries a shape; the shape sits at the local origin, the centre of mass need not.
fn dress(how: usize, mass: f64, shape: Col) -> Ent {
	match how {
		// All mass in the body itself: cannot be turned.
		0 => Ent::new().own(mass).col(shape),
		// The collider itself is massive (central).
		1 => if let Shape::Mesh { .. } = shape.shape { Ent::new().col(shape).col(null(O, mass, M3::diag(0.07, 0.07, 0.07).scale(mass))) } else { Ent::new().col(shape.mass(mass)) },
		// Anisotropic, centre of mass away from the shape, part of the mass in the body.
		2 => Ent::new().own(mass * 0.25).col(shape).col(null(v(-0.3, 0.2, 0.1), mass * 0.5, M3::diag(0.11, 0.3, 0.22).scale(mass))).col(null(v(0.1, -0.4, 0.25), mass * 0.25, M3::diag(0.02, 0.01, 0.02).scale(mass))),
		// Immovable by a collider.
		3 => Ent::new().own(1.0).col(shape).col(null(v(0.0, 0.5, 0.0), INF, M3::id())),
		// As thin as a line: no inertia around it.
		5 => Ent::new().col(shape).col(null(v(0.5, 0.25, -0.3), mass * 0.5, M3::ZERO)).col(null(v(-0.7, -0.35, 0.42), mass * 0.5, M3::ZERO)),
		// Immovable by its own mass, though its colliders are not.
		_ => Ent::new().own(INF).col(shape.mass(2.0)).col(null(v(0.2, 0.0, 0.0), 1.0, M3::diag(0.2, 0.1, 0.3))),
	}
}

pub struct Pair { pub ents: [Ent; 2], pub dt: f64, /// restitution, static, dynamic, threshold products
	pub e: f64, pub mus: f64, pub mud: f64, pub swap: bool, pub kind: usize, /// something else that would be hit later in the step
	pub decoy: usize, pub extra: Option<Ent> }

const MASSES: [(f64, f64); 8] = [(1.0, 1.0), (1.0, 3.0), (0.02, 50.0), (2.0, 0.3), (700.0, 4.0), (0.5, 0.005), (3000.0, 2000.0), (2.5e6, 4e6)];

/// The kinds: sphere-sphere, sphere-plane, sphere-box (face, edge, corner), sphere-mesh (face, edge), mesh-plane, mesh-mesh.
pub const KINDS: usize = 9;

/// Picks a pair. `fric` picks friction coefficients too.
pub fn pick_pair(ctx: &mut Ctx, fric: bool) -> Result<Pair, Stop> {
	let kind = ctx.pick(KINDS);
	let (ha, hb) = *ctx.of(&[(0, 0), (2, 2), (1, 2), (2, 0), (2, 3), (2, 4), (1, 4), (3, 2), (4, 1), (0, 3), (0, 4), (1, 1), (5, 2), (5, 3), (0, 5)]);
	ctx.shard()?;
	// Bodies that are much lighter than others come from MASSES.
	let (ma, mb) = if (ha > 2 && ha < 5) || (hb > 2 && hb < 5) { *ctx.of(&[(1.0, 1.0), (0.02, 0.02), (50.0, 50.0), (5e4, 5e4)]) } else { *ctx.of(&MASSES) };
	let (ea, eb): (f64, f64) = if fric { *ctx.of(&[(0.5, 0.8), (1.0, 1.0), (0.0, 1.0)]) } else { *ctx.of(&[(1.0, 1.0), (0.5, 0.8), (0.0, 1.0), (1.0, 0.25), (0.9, 0.1)]) };
	let (fa, fb) = if fric { *ctx.of(&[((0.5, 0.3, 0.25), (0.8, 0.7, 0.25)), ((2.0, 1.5, 1.0), (2.0, 1.5, 1.0)), ((0.05, 0.02, 0.0), (1.0, 1.0, 1.0)), ((0.0, 0.0, 0.25), (1.0, 1.0, 0.25)), ((1.0, 0.25, 1.0), (0.4, 0.3, 5.0)), ((5.0, 4.0, 0.5), (5.0, 4.0, 0.5))]) } else { ((0.0, 0.0, 0.25), (0.0, 0.0, 0.25)) };
	let spin = ctx.pick(if ctx.thorough { 6 } else { 4 });
	let (wa, wb) = [(O, O), (v(0.5, -1.0, 2.0), v(-0.25, 0.0, 0.75)), (v(-6.0, 3.0, 1.0), v(2.0, -5.0, 4.0)), (O, v(0.0, 0.0, 3.0)), (v(0.0, 12.0, 0.0), O), (v(1.0, 1.0, 1.0), v(-1.0, 2.0, 1.0))][spin];
	// How A travels relative to B: (closing speed, two sliding speeds).
	let (close, s1, s2) = if fric { *ctx.of(&[(2.0, 1.0, -0.5), (0.5, 4.0, 0.0), (3.0, 0.0, 0.0), (1.0, -0.02, 0.03), (4.0, -1.0, 7.0)]) } else { *ctx.of(&[(2.0, 0.0, 0.0), (0.5, 0.7, -0.3), (8.0, -5.0, 1.0), (0.003, 0.0, 0.0)]) };
	let vb = *ctx.of(&[O, v(1.5, -0.5, 0.25)]);
	let turned = *ctx.of(if ctx.thorough { &[1usize, 0, 2][..] } else { &[1usize, 0][..] });
	let when = if ctx.thorough { ctx.pick(3) } else { ctx.pick(2) };
	let swap = ctx.flag();
	let decoy = if close > 0.01 && (spin == 1 || ctx.thorough) { ctx.pick(5) } else { 0 };
	let world = M3::rot([O, v(0.6, -0.35, 1.1), v(2.0, 1.0, -0.5)][turned]);
	let axis = [O, v(0.6, -0.35, 1.1), v(2.0, 1.0, -0.5)][turned];
	// In B's own frame: the surface point aimed at and the direction out of it there.
	let ra = 0.5;
	let cube = |h: f64| box_faces(v(-h, -h, -h), v(h, h, h));
	let (shape_b, p, n): (Col, V3, V3) = match kind {
		0 => { let n = v(0.36, 0.48, -0.8); (sphere(0.7), n * 0.7, n) }
		1 => (plane(v(0.2, -0.3, 0.1), v(0.0, 3.0, 4.0)), v(0.2, -0.3, 0.1) + v(0.0, 0.8, -0.6) * 0.7 + v(0.4, 0.0, 0.0), v(0.0, 0.6, 0.8)),
		2 => (boxx(v(0.1, 0.0, 0.0), v(-1.0, -0.5, -0.75), v(1.0, 0.5, 0.75)), v(0.4, 0.5, -0.2), v(0.0, 1.0, 0.0)),
		3 => (boxx(v(0.1, 0.0, 0.0), v(-1.0, -0.5, -0.75), v(1.0, 0.5, 0.75)), v(1.1, 0.5, 0.3), v(0.6, 0.8, 0.0)),
		4 => (boxx(v(0.1, 0.0, 0.0), v(-1.0, -0.5, -0.75), v(1.0, 0.5, 0.75)), v(1.1, 0.5, 0.75), v(0.48, 0.64, 0.6)),
		5 => (mesh(v(0.0, 0.1, 0.0), wedge()), v(0.2, 0.5, 1.0) + v(0.0, 0.1, 0.0), v(0.0, 0.0, 1.0)),
		6 => (mesh(v(0.0, 0.1, 0.0), wedge()), v(0.25, 1.25, 0.2) + v(0.0, 0.1, 0.0), v(0.0, 1.0, 0.0)),
		7 => (plane(v(0.2, -0.3, 0.1), v(0.0, 3.0, 4.0)), v(0.2, -0.3, 0.1) + v(0.4, 0.0, 0.0), v(0.0, 0.6, 0.8)),
		_ => (mesh(O, cube(1.0)), v(0.3, 1.0, -0.2), v(0.0, 1.0, 0.0)),
	};
	let mats = |c: Col, e: f64, f: (f64, f64, f64)| c.rest(e).fric(f.0, f.1, f.2);
	// A: its orientation, and from its local origin to the touching point (world frame, B turned by `world`).
	let nw = world.mv(n);
	let (shape_a, rot_a, reach): (Col, V3, V3) = if kind < 7 { (sphere_at(v(0.0, 0.0, 0.0), ra), v(-0.4, 0.9, 0.2), -nw * ra) } else {
		// A cube with its lowest corner pointing against the normal.
		let want = v(-1.0, -1.0, -1.0).unit();
		let to = -nw;
		let ax = want.cross(to);
		let ang = ax.len().atan2(want.dot(to));
		let r = if ax.len() > 1e-9 { ax.unit() * ang } else { want.any_perp() * ang };
		(mesh(O, cube(0.3)), r, M3::rot(r).mv(v(-0.3, -0.3, -0.3)))
	};
	let t1 = nw.any_perp();
	let t2 = nw.cross(t1);
	let dt = [0.1, 0.02, 1.0][when];
	let tc = [0.04, 0.0, 0.3][when];
	let pb = v(-1.0, 0.5, 2.0);
	let va = vb - nw * close + t1 * s1 + t2 * s2;
	let slack = if when == 1 { if kind >= 7 { nw * 1e-3 } else { nw * -1e-3 } } else { O };
	let pa = pb + world.mv(p) - reach - (va - vb) * tc + slack;
	// Other material, hit later: behind what is hit, or coming from behind.
	let other = |c: Col| c.rest(0.37).fric(0.9, 0.6, 0.4);
	let behind = { let mut c = shape_b.clone(); let by = if let Shape::Plane { .. } = c.shape { world.t().mv(n) * -0.01 } else { n * -0.01 }; match &mut c.shape { Shape::Sphere { c, .. } => *c = *c + by, Shape::Plane { p, .. } => *p = *p + by, Shape::Box { pos, .. } | Shape::Mesh { pos, .. } => *pos = *pos + by, _ => {} } c };
	let extra = if decoy == 1 || decoy == 2 { Some(Ent::new().own(1.5).at(pa + nw * (ra + 0.3 + 9.5 * dt)).vel(va - nw * 10.0).col(other(sphere(0.3)))) } else { None };
	let a = dress(ha, ma, mats(shape_a, ea, fa)).at(pa).rot(rot_a).vel(va).w(wa);
	let b = dress(hb, mb, mats(shape_b, eb, fb)).at(pb).rot(axis).vel(vb).w(wb);
	let b = if decoy > 2 { b.col(other(behind)) } else { b };
	Ok(Pair { decoy, extra, ents: [a, b], dt, e: r32(ea) * r32(eb), mus: r32(fa.0) * r32(fb.0), mud: r32(fa.1) * r32(fb.1), swap, kind })
}

/// Builds the pair (insertion order from `swap`), the bodies being indexed as in `ents` (and whatever else there is last).
pub fn build(p: &Pair) -> W {
	let mut es = p.ents.to_vec();
	let mut order = if p.swap { vec![1, 0] } else { vec![0, 1] };
	if let Some(x) = &p.extra { es.push(x.clone()); order.insert(if p.decoy == 1 { 0 } else { 2 }, 2); }
	loop {
		let mut w = W::build_in_order(&es, &order);
		w.no_sleep();
		w.sys.iteration_max = 1;
		if p.decoy > 2 {
			// The collider behind must be looked at first, or after the one that is hit.
			let (hit, far) = (w.cols[1][0], *w.cols[1].last().unwrap());
			let set: Vec<_> = w.sys.get_entity(w.ents[1]).expect("entity vanished").get_colliders().into_iter().collect();
			let at = |h| set.iter().position(|x| *x == h).expect("collider not linked");
			if (at(far) < at(hit)) != (p.decoy == 3) { continue; }
		}
		return w;
	}
}
/// With something else around: is what was handled the collision of the pair?  Errors if something later was preferred.
pub fn is_ours(p: &Pair, recs: &[Rec]) -> R<bool> {
	if recs.is_empty() || (p.decoy < 3 && recs[0].a < 2 && recs[0].b < 2) { return Ok(true); }
	let mut alone = Pair { decoy: 0, extra: None, ents: p.ents.clone(), ..*p };
	if p.decoy > 2 { alone.ents[1].cols.pop(); }
	let mut alone = build(&alone);
	alone.step(p.dt);
	// Turning meshes may pass each other's first surface (documented linearisation).
	if p.decoy > 2 { return Ok(!alone.recs().is_empty()); }
	if let Some(r) = alone.recs().first() { ensure!(r.t > recs[0].t - 1e-4 * p.dt, "a collision at {} was handled although there is one at {}", recs[0].t, r.t); }
	Ok(false)
}
/// The effective inverse mass of the pair for impulses along `d` at `p`.
pub fn k_along(a: &Body, b: &Body, p: V3, d: V3) -> f64 {
	let one = |x: &Body| { let r = p - x.com; x.inv_mass() + x.inv_inertia().mv(r.cross(d)).cross(r).dot(d) };
	one(a) + one(b)
}
