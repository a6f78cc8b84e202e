//! C16 - penetration.
use super::c15::{obstacles, ARR};
use super::Prop;
use crate::engine::*;
use crate::geom::*;
use crate::hist::*;
use crate::m::*;
use crate::world::*;
use fluffy_tribble::GravityGenerator;

pub const PROP: Prop = Prop {
	id: "C16", body,
	rule: "(a) every history of the interventions in hist.rs (pushes, stops, removals, teleports, mass changes, shots, gravity changes, at every step, up to two) over 12 worlds; (b) every room (corner and closed box of planes, boxes, mesh ramp, mesh pit, plain plane, floor of twelve tiles as one body or as twelve) x 1-3 spheres of different sizes x every assignment of velocities (slow to far faster than a diameter per step) x gravity x restitution/friction x step length x iteration limit 1..40 x the room listed first or last, followed for many steps; (c) one or two meshes (tetrahedron, wedge, cube, slab) without inertia in three poses on planes, a valley of planes, a mesh's face, a mesh box, a tilted mesh and a mesh over a plane, and meshes and dumbbells with inertia on planes (dumbbells also on the others, not as fast) x velocities x gravity x materials x limits x step lengths; after every step the depth of every sphere in every obstacle and sphere, of every corner of a mesh that can't turn, and of the middle of what turns is measured; non-trivial when something collided, slept or woke",
	assumptions: &["spheres against planes, boxes, meshes and spheres, and meshes against planes and the inside of mesh faces (other pairs of colliders have no guarantee between them)", "movement per step stays below about 100 radii (single precision of the swept test)", "what turns is taken to go straight within a step, so only its middle is judged, and only by whether it gets further past the floor than its size"],
};
fn body(ctx: &mut Ctx) -> R { match ctx.pick(3) { 0 => rooms(ctx), 1 => histories(ctx, Who::C16), _ => meshes(ctx) } }

fn rooms(ctx: &mut Ctx) -> R {
	let obs = ctx.pick(10);
	let n = 1 + ctx.pick(3);
	let arr = *ctx.of(&[0usize, 2][..if n == 1 { 1 } else { 2 }]);
	let vels = [v(3.0, -2.0, 1.0), v(-20.0, -9.0, 4.0), O, v(0.5, -40.0, 0.2)];
	let mut vs = vec![];
	for i in 0..n { vs.push(*ctx.of(&vels[..if i < 2 { 4 } else { 2 }])); }
	let g = *ctx.of(&[v(0.0, -10.0, 0.0), O, v(-6.0, -3.0, 0.0)]);
	ctx.shard()?;
	let (e, mu) = *ctx.of(&[(1.0f64, 0.0), (0.0, 0.0), (0.4, 0.6)]);
	let limit = *ctx.of(if ctx.thorough { &[5u8, 1, 2, 3, 40][..] } else { &[5u8, 1, 2, 40][..] });
	let dt = *ctx.of(if ctx.thorough { &[0.1, 1.0 / 60.0, 0.33, 1.0][..] } else { &[0.1, 1.0 / 60.0, 0.33][..] });
	let mat = |c: Col| c.rest(e.sqrt()).fric(mu, mu, 0.25);
	let mut es: Vec<Ent> = match obs {
		5 => vec![Ent::new().own(INF).col(plane(O, v(0.0, 1.0, 0.0)))],
		6 => vec![Ent::new().own(INF).col(mesh(O, pit()))],
		// All of a room in one body.
		7 => { let mut e = Ent::new().own(INF).col(boxx(v(0.5, 0.0, 1.0), v(0.0, 0.0, 0.0), v(0.5, 0.7, 0.5))); for o in obstacles(2) { e.cols.extend(o.cols); } vec![e.col(boxx(O, v(-3.0, -1.0, -3.0), v(4.5, 0.1, 3.0)))] }
		// A floor of a dozen tiles: each a body of its own, or all in one.
		8 => tiles().into_iter().map(|c| Ent::new().own(INF).col(c)).collect(),
		9 => { let mut e = Ent::new().own(INF); e.cols = tiles(); vec![e] }
		k => obstacles(k),
	};
	for x in es.iter_mut() { x.cols = x.cols.drain(..).map(|c| mat(c)).collect(); }
	let base = es.len();
	let rad = [0.5, 0.4, 0.3];
	for i in 0..n { es.push(Ent::new().own([1.0, 0.0, 5.0][i]).col(mat(sphere(rad[i])).mass([0.0, 1.0, 0.5][i])).at(ARR[arr][i]).vel(vs[i])); }
	// The room listed first or last.
	let last = if obs >= 7 || (limit == 40 && g == O) { ctx.flag() } else { false };
	let order: Vec<usize> = if last { (0..es.len()).rev().collect() } else { (0..es.len()).collect() };
	let mut w = W::build_in_order(&es, &order);
	w.sys.iteration_max = limit;
	if g != O { w.sys.add_unary_force_generator(Box::new(GravityGenerator::new(f3(g)))).expect("generator refused"); }
	log_scene(ctx, &es);
	let bs = w.bodies();
	for i in base..es.len() { for j in 0..i { for col in &es[j].cols { if penetration(bs[i].com, rad[i - base], &col.shape, &bs[j]) > 1e-5 { return Err(Stop::Skip); } } } }
	for _ in 0..if ctx.thorough { 30 } else { 20 } {
		w.tick(ctx, dt);
		let bs = w.bodies();
		if !w.sys.collision_records.is_empty() { ctx.interesting(); }
		for i in base..bs.len() {
			let c = bs[i].com;
			let scale = 1.0 + c.len() * 0.1;
			for j in 0..i {
				for col in &es[j].cols {
					let d = penetration(c, rad[i - base], &col.shape, &bs[j]);
					ctx.dev("penetration in rooms", d / scale);
					ensure!(d <= 1e-3 * scale, "sphere {} at {:?} has sunk {} into entity {}", i, c.arr(), d, j);
				}
			}
		}
	}
	Ok(())
}
/// Meshes on floors.
fn meshes(ctx: &mut Ctx) -> R {
	let turning = ctx.flag();
	let floor = ctx.pick(if turning { 8 } else { 7 });
	let shape = if turning && floor > 2 { 4 } else { ctx.pick(if turning { 5 } else { 4 }) };
	let rot = *ctx.of(&[O, v(0.4, 0.2, -0.3), v(0.0, 0.3, 0.7853981)]);
	let n = 1 + ctx.pick(2);
	// (What spins fast cuts corners, so could get past anything but a plane.)
	let slow = turning && floor > 2;
	let vel = *ctx.of(&[v(3.0, -2.0, 1.0), O, v(0.5, -40.0, 0.2), v(-20.0, -9.0, 4.0)][..if slow { 2 } else { 4 }]);
	let g = *ctx.of(&[v(0.0, -10.0, 0.0), v(-6.0, -3.0, 0.0), O]);
	ctx.shard()?;
	let (e, mu) = *ctx.of(&[(1.0f64, 0.0), (0.0, 0.0), (0.4, 0.6)]);
	let limit = *ctx.of(&[5u8, 1, 40]);
	let dt = *ctx.of(if turning { &[0.05, 1.0 / 60.0][..] } else { &[0.1, 1.0 / 60.0, 0.33][..] });
	let mat = |c: Col| c.rest(e.sqrt()).fric(mu, mu, 0.25);
	let quad = |k: f64| vec![v(-k, 0.0, -k), v(-k, 0.0, k), v(k, 0.0, k), v(k, 0.0, -k)];
	let slope = v(0.3, 1.0, -0.2).unit();
	let mut es: Vec<Ent> = match floor {
		0 => vec![Ent::new().own(INF).col(plane(O, v(0.0, 1.0, 0.0)))],
		1 => vec![Ent::new().own(INF).col(plane(O, slope))],
		// A valley.
		2 => vec![Ent::new().own(INF).col(plane(O, v(0.5, 1.0, 0.0).unit())).col(plane(O, v(-0.7, 1.0, 0.0).unit()))],
		3 => vec![Ent::new().own(INF).col(mesh(O, vec![quad(30.0)]))],
		4 => vec![Ent::new().own(INF).at(v(0.0, -1.0, 0.0)).col(mesh(v(0.0, -1.0, 0.0), box_faces(v(-30.0, 0.0, -30.0), v(30.0, 2.0, 30.0))))],
		5 => vec![Ent::new().own(INF).at(v(0.0, 0.0, 0.0)).rot(v(0.2, 0.0, 0.3)).col(mesh(O, vec![quad(30.0)]))],
		7 => vec![Ent::new().own(INF).at(v(0.0, -1.0, 0.0)).col(boxx(v(0.0, -1.0, 0.0), v(-30.0, 0.0, -30.0), v(30.0, 2.0, 30.0)))],
		// A plane under a mesh.
		_ => vec![Ent::new().own(INF).col(plane(v(0.0, -0.2, 0.0), v(0.0, 1.0, 0.0))), Ent::new().own(INF).col(mesh(O, vec![quad(30.0)]))],
	};
	for x in es.iter_mut() { x.cols = x.cols.drain(..).map(|c| mat(c)).collect(); }
	let base = es.len();
	for i in 0..n {
		let faces = match shape { 0 => box_faces(v(-0.5, -0.5, -0.5), v(0.5, 0.5, 0.5)), 1 => tetra(0.8), 2 => wedge(), _ => box_faces(v(-1.0, -0.1, -0.6), v(1.0, 0.2, 0.6)) };
		let first = if shape == 4 { sphere_at(v(-0.8, 0.1, 0.0), 0.4) } else { mesh(match shape { 1 => v(-0.2, -0.2, -0.2), 2 => v(-0.25, -0.42, -0.25), _ => O }, faces) };
		let mut b = Ent::new().rot(rot).at(v(0.1 - 6.0 * i as f64, if floor == 1 || floor == 5 { 3.2 } else { 1.9 }  + 2.0 * i as f64, 0.2)).vel(vel).col(mat(first));
		if shape == 4 { b = b.col(mat(sphere_at(v(0.7, 0.0, 0.2), 0.5))); }
		if turning { b = b.col(null(O, 1.0, M3::diag(0.15, 0.2, 0.25))); } else { b = b.own(1.0 + i as f64); }
		es.push(b);
	}
	let mut w = W::build(&es);
	w.sys.iteration_max = limit;
	if g != O { w.sys.add_unary_force_generator(Box::new(GravityGenerator::new(f3(g)))).expect("generator refused"); }
	log_scene(ctx, &es);
	let below = |c: V3, bs: &[Body], j: usize, shape: &Shape| match shape {
		Shape::Plane { p, n } => -(c - bs[j].world(*p)).dot(*n),
		_ => {
			let l = bs[j].rot.t().mv(c - bs[j].com) - bs[j].off;
			if l.x.abs() > 29.0 || l.z.abs() > 29.0 { -1.0 } else { -l.y }
		}
	};
	// What has got to the rim of a floor may fall off it.
	let off = |i: usize, bs: &[Body]| {
		let corners: Vec<V3> = if turning { vec![bs[i].com] } else { polys_of(&es[i].cols[0].shape, &bs[i]).concat() };
		(0..base).any(|j| es[j].cols.iter().any(|col| !matches!(col.shape, Shape::Plane { .. }) && corners.iter().any(|c| { let l = bs[j].rot.t().mv(*c - bs[j].com) - bs[j].off; l.x.abs() > 28.0 || l.z.abs() > 28.0 })))
	};
	let mut gone = vec![false; es.len()];
	let bs = w.bodies();
	for i in base..es.len() { for c in polys_of(&es[i].cols[0].shape, &bs[i]).concat() { for j in 0..base { for col in &es[j].cols { if below(c, &bs, j, &col.shape) > 0.0 { return Err(Stop::Skip); } } } } }
	for step in 0..if ctx.thorough || turning { 80 } else { 30 } {
		w.tick(ctx, dt);
		let bs = w.bodies();
		if !w.sys.collision_records.is_empty() { ctx.interesting(); }
		for i in base..bs.len() {
			// The corners of what doesn't turn, the middle of what does (as its corners are taken to go straight within a step).
			gone[i] |= off(i, &bs);
			let corners: Vec<V3> = if turning { vec![bs[i].com] } else { polys_of(&es[i].cols[0].shape, &bs[i]).concat() };
			for c in corners {
				let scale = 1.0 + c.len() * 0.1;
				for j in 0..base {
					for col in &es[j].cols {
						if gone[i] && !matches!(col.shape, Shape::Plane { .. }) { continue; }
						let depth = below(c, &bs, j, &col.shape);
						ctx.dev(if turning { "turning meshes' middles below the floor" } else { "meshes' corners below the floor" }, depth / scale);
						ensure!(depth <= if turning { 2.0 } else { 1e-3 * scale }, "step {}: {:?} of mesh {} is {} below the floor ({})", step, c.arr(), i, depth, j);
					}
				}
			}
		}
	}
	Ok(())
}
fn tiles() -> Vec<Col> { (0..12).map(|i| { let (x, z) = ((i % 4) as f64 * 2.0 - 4.0, (i / 4) as f64 * 2.0 - 3.0); if i % 3 == 1 { mesh(v(x, -0.05, z), box_faces(v(0.0, -1.0, 0.0), v(2.0, 0.0, 2.0))) } else { boxx(v(x, 0.0, z), v(0.0, -1.0, 0.0), v(2.0, 0.0, 2.0)) } }).collect() }
/// A floor with two walls, as one mesh of three quads and a triangle.
fn pit() -> Vec<Vec<V3>> {
	let (a, b, c, d) = (v(-3.0, 0.0, -3.0), v(3.0, 0.0, -3.0), v(3.0, 0.0, 3.0), v(-3.0, 0.0, 3.0));
	vec![vec![a, b, c, d], vec![a, b, v(3.0, 4.0, -4.0), v(-3.0, 4.0, -4.0)], vec![b, c, v(3.5, 4.0, 3.0), v(3.5, 4.0, -3.0)], vec![c, d, v(0.0, 2.0, 3.0)]]
}
