//! C23 - MeshCollider::add_face sequences against a set model.
use super::c09::prism;
use super::Prop;
use crate::engine::*;
use crate::geom::*;
use crate::m::*;
use crate::world::*;
use fluffy_tribble::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PROP: Prop = Prop {
	id: "C23", body,
	rule: "every sequence (up to the depth bound) of add_face calls over an alphabet of valid faces (triangles, quads, pentagon, hexagon; sharing corners/edges in the same or opposite direction, duplicated, nearly coplanar; with corners a hair apart or apart by rounding only) and bad faces (too few points, non-coplanar, non-convex, slightly so, bow-ties, stars), also on top of a twelve-sided prism, then acceptance by the system; non-trivial when at least two faces were offered",
	assumptions: &["faces with collinear consecutive corners (which the code refuses) and faces listing a corner twice are outside the alphabet", "corners closer than 1e-6 are one corner; distinct corners in the alphabet are at least 3e-6 apart, equal ones at most 4e-7; faces bent by 0.01 or more are bad"],
};

fn alphabet(scale: f64) -> Vec<(Vec<V3>, bool)> {
	let c = |x: f64, y: f64, z: f64| v(x, y, z);
	let (a, b, d, e) = (c(0., 0., 0.), c(1., 0., 0.), c(1., 1., 0.), c(0., 1., 0.));
	let (f, g, h) = (c(0., 0., 1.), c(1., 0., 1.), c(1., 1., 1.));
	let regular = |n: usize, r: f64, o: V3| -> Vec<V3> { (0..n).map(|i| { let t = std::f64::consts::TAU * i as f64 / n as f64; o + v(r * t.cos(), r * t.sin(), 0.0) }).collect() };
	let skewed = |p: V3| M3::rot(v(0.3, -0.8, 0.5)).mv(p);
	let mut r = vec![
		(vec![a, b, d, e], true),
		(vec![a, b, d], true),
		(vec![d, b, a], true), // same triangle, other winding
		(vec![b, d, e], true),
		(vec![a, b, g, f], true),
		(vec![b, d, h, g], true),
		(regular(5, 2.0, O), true),
		(regular(6, 1.0, c(0., 0., 3.)).into_iter().map(skewed).collect(), true),
		(vec![c(0.1, 0., 0.), b, d], true), // distinct corner 0.1 away
		(vec![c(0.995, 0., 0.), b, d], true), // sliver, with a corner close to another
		(vec![c(1.0001, 0., 0.), c(2., 0., 0.), c(1., 1., 1.)], true), // closer yet
		(vec![c(3e-6 / scale, 0., 0.), b, h], true), // as close as a corner can be
		(vec![c(0., 0., 4e-7 / scale), e, f], true), // the same corner, give or take rounding
		// bad ones
		(vec![a, b, d, c(0., 1., 0.01)], false), // nearly coplanar
		(vec![a, b, d, c(0., 1., -0.1)], false),
		(vec![a, b, c(0.49, 0.49, 0.), e], false), // slightly dented
		(vec![a, b, d, c(0.497, 1.0, 0.), c(0.5, 0.99, 0.)], false), // a small dent at the end
		(vec![], false),
		(vec![a, b], false),
		(vec![a, b, d, c(0., 1., 0.5)], false), // not coplanar
		(vec![a, b, d, c(0.9, 0.3, 0.)], false), // non-convex (dart)
		(vec![a, c(2., 0., 0.), c(0.5, 0.5, 0.), c(0., 2., 0.)], false), // dart, reflex third corner
		(vec![a, b, d, e, c(0.5, 0.5, 0.)], false), // reflex last corner
		(vec![a, d, b, e], false), // bow-tie
	];
	let mut oct = regular(8, 1.0, O);
	oct[5] = oct[5] * 0.3; // a dent late in the list
	r.push((oct, false));
	let mut oct = regular(8, 1.0, O);
	oct[6].z = 0.4; // out of plane late in the list
	r.push((oct, false));
	// stars: always turn the same way, but go around more than once
	r.push(({ let p = regular(5, 1.5, c(0., 0., -2.)); [0usize, 2, 4, 1, 3].iter().map(|i| p[*i]).collect() }, false));
	r.push(({ let p = regular(7, 1.0, O); [0usize, 3, 6, 2, 5, 1, 4].iter().map(|i| skewed(p[*i])).collect() }, false));
	r
}

struct Model { verts: Vec<V3>, edges: Vec<(usize, usize)>, faces: usize }
impl Model {
	fn add(&mut self, f: &[V3]) {
		let idx: Vec<usize> = f.iter().map(|p| match self.verts.iter().position(|q| (q.r32() - p.r32()).len() < 1e-6) { Some(i) => i, None => { self.verts.push(*p); self.verts.len() - 1 } }).collect();
		for i in 0..idx.len() {
			let (a, b) = (idx[i], idx[(i + 1) % idx.len()]);
			let e = (a.min(b), a.max(b));
			if !self.edges.contains(&e) { self.edges.push(e); }
		}
		self.faces += 1;
	}
}

fn body(ctx: &mut Ctx) -> R {
	// From nothing, or from a prism of a dozen sides.
	let big = ctx.flag();
	let depth = if big { 2 } else { 4 } + ctx.thorough as usize;
	let mut mesh = MeshCollider::new();
	let mut m = Model { verts: vec![], edges: vec![], faces: 0 };
	let scale = *ctx.of(&[1.0, 0.5, 20.0]);
	let mut al = alphabet(scale);
	let mut accepted: Vec<Vec<V3>> = vec![];
	if big {
		let faces: Vec<Vec<V3>> = prism(12, 1.0, -7.0, -5.5);
		for f in &faces {
			let f: Vec<V3> = f.iter().map(|p| *p * scale).collect();
			ensure!(catch_unwind(AssertUnwindSafe(|| mesh.add_face(&f.iter().map(|p| f3(*p)).collect()))).is_ok(), "a valid face was refused: {}", last_panic());
			m.add(&f);
			accepted.push(f);
		}
		let c = |i: usize, j: usize| faces[i][j];
		al.extend([(faces[13].clone(), true), (faces[11].iter().rev().cloned().collect(), true), (vec![c(12, 3), c(12, 2), v(0.3, 0.1, -9.0)], true), (vec![c(13, 10), c(13, 11), v(0.9, -0.8, -4.0)], true), (vec![c(13, 0), c(13, 5), c(12, 3)], true)]);
	}
	for k in 0..depth {
		let c = ctx.pick(al.len() + 1);
		if c == 0 { break; }
		if k == 1 { ctx.shard()?; }
		let (f, good) = &al[c - 1];
		let f: Vec<V3> = f.iter().map(|p| *p * scale).collect();
		let pts: Vec<_> = f.iter().map(|p| f3(*p)).collect();
		ctx.log(|| format!("add_face({:?}) expected {}", f.iter().map(|p| p.arr()).collect::<Vec<_>>(), if *good { "ok" } else { "refused" }));
		let r = catch_unwind(AssertUnwindSafe(|| mesh.add_face(&pts)));
		ctx.step();
		if k > 0 { ctx.interesting(); }
		if *good {
			ensure!(r.is_ok(), "a valid face was refused: {}", last_panic());
			m.add(&f);
			accepted.push(f.clone());
		} else {
			ensure!(r.is_err(), "a bad face was accepted: {:?}", f.iter().map(|p| p.arr()).collect::<Vec<_>>());
			ctx.outcome("face refused");
		}
		ensure!(mesh.vertex_count() == m.verts.len(), "{} corners stored, {} distinct ones given", mesh.vertex_count(), m.verts.len());
		ensure!(mesh.edge_count() == m.edges.len(), "{} edges stored, {} distinct ones given", mesh.edge_count(), m.edges.len());
		ensure!(mesh.face_count() == m.faces, "{} faces stored, {} accepted", mesh.face_count(), m.faces);
		ensure!(mesh.is_valid() == (m.faces > 0), "is_valid is {} with {} faces", mesh.is_valid(), m.faces);
		ctx.state(Fp::new().u(m.verts.len() as u64).u(m.edges.len() as u64).u(m.faces as u64).u(accepted.len() as u64).u(c as u64).get());
	}
	// "usable": the system takes it exactly when it is valid, and it still collides with a probe on each accepted face.
	let mut w = W::new();
	let (nv, ne, nf) = (mesh.vertex_count(), mesh.edge_count(), mesh.face_count());
	let r = w.sys.add_collider(ColliderWrapper::Mesh(mesh));
	ensure!(r.is_ok() == (m.faces > 0), "system accepted={} with {} faces", r.is_ok(), m.faces);
	if let Ok(h) = r {
		match w.sys.get_collider(h) { Some(ColliderWrapper::Mesh(back)) => ensure!((back.vertex_count(), back.edge_count(), back.face_count()) == (nv, ne, nf), "mesh changed by storing"), _ => bad!("mesh not readable") }
		let e = w.sys.add_entity(Ent::new().own(INF).public()).unwrap();
		w.sys.link_collider(h, Some(e)).unwrap();
		// Probe one accepted face: a ball dropped on its middle must hit the mesh.
		let f = &accepted[ctx.pick(accepted.len())];
		let mid = f.iter().fold(O, |a, b| a + *b) * (1.0 / f.len() as f64);
		let n = (f[1] - f[0]).cross(f[2] - f[0]).unit();
		let r = 0.06;
		let start = mid + n * (r + 0.4);
		let polys = accepted.clone();
		if dist_polys(start, &polys) < r + 0.01 { return Err(Stop::Skip); }
		let i = w.add(&Ent::new().own(1.0).at(start).vel(n * -1.0).col(sphere(r)));
		w.sys.iteration_max = 1;
		w.tick(ctx, 1.0);
		ensure!(!w.sys.collision_records.is_empty(), "a ball passes through the middle of an accepted face ({:?})", f.iter().map(|p| p.arr()).collect::<Vec<_>>());
		let _ = i;
		ctx.outcome("probe hit");
	}
	Ok(())
}
