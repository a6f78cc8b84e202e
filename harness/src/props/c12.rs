//! C12 - mesh against mesh: corners through faces.
use super::c09::{big_meshes, meshes};
use super::Prop;
use crate::engine::*;
use crate::geom::*;
use crate::m::*;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C12", body,
	rule: "every scene of two convex meshes over: mesh pair (incl. a twelve-sided prism and an icosahedron) x size of both (0.1, 1, 12) x where they sit on their entities (up to far from the origin) x orientation x every corner of the one aimed at points of (and just beside) every face of the other x direction of travel x gap x speed/step (a creep of 0.0006 within the step to 2) x turning of the one owning the corner x which of them moves (or both) x insertion order; the oracle intersects every corner path with every face of the other mesh; non-trivial when some corner passes through a face",
	assumptions: &["the meshes start clear of each other; one that turns has its corners go straight (documented linearisation), and is claimed only where no corner of the other comes near its faces", "scenes where the first passage is within 1% of a face's rim, of the end of the step, or runs within the plane of a face are don't-cares", "edge-edge contact is documented as not implemented: scenes where edges cross before any corner reaches a face are not claimed"],
};

/// Are two convex point sets separated by more than `gap` (separating axis test)?
fn separated(a: &[Vec<V3>], b: &[Vec<V3>], gap: f64) -> bool {
	let mut axes: Vec<V3> = vec![];
	let mut ea = vec![];
	let mut eb = vec![];
	for (fs, es) in [(a, &mut ea), (b, &mut eb)] {
		for f in fs {
			let n = (f[1] - f[0]).cross(f[2] - f[0]).unit();
			axes.push(n);
			for i in 0..f.len() { let e = f[(i + 1) % f.len()] - f[i]; es.push(e); axes.push(e.cross(n)); }
		}
	}
	for x in &ea { for y in &eb { axes.push(x.cross(*y)); } }
	for x in axes {
		if x.len() < 1e-9 { continue; }
		let x = x.unit();
		let (mut al, mut ah, mut bl, mut bh) = (INF, -INF, INF, -INF);
		for p in a.iter().flatten() { let d = p.dot(x); al = al.min(d); ah = ah.max(d); }
		for p in b.iter().flatten() { let d = p.dot(x); bl = bl.min(d); bh = bh.max(d); }
		if bl - ah > gap || al - bh > gap { return true; }
	}
	false
}

struct Hit { t: f64, /// Is the owner still entirely on the side it comes from (so nothing has overlapped before)?
	clean: bool, /// in the frame of the mesh that owns the face
	p: V3, n: V3, sure: bool, corner_of: usize }

/// Every passage of a corner of `a` (which gets to `a1`, relative to the other) through a face of `b`.
fn passages(a: &[Vec<V3>], a1: &[Vec<V3>], b: &[Vec<V3>], owner: usize, out: &mut Vec<Hit>, vague: &mut bool) {
	let mut corners: Vec<(V3, V3)> = vec![];
	for (p, p1) in a.iter().flatten().zip(a1.iter().flatten()) { if !corners.iter().any(|q| (q.0 - *p).len() < 1e-9) { corners.push((*p, *p1 - *p)); } }
	for (p, m) in corners.clone() {
		for f in b {
			let n = (f[1] - f[0]).cross(f[2] - f[0]).unit();
			let size = f.iter().map(|x| (*x - f[0]).len()).fold(0.0, f64::max);
			let tol = 2e-5 * (1.0 + p.len() + m.len());
			let (h0, h1) = ((p - f[0]).dot(n), (p + m - f[0]).dot(n));
			if h0.abs() < tol && h1.abs() < tol {
				// Runs within the plane: a don't-care if it gets anywhere near the face.
				*vague = true;
				continue;
			}
			if h0.abs() < tol || h1.abs() < tol {
				let q = if h0.abs() < tol { p } else { p + m };
				if (closest_on_polygon(q, f) - q).len() < 0.02 * size + tol { *vague = true; }
				continue;
			}
			if (h0 > 0.0) == (h1 > 0.0) { continue; }
			let t = h0 / (h0 - h1);
			let q = p + m * t;
			let slack = 0.01 * size + tol + tol * m.len() / (h1 - h0).abs();
			let d = (closest_on_polygon(q, f) - q).len();
			let rim = (0..f.len()).map(|i| (closest_on_segment(q, f[i], f[(i + 1) % f.len()]) - q).len()).fold(INF, f64::min);
			if d > slack { continue; }
			let n1 = if h0 > 0.0 { n } else { -n };
			let clean = corners.iter().all(|x| (x.0 + x.1 * t - q).dot(n1) > -1e-3);
			out.push(Hit { clean, t, p: q, n: if h0 > 0.0 { n } else { -n }, sure: rim > slack, corner_of: owner });
		}
	}
}

fn body(ctx: &mut Ctx) -> R {
	let ms = meshes();
	let small: Vec<Vec<V3>> = box_faces(v(-0.2, -0.2, -0.2), v(0.2, 0.2, 0.2));
	let pairs: Vec<(&Vec<Vec<V3>>, &Vec<Vec<V3>>)> = vec![(&ms[1], &ms[1]), (&ms[2], &ms[3]), (&ms[3], &ms[1]), (&small, &ms[5]), (&ms[2], &ms[0]), (&ms[7], &ms[1]), (&ms[1], &ms[6]), (&ms[3], &ms[3])];
	let big = big_meshes();
	let mut pairs = if ctx.thorough { pairs } else { pairs[..6].to_vec() };
	let few = pairs.len();
	pairs.extend([(&big[0], &ms[1]), (&ms[2], &big[0]), (&big[1], &ms[6]), (&ms[2], &big[1])]);
	let kind = ctx.pick(pairs.len());
	let (fa, fb) = pairs[kind];
	let rots = [(v(0.7, -0.4, 1.2), O), (v(0.9553166, 0.0, 0.7853982), v(0.2, 0.3, -0.5)), (O, O), (v(0.1, 2.0, 0.3), v(-1.1, 0.5, 0.4))];
	let (ra, rb) = *ctx.of(&rots[..if ctx.thorough { 4 } else { 3 }]);
	let size = *ctx.of(&[1.0, 0.1, 12.0][..if kind < few { 3 } else { 1 }]);
	let scaled = |fs: &[Vec<V3>]| -> Vec<Vec<V3>> { fs.iter().map(|f| f.iter().map(|p| *p * size).collect()).collect() };
	let (fa, fb) = (&scaled(fa), &scaled(fb));
	let face = ctx.pick(fb.len());
	ctx.shard()?;
	// Target point of the face.
	let f = &fb[face];
	let c = f.iter().fold(O, |a, b| a + *b) * (1.0 / f.len() as f64);
	let target = match ctx.pick(3) { 0 => c, 1 => c.lerp(f[0], 0.6), _ => c.lerp(f[1], 1.3) };
	let (ma, mb) = (M3::rot(ra.r32()), M3::rot(rb.r32()));
	let (ca, cb) = *ctx.of(&[(O, O), (v(0.7, -0.4, 1.1), v(-0.3, 0.2, 0.5)), (v(-14.0, 9.0, 20.0), v(8.0, 17.0, -5.0))]);
	let outward = mb.mv((f[1] - f[0]).cross(f[2] - f[0]).unit());
	let mut corners: Vec<V3> = vec![];
	for p in fa.iter().flatten() { if !corners.iter().any(|q| (*q - *p).len() < 1e-9) { corners.push(*p); } }
	// Which corner leads, and how it travels.
	let lead = *ctx.of(&corners);
	let tilt = *ctx.of(&[0.0, 0.5, -0.9]);
	let (speed, dt) = *ctx.of(if ctx.thorough { &[(1.0, 1.0), (4.0, 0.1), (40.0, 0.05), (0.3, 0.01), (0.06, 0.01)][..] } else { &[(1.0, 1.0), (40.0, 0.05), (0.06, 0.01)][..] });
	let path: f64 = speed * dt;
	if path < 1e-3 && size > 1.0 { return Err(Stop::Skip); }
	let gap = match ctx.pick(3) { 0 => 0.4 * path, 1 => 0.9 * path, _ => 1.2 * path };
	// Whether A moves, B moves, or both; and whether A or B is the first entity.
	let who = ctx.pick(3);
	let order = if ctx.flag() { [1, 0] } else { [0, 1] };
	let dir = (-outward + outward.any_perp() * tilt).unit();
	let epos = v(2.0, -1.0, 3.0);
	let tw = epos + mb.mv(cb + target);
	let apos = tw - dir * gap - ma.mv(ca + lead);
	let rel = dir * speed;
	let drift = v(0.3, 1.0, -0.6);
	let (va, vb) = match who { 0 => (rel, O), 1 => (O, -rel), _ => (rel * 1.5 + drift, rel * 0.5 + drift) };
	let spin = if ca.len() > 5.0 || path < 1e-3 { O } else { *ctx.of(&[O, v(0.15, -0.2, 0.1)]) };
	let es = [Ent::new().own(2.0).at(apos).rot(ra).vel(va).w(spin * (1.0 / dt)).col(mesh(ca, fa.clone())), Ent::new().own(3.0).at(epos).rot(rb).vel(vb).col(mesh(cb, fb.clone()))];
	// Oracle.
	let b0 = |p: V3, m: &M3| Body { com: p.r32(), rot: *m, vel: O, w: O, mass: 1.0, own: 1.0, inertia: M3::ZERO, off: O, asleep: false };
	let pa = polys_of(&es[0].cols[0].shape, &b0(apos, &ma));
	let pb = polys_of(&es[1].cols[0].shape, &b0(epos, &mb));
	if !separated(&pa, &pb, 1e-4) { return Err(Stop::Skip); }
	let m = (va.r32() - vb.r32()) * r32(dt);
	let mut hits = vec![];
	let mut vague = false;
	let shift = |ps: &[Vec<V3>], d: V3| -> Vec<Vec<V3>> { ps.iter().map(|f| f.iter().map(|p| *p + d).collect()).collect() };
	// Where A's corners get to (relative to B), going straight.
	let pa1 = shift(&polys_of(&es[0].cols[0].shape, &b0(apos, &M3::rot(es[0].w.r32() * r32(dt)).mm(&ma))), m);
	passages(&pa, &pa1, &pb, 0, &mut hits, &mut vague);
	if spin == O { passages(&pb, &shift(&pb, -m), &pa, 1, &mut hits, &mut vague); } else {
		// Faces that turn are only approximated: claimed are scenes in which they are nowhere near a corner.
		let size = pa.iter().flatten().map(|p| (*p - pa[0][0]).len()).fold(0.0, f64::max);
		for k in 0..=8 {
			let now: Vec<Vec<V3>> = pa.iter().zip(&pa1).map(|(f, g)| f.iter().zip(g).map(|(p, q)| p.lerp(*q, k as f64 / 8.0)).collect()).collect();
			if pb.iter().flatten().any(|c| dist_polys(*c, &now) < 0.3 * size + m.len() / 16.0) { ctx.outcome("turning faces near corners (not claimed)"); return Err(Stop::Skip); }
		}
		// How the corners really move must agree that they pass.
		for h in &hits {
			let arm = h.p - (apos + m * h.t);
			if ((va - vb) + es[0].w.cross(arm)).dot(h.n) > -0.1 * speed { return Err(Stop::Skip); }
		}
	}
	if vague { return Err(Stop::Skip); }
	let first = hits.iter().filter(|h| h.sure).map(|h| h.t).fold(INF, f64::min);
	if hits.iter().any(|h| !h.sure && h.t <= first + 1e-3) || (first < INF && first > 0.998) { return Err(Stop::Skip); }
	// Edges met edges first: contact of that kind is documented as missing, and the meshes overlap by now.
	if hits.iter().any(|h| h.t <= first + 2e-3 && !h.clean) { ctx.outcome("edges overlap first (not claimed)"); return Err(Stop::Skip); }
	let mut w = W::build_in_order(&es, &order);
	w.no_sleep();
	w.sys.iteration_max = 1;
	log_scene(ctx, &es);
	if first < INF { ctx.interesting(); }
	w.tick(ctx, dt);
	let recs = w.recs();
	if first == INF {
		ensure!(recs.is_empty(), "collision invented, no corner passes through a face: {}", recs[0].show());
		ctx.outcome("clear");
		return Ok(());
	}
	ensure!(!recs.is_empty(), "collision missed: a corner passes through a face at {} of the step", first);
	let r = &recs[0];
	let tr = r.t / dt;
	let terr = (tr - first).abs() * path;
	ctx.dev("time (as distance)", terr);
	ensure!(terr < 1e-3 * path + 3e-4, "recorded at {} of the step, the first corner passes at {}", tr, first);
	ensure!((r.a, r.b) == (0, 1) || (r.a, r.b) == (1, 0), "record names entities {} and {}", r.a, r.b);
	// It must be one of the first passages.
	let mut best = (INF, INF);
	for h in hits.iter().filter(|h| h.t <= first + 2e-3) {
		// Where the passage is in the world: the face's mesh has moved on.
		let face_vel = if h.corner_of == 0 { vb } else { va };
		let p = h.p + face_vel * (dt * h.t);
		// Face normal n points to where the corner comes from.
		let off_owner_of_face = h.n;
		let first_owns_corner = r.a == h.corner_of;
		let n = if first_owns_corner { -off_owner_of_face } else { off_owner_of_face };
		let d = ((r.pos - p).len(), (r.n - n).len());
		if d.0 + d.1 < best.0 + best.1 { best = d; }
	}
	ctx.dev("point", best.0);
	ctx.dev("normal", best.1);
	ensure!(best.0 < 2e-3 + 2e-3 * path && best.1 < 2e-3, "recorded point {:?} normal {:?} match no first passage (off by {} and {})", r.pos.arr(), r.n.arr(), best.0, best.1);
	ctx.outcome(if hits.iter().any(|h| h.corner_of == 1 && h.t <= first) { "corner of the second mesh" } else { "corner of the first mesh" });
	Ok(())
}
