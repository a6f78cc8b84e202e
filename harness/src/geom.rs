//! Geometry oracle (double precision, written independently of the crate): distances from a point
//! to shapes, and first-contact times of a sphere moving in a straight line.
use crate::m::*;
use crate::world::*;

/// Closest point of a convex polygon (any winding) to `p`.
pub fn closest_on_polygon(p: V3, poly: &[V3]) -> V3 {
	let n = (poly[1] - poly[0]).cross(poly[2] - poly[0]).unit();
	let q = p - n * (p - poly[0]).dot(n);
	let mut inside = true;
	for i in 0..poly.len() {
		let (a, b) = (poly[i], poly[(i + 1) % poly.len()]);
		if (b - a).cross(q - a).dot(n) < 0.0 { inside = false; break; }
	}
	if inside { return q; }
	let mut best = poly[0];
	let mut bd = f64::INFINITY;
	for i in 0..poly.len() {
		let c = closest_on_segment(p, poly[i], poly[(i + 1) % poly.len()]);
		let d = (c - p).len();
		if d < bd { bd = d; best = c; }
	}
	best
}
pub fn closest_on_segment(p: V3, a: V3, b: V3) -> V3 {
	let d = b - a;
	let t = ((p - a).dot(d) / d.dot(d)).clamp(0.0, 1.0);
	a + d * t
}
/// Distance from a point to an axis-aligned box (0 inside).
pub fn dist_box(p: V3, lo: V3, hi: V3) -> f64 {
	let c = v(p.x.clamp(lo.x, hi.x), p.y.clamp(lo.y, hi.y), p.z.clamp(lo.z, hi.z));
	(p - c).len()
}
pub fn dist_polys(p: V3, polys: &[Vec<V3>]) -> f64 {
	polys.iter().map(|f| (closest_on_polygon(p, f) - p).len()).fold(f64::INFINITY, f64::min)
}

/// Of a convex function `d` on [0,1]: (its minimum, the first t with d(t) <= r).
pub fn convex_first<F: Fn(f64) -> f64>(d: F, r: f64) -> (f64, Option<f64>) {
	if d(0.0) <= r { return (d(0.0), Some(0.0)); }
	let (mut a, mut b) = (0.0, 1.0);
	for _ in 0..60 {
		let (x, y) = (a + (b - a) / 3.0, b - (b - a) / 3.0);
		if d(x) < d(y) { b = y; } else { a = x; }
	}
	let tm = 0.5 * (a + b);
	let (tm, dm) = if d(1.0) < d(tm) { (1.0, d(1.0)) } else { (tm, d(tm)) };
	if dm > r { return (dm, None); }
	let (mut lo, mut hi) = (0.0, tm);
	for _ in 0..50 { let mid = 0.5 * (lo + hi); if d(mid) <= r { hi = mid; } else { lo = mid; } }
	(dm, Some(hi))
}

/// World-space corners of the faces of a mesh or box collider at a pose.
pub fn polys_of(shape: &Shape, b: &Body) -> Vec<Vec<V3>> {
	match shape {
		Shape::Mesh { pos, faces } => faces.iter().map(|f| f.iter().map(|p| b.world(pos.r32() + p.r32())).collect()).collect(),
		Shape::Box { pos, a, b: c } => box_faces(*a, *c).iter().map(|f| f.iter().map(|p| b.world(pos.r32() + p.r32())).collect()).collect(),
		_ => vec![],
	}
}
/// The six faces of a box, wound outward.
pub fn box_faces(a: V3, b: V3) -> Vec<Vec<V3>> {
	let lo = v(a.x.min(b.x), a.y.min(b.y), a.z.min(b.z));
	let hi = v(a.x.max(b.x), a.y.max(b.y), a.z.max(b.z));
	let p = |i: u8| v(if i & 1 == 0 { lo.x } else { hi.x }, if i & 2 == 0 { lo.y } else { hi.y }, if i & 4 == 0 { lo.z } else { hi.z });
	vec![
		vec![p(0), p(4), p(6), p(2)], vec![p(1), p(3), p(7), p(5)],
		vec![p(0), p(1), p(5), p(4)], vec![p(2), p(6), p(7), p(3)],
		vec![p(0), p(2), p(3), p(1)], vec![p(4), p(5), p(7), p(6)],
	]
}
pub fn tetra(s: f64) -> Vec<Vec<V3>> {
	let (a, b, c, d) = (v(0.0, 0.0, 0.0), v(s, 0.0, 0.0), v(0.0, s, 0.0), v(0.0, 0.0, s));
	vec![vec![a, c, b], vec![a, b, d], vec![a, d, c], vec![b, c, d]]
}
/// An irregular convex solid: a wedge (triangular prism with slanted end).
pub fn wedge() -> Vec<Vec<V3>> {
	let (a, b, c) = (v(-1.0, 0.0, -0.5), v(1.5, 0.0, -0.5), v(0.25, 1.25, -0.5));
	let (d, e, f) = (v(-1.0, 0.0, 1.0), v(1.5, 0.0, 1.0), v(0.25, 1.25, 1.0));
	vec![vec![a, c, b], vec![d, e, f], vec![a, b, e, d], vec![b, c, f, e], vec![c, a, d, f]]
}

/// Deepest penetration of a sphere into an obstacle shape at a pose (negative = clear by that much).
pub fn penetration(c: V3, r: f64, shape: &Shape, b: &Body) -> f64 {
	match shape {
		Shape::Sphere { c: p, r: q } => r + q - (c - b.world(*p)).len(),
		Shape::Plane { p, n } => r - (c - b.world(*p)).dot(n.unit()),
		Shape::Box { pos, a, b: hi } => {
			let l = b.rot.t().mv(c - b.com) - b.off - *pos;
			let (a, hi) = (v(a.x.min(hi.x), a.y.min(hi.y), a.z.min(hi.z)), v(a.x.max(hi.x), a.y.max(hi.y), a.z.max(hi.z)));
			let d = dist_box(l, a, hi);
			if d > 0.0 { r - d } else { r + (l.x - a.x).min(hi.x - l.x).min(l.y - a.y).min(hi.y - l.y).min(l.z - a.z).min(hi.z - l.z) }
		}
		Shape::Mesh { .. } => r - dist_polys(c, &polys_of(shape, b)),
		Shape::Null { .. } => f64::NEG_INFINITY,
	}
}
