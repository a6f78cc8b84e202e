//! Independent double-precision vector algebra for the oracles (no code shared with the crate under test).
use std::ops::{Add, Mul, Neg, Sub};

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct V3 { pub x: f64, pub y: f64, pub z: f64 }
pub const fn v(x: f64, y: f64, z: f64) -> V3 { V3 { x, y, z } }
pub const O: V3 = v(0.0, 0.0, 0.0);
impl Add for V3 { type Output = V3; fn add(self, o: V3) -> V3 { v(self.x + o.x, self.y + o.y, self.z + o.z) } }
impl Sub for V3 { type Output = V3; fn sub(self, o: V3) -> V3 { v(self.x - o.x, self.y - o.y, self.z - o.z) } }
impl Neg for V3 { type Output = V3; fn neg(self) -> V3 { v(-self.x, -self.y, -self.z) } }
impl Mul<f64> for V3 { type Output = V3; fn mul(self, k: f64) -> V3 { v(self.x * k, self.y * k, self.z * k) } }
impl V3 {
	pub fn dot(self, o: V3) -> f64 { self.x * o.x + self.y * o.y + self.z * o.z }
	pub fn cross(self, o: V3) -> V3 { v(self.y * o.z - self.z * o.y, self.z * o.x - self.x * o.z, self.x * o.y - self.y * o.x) }
	pub fn len(self) -> f64 { self.dot(self).sqrt() }
	pub fn unit(self) -> V3 { self * (1.0 / self.len()) }
	pub fn lerp(self, o: V3, t: f64) -> V3 { self * (1.0 - t) + o * t }
	pub fn finite(self) -> bool { self.x.is_finite() && self.y.is_finite() && self.z.is_finite() }
	pub fn arr(self) -> [f64; 3] { [self.x, self.y, self.z] }
	/// Rounded to the precision the engine stores.
	pub fn r32(self) -> V3 { v(self.x as f32 as f64, self.y as f32 as f64, self.z as f32 as f64) }
	/// Some unit vector perpendicular to this one.
	pub fn any_perp(self) -> V3 {
		let a = if self.x.abs() <= self.y.abs() && self.x.abs() <= self.z.abs() { v(1.0, 0.0, 0.0) } else if self.y.abs() <= self.z.abs() { v(0.0, 1.0, 0.0) } else { v(0.0, 0.0, 1.0) };
		self.cross(a).unit()
	}
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct M3(pub [[f64; 3]; 3]);
impl M3 {
	pub const ZERO: M3 = M3([[0.0; 3]; 3]);
	pub fn id() -> M3 { M3::diag(1.0, 1.0, 1.0) }
	pub fn diag(a: f64, b: f64, c: f64) -> M3 { M3([[a, 0.0, 0.0], [0.0, b, 0.0], [0.0, 0.0, c]]) }
	pub fn rows(a: V3, b: V3, c: V3) -> M3 { M3([a.arr(), b.arr(), c.arr()]) }
	pub fn t(&self) -> M3 { let m = &self.0; M3([[m[0][0], m[1][0], m[2][0]], [m[0][1], m[1][1], m[2][1]], [m[0][2], m[1][2], m[2][2]]]) }
	pub fn mv(&self, a: V3) -> V3 { let m = &self.0; v(m[0][0] * a.x + m[0][1] * a.y + m[0][2] * a.z, m[1][0] * a.x + m[1][1] * a.y + m[1][2] * a.z, m[2][0] * a.x + m[2][1] * a.y + m[2][2] * a.z) }
	pub fn mm(&self, o: &M3) -> M3 { let mut r = M3::ZERO; for i in 0..3 { for j in 0..3 { for k in 0..3 { r.0[i][j] += self.0[i][k] * o.0[k][j]; } } } r }
	pub fn add(&self, o: &M3) -> M3 { let mut r = *self; for i in 0..3 { for j in 0..3 { r.0[i][j] += o.0[i][j]; } } r }
	pub fn scale(&self, k: f64) -> M3 { let mut r = *self; for i in 0..3 { for j in 0..3 { r.0[i][j] *= k; } } r }
	pub fn outer(a: V3, b: V3) -> M3 { let (a, b) = (a.arr(), b.arr()); let mut r = M3::ZERO; for i in 0..3 { for j in 0..3 { r.0[i][j] = a[i] * b[j]; } } r }
	pub fn det(&self) -> f64 { let m = &self.0; m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]) }
	/// Inverse; the zero matrix if there is none (a body that cannot be turned).
	pub fn inv0(&self) -> M3 {
		let d = self.det();
		if !(d.abs() > 1e-18) { return M3::ZERO; }
		let m = &self.0;
		let c = |a: usize, b: usize, e: usize, f: usize| m[a][b] * m[e][f];
		M3([
			[c(1, 1, 2, 2) - c(1, 2, 2, 1), c(0, 2, 2, 1) - c(0, 1, 2, 2), c(0, 1, 1, 2) - c(0, 2, 1, 1)],
			[c(1, 2, 2, 0) - c(1, 0, 2, 2), c(0, 0, 2, 2) - c(0, 2, 2, 0), c(0, 2, 1, 0) - c(0, 0, 1, 2)],
			[c(1, 0, 2, 1) - c(1, 1, 2, 0), c(0, 1, 2, 0) - c(0, 0, 2, 1), c(0, 0, 1, 1) - c(0, 1, 1, 0)],
		]).scale(1.0 / d)
	}
	/// Eigenvalues and (orthonormal) eigenvectors of a symmetric matrix, by Jacobi rotations.
	pub fn eigen(&self) -> [(f64, V3); 3] {
		let mut a = *self;
		let mut q = M3::id();
		for _ in 0..30 { for (i, j) in [(0, 1), (0, 2), (1, 2)] {
			if a.0[i][j].abs() < 1e-300 { continue; }
			let th = 0.5 * (2.0 * a.0[i][j]).atan2(a.0[j][j] - a.0[i][i]);
			let mut g = M3::id();
			g.0[i][i] = th.cos(); g.0[j][j] = th.cos(); g.0[i][j] = th.sin(); g.0[j][i] = -th.sin();
			a = g.t().mm(&a).mm(&g);
			q = q.mm(&g);
		} }
		let col = |k: usize| v(q.0[0][k], q.0[1][k], q.0[2][k]);
		[(a.0[0][0], col(0)), (a.0[1][1], col(1)), (a.0[2][2], col(2))]
	}
	/// Is there (give or take single precision) an axis around which this inertia tensor offers no resistance?
	pub fn thin(&self) -> bool { let e = self.eigen(); let m = e.iter().map(|x| x.0.abs()).fold(0.0, f64::max); e.iter().any(|x| x.0 < 1e-5 * m) }
	/// Inverse of an inertia tensor on the axes around which there is any.
	pub fn inv_inertia(&self) -> M3 {
		if !self.thin() { return self.inv0(); }
		let e = self.eigen();
		let m = e.iter().map(|x| x.0.abs()).fold(0.0, f64::max);
		let mut r = M3::ZERO;
		for (l, d) in e { if l > 1e-5 * m && l > 0.0 { r = r.add(&M3::outer(d, d).scale(1.0 / l)); } }
		r
	}
	pub fn max_diff(&self, o: &M3) -> f64 { let mut d: f64 = 0.0; for i in 0..3 { for j in 0..3 { let x = (self.0[i][j] - o.0[i][j]).abs(); if x > d || x.is_nan() { d = if x.is_nan() { f64::INFINITY } else { x }; } } } d }
	pub fn max_abs(&self) -> f64 { self.max_diff(&M3::ZERO) }
	/// Rotation matrix of a scaled axis (Rodrigues).
	pub fn rot(a: V3) -> M3 {
		let th = a.len();
		if th < 1e-300 { return M3::id(); }
		let k = a * (1.0 / th);
		let kx = M3([[0.0, -k.z, k.y], [k.z, 0.0, -k.x], [-k.y, k.x, 0.0]]);
		M3::id().add(&kx.scale(th.sin())).add(&kx.mm(&kx).scale(1.0 - th.cos()))
	}
	/// Angle of a rotation matrix.
	pub fn angle(&self) -> f64 {
		// atan2 form: accurate near 0 and near pi.
		let m = &self.0;
		let s = v(m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1]).len();
		let c = m[0][0] + m[1][1] + m[2][2] - 1.0;
		s.atan2(c)
	}
	/// Rotation matrix of a quaternion (w, i, j, k), normalised here.
	pub fn quat(w: f64, i: f64, j: f64, k: f64) -> M3 {
		let n = (w * w + i * i + j * j + k * k).sqrt();
		let (w, x, y, z) = (w / n, i / n, j / n, k / n);
		M3([
			[1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - w * z), 2.0 * (x * z + w * y)],
			[2.0 * (x * y + w * z), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - w * x)],
			[2.0 * (x * z - w * y), 2.0 * (y * z + w * x), 1.0 - 2.0 * (x * x + y * y)],
		])
	}
}

/// The 6 axis directions.
pub const AXES: [V3; 6] = [v(1.0, 0.0, 0.0), v(-1.0, 0.0, 0.0), v(0.0, 1.0, 0.0), v(0.0, -1.0, 0.0), v(0.0, 0.0, 1.0), v(0.0, 0.0, -1.0)];
/// All 26 directions of the 3x3x3 grid, normalised, axes first.
pub fn dirs26() -> Vec<V3> {
	let mut r = vec![];
	for n in 1..=3 {
		for x in [1i32, 0, -1] { for y in [1i32, 0, -1] { for z in [1i32, 0, -1] {
			if x.abs() + y.abs() + z.abs() == n { r.push(v(x as f64, y as f64, z as f64).unit()); }
		} } }
	}
	r
}
/// A direction in no special position.
pub fn skew_dir() -> V3 { v(0.48, -0.6, 0.64).unit() }
/// The 48 signed axis permutations as matrices.
pub fn signed_perms() -> Vec<M3> {
	let mut r = vec![];
	for p in [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]] {
		for s in 0..8u32 {
			let mut m = M3::ZERO;
			for i in 0..3 { m.0[i][p[i]] = if s >> i & 1 == 1 { -1.0 } else { 1.0 }; }
			r.push(m);
		}
	}
	r
}
