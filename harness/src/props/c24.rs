//! C24 - Orientation, exercised directly through the public API.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::world::*;
use fluffy_tribble::types::Vec3;
use fluffy_tribble::Orientation;

pub const PROP: Prop = Prop {
	id: "C24", body,
	rule: "every combination of position x rotation (axis direction x angle) x origin offset x probe point/direction x one of {transform laws, affect/after_affected with movement, lerp with a second orientation and a parameter, inertia transport, up to 1000 movements in a row}; an execution is non-trivial when the rotation or the offset is not zero",
	assumptions: &["tolerance 2e-5 relative to the scale of the numbers involved (f32)", "lerp between rotations more than 3.1 rad apart is a don't-care (two shortest arcs)"],
};

fn angles(th: bool) -> &'static [f64] { if th { &[0.0, 0.001, 0.02, 0.3, 1.0, 1.57079632679, 2.2, 3.0, 3.14159, -2.9, 4.0, 6.0, 6.3, 11.0] } else { &[0.0, 0.01, 0.3, 1.57079632679, 2.2, 3.0, 3.1415, -2.9, 4.0, 6.0, 8.0] } }

fn mat(o: &Orientation) -> M3 { M3::quat(o.rotation.w as f64, o.rotation.i as f64, o.rotation.j as f64, o.rotation.k as f64) }

fn body(ctx: &mut Ctx) -> R {
	let axes = [v(0.0, 0.0, 1.0), v(1.0, 0.0, 0.0), v(0.0, 1.0, 0.0), v(1.0, 1.0, 1.0).unit(), skew_dir()];
	let axis = *ctx.of(&axes);
	let ang = *ctx.of(angles(ctx.thorough));
	let pos = *ctx.of(&[O, v(3.0, -1.0, 2.0), v(-40.0, 0.5, 7.0)]);
	let off = *ctx.of(&[O, v(0.5, 0.0, -2.0), v(-1.0, 3.0, 0.25)]);
	ctx.shard()?;
	let rv = (axis * ang).r32();
	let o = Orientation::new(&f3(pos), &f3(rv), &f3(off));
	let r = M3::rot(rv);
	ctx.log(|| format!("Orientation::new(pos={:?}, rot={:?}, off={:?})", pos.arr(), rv.arr(), off.arr()));
	if ang != 0.0 || off != O { ctx.interesting(); }
	let scale = 1.0 + pos.len() + off.len();
	let tol = 2e-5 * scale;
	let q = mat(&o);
	ensure!(q.max_diff(&r) < 1e-5, "constructor: rotation differs from the scaled axis by {}", q.max_diff(&r));
	let probes = [O, v(1.0, 0.0, 0.0), v(0.0, -2.0, 0.5), v(10.0, 3.0, -7.0)];
	match ctx.pick(5) {
		0 => {
			// Transform laws for a pair of points.
			let (i, j) = (ctx.pick(4), ctx.pick(4));
			let (a, b) = (probes[i], probes[j]);
			let st = tol + 3e-5 * (a.len() + b.len());
			let model = |p: V3| pos + r.mv(off + p);
			let (wa, wb) = (d3(&o.position_into_world(&f3(a))), d3(&o.position_into_world(&f3(b))));
			ctx.step();
			ctx.dev("into world", (wa - model(a)).len());
			ensure!(near(wa, model(a), st), "local {:?} maps to {:?} but position + rotation(point + offset) is {:?}", a.arr(), wa.arr(), model(a).arr());
			let back = d3(&o.position_into_local(&f3(wa)));
			ensure!(near(back, a, st), "world-to-local of local-to-world of {:?} is {:?}", a.arr(), back.arr());
			let there = d3(&o.position_into_world(&o.position_into_local(&f3(a))));
			ensure!(near(there, a, st), "local-to-world of world-to-local of {:?} is {:?}", a.arr(), there.arr());
			let (da, db) = (d3(&o.direction_into_world(&f3(a))), d3(&o.direction_into_world(&f3(b))));
			ensure!(near(da, r.mv(a), st), "direction {:?} maps to {:?}, rotation gives {:?}", a.arr(), da.arr(), r.mv(a).arr());
			let dl = d3(&o.direction_into_local(&f3(da)));
			ensure!(near(dl, a, st), "direction round trip of {:?} is {:?}", a.arr(), dl.arr());
			let dl = d3(&o.direction_into_local(&f3(a)));
			ensure!(near(dl, r.t().mv(a), st), "direction into local of {:?} is {:?}", a.arr(), dl.arr());
			let st2 = st * (1.0 + a.len() + b.len());
			ensure!(((wa - wb).len() - (a - b).len()).abs() < st, "distance {} became {}", (a - b).len(), (wa - wb).len());
			ensure!((da.dot(db) - a.dot(b)).abs() < st2 * 4.0, "angle not preserved");
			ensure!(near(da.cross(db), r.mv(a.cross(b)), st2 * 4.0), "handedness not preserved");
			let lo = d3(&o.local_origin_in_world());
			ensure!(near(lo, model(O), st), "local_origin_in_world is {:?}, expected {:?}", lo.arr(), model(O).arr());
			// The isometries say the same thing.
			let iso = o.into_world();
			let p = iso.transform_point(&fluffy_tribble::types::Vec3::new(a.x as f32, a.y as f32, a.z as f32).into()).coords;
			ensure!(near(d3(&p), model(a), st), "into_world isometry maps {:?} to {:?}", a.arr(), p);
			let iso = o.into_local();
			let p = iso.transform_point(&f3(wa).into()).coords;
			ensure!(near(d3(&p), a, st), "into_local isometry maps {:?} to {:?}", wa.arr(), p);
			let rvec = d3(&o.rotation_vec());
			ensure!(M3::rot(rvec).max_diff(&r) < 1e-5, "rotation_vec {:?} is another rotation than {:?}", rvec.arr(), rv.arr());
			ensure!(rvec.len() < 3.1417, "rotation_vec longer than pi: {:?}", rvec.arr());
			ctx.state(Fp::new().f(wa.x).f(wa.y).f(wa.z).f(dl.x).f(dl.y).get());
			ctx.outcome("transform laws");
		}
		1 => {
			let lin = *ctx.of(&[O, v(1.0, -2.0, 0.5), v(0.0, 0.0, 30.0)]);
			let axis2 = *ctx.of(&axes);
			let ang2 = *ctx.of(&[0.0, 0.001, 0.02, -0.1, 0.25, 1.0, 3.0, -4.5, 9.0]);
			let w = (axis2 * ang2).r32();
			let copy = o.after_affected(&f3(lin), &f3(w));
			let same = |a: &Orientation, b: &Orientation| a.position == b.position && a.rotation == b.rotation && a.internal_origin_offset == b.internal_origin_offset;
			let fresh = Orientation::new(&f3(pos), &f3(rv), &f3(off));
			ensure!(same(&o, &fresh), "after_affected changed the original");
			let mut inplace = o.clone();
			inplace.affect_with(&f3(lin), &f3(w));
			ctx.step();
			let want = M3::rot(w).mm(&r);
			for (name, x) in [("after_affected", &copy), ("affect_with", &inplace)] {
				ensure!(near(d3(&x.position), pos + lin, tol + 1e-5 * lin.len()), "{}: position {:?}", name, x.position);
				ensure!(mat(x).max_diff(&want) < 5e-6, "{}: rotation differs from world-space composition by {}", name, mat(x).max_diff(&want));
				ensure!(d3(&x.internal_origin_offset) == off.r32(), "{}: offset changed", name);
			}
			ctx.state(Fp::new().f(want.0[0][0]).f(want.0[1][2]).f(want.0[2][0]).f(lin.x).f(pos.x).f(off.x).get());
			ctx.outcome("movement");
		}
		4 => {
			// A long life: many movements in a row.
			let (w, n) = *ctx.of(&[(v(0.3, -0.2, 0.1), 50), (v(0.0, 0.0, 1.0), 200), (v(0.001, 0.002, -0.0005), 1000), (v(-2.0, 1.5, 2.5), 500)]);
			let lin = *ctx.of(&[O, v(0.01, -0.02, 0.005)]);
			let mut x = o.clone();
			let w = w.r32();
			let turn = M3::rot(w);
			let mut want = r;
			for _ in 0..n { x.affect_with(&f3(lin), &f3(w)); want = turn.mm(&want); ctx.step(); }
			let q = [x.rotation.w, x.rotation.i, x.rotation.j, x.rotation.k];
			let norm = q.iter().map(|c| (*c as f64) * (*c as f64)).sum::<f64>().sqrt();
			ctx.dev("norm after many movements", (norm - 1.0).abs());
			ensure!((norm - 1.0).abs() < 2e-7 * n as f64, "after {} movements the rotation has norm {}", n, norm);
			ctx.dev("rotation after many movements, per movement", mat(&x).max_diff(&want) / n as f64);
			ensure!(mat(&x).max_diff(&want) < 1e-5 + 5e-7 * n as f64, "after {} movements the rotation is off by {}", n, mat(&x).max_diff(&want));
			ensure!(near(d3(&x.position), pos + lin.r32() * n as f64, tol + 1e-5 * n as f64 * scale), "after {} movements the position is {:?}", n, x.position);
			ensure!(d3(&x.internal_origin_offset) == off.r32(), "movements changed the offset");
			ctx.outcome("many movements");
		}
		2 => {
			let axis2 = *ctx.of(&axes);
			let ang2 = *ctx.of(angles(ctx.thorough));
			let t = *ctx.of(&[0.0, 1.0, 0.5, 0.25, 0.9]);
			let pos2 = *ctx.of(&[O, v(-5.0, 2.0, 9.0)]);
			let rv2 = (axis2 * ang2).r32();
			let e = Orientation::new(&f3(pos2), &f3(rv2), &f3(off));
			let r2 = M3::rot(rv2);
			let rel = r2.mm(&r.t());
			let total = rel.angle();
			if total > 3.1 { return Err(Stop::Skip); }
			let x = Orientation::lerp(t as f32, &o, &e);
			ctx.step();
			let m = mat(&x);
			ensure!(near(d3(&x.position), pos.lerp(pos2, t), tol + 1e-4), "lerp({}): position {:?} is not on the segment", t, x.position);
			ensure!(d3(&x.internal_origin_offset) == off.r32(), "lerp changed the offset");
			if t == 0.0 { ensure!(m.max_diff(&r) < 1e-5, "lerp(0) is not the first rotation ({})", m.max_diff(&r)); }
			if t == 1.0 { ensure!(m.max_diff(&r2) < 1e-5, "lerp(1) is not the second rotation ({})", m.max_diff(&r2)); }
			let from = m.mm(&r.t()).angle();
			let to = r2.mm(&m.t()).angle();
			ctx.dev("lerp angle", (from - t * total).abs().max((to - (1.0 - t) * total).abs()));
			ensure!((from - t * total).abs() < 2e-5 && (to - (1.0 - t) * total).abs() < 2e-5, "lerp({}) of a turn by {} is {} from the start and {} from the end", t, total, from, to);
			ctx.state(Fp::new().f(m.0[0][0]).f(m.0[1][2]).f(m.0[2][0]).f(t).get());
			ctx.outcome("interpolation");
		}
		_ => {
			let com = *ctx.of(&[O, v(1.0, 0.0, 0.0), v(-0.5, 2.0, 1.0)]);
			let mass = *ctx.of(&[0.0, 1.0, 7.5]);
			let ten = *ctx.of(&[M3::ZERO, M3::diag(1.0, 2.0, 3.0), M3([[2.0, 0.1, -0.3], [0.1, 3.0, 0.2], [-0.3, 0.2, 4.0]])]);
			let p = o.prep_moment_of_inertia(&f3(com), mass as f32, &fm(&ten));
			let w = dm(&o.finalize_moment_of_inertia(&p));
			ctx.step();
			let d = off + com;
			let want_local = ten.add(&M3::id().scale(mass * d.dot(d))).add(&M3::outer(d, d).scale(-mass));
			let want = r.mm(&want_local).mm(&r.t());
			let st = 1e-4 * (1.0 + want.max_abs());
			ensure!(dm(&p).max_diff(&want_local) < st, "parallel-axis tensor off by {}", dm(&p).max_diff(&want_local));
			ensure!(w.max_diff(&want) < st, "rotated tensor off by {}", w.max_diff(&want));
			ctx.state(Fp::new().f(want.0[0][0]).f(want.0[1][2]).f(want.0[2][0]).f(want.0[1][1]).get());
			ctx.outcome("inertia");
		}
	}
	let _ = Vec3::zeros();
	Ok(())
}
