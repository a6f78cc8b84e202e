//! C11 - mesh against infinite plane.
use super::c09::{big_meshes, meshes};
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C11", body,
	rule: "every scene mesh/plane over: mesh (incl. single flat faces, a twelve-sided prism and an icosahedron) x size (0.1, 1, 12) x orientation relative to the plane (flat on a face, on an edge, on a corner, skew) x plane normal/offset (on a turned entity too) x where the mesh sits on its entity x start height (clear, touching, embedded, fully below, 25 below) x where along the plane x normal and tangential speed x step length x turning x who moves x insertion order; non-trivial when the mesh is or gets at or below the plane or within its own extent of it",
	assumptions: &["vertices between 0.5% and 2% of the extent above the lowest may or may not count", "while the mesh turns, its corners go straight (documented linearisation); corners that neither approach nor leave the plane as they touch it and touches in the last 0.2% of the step are don't-cares"],
};

fn body(ctx: &mut Ctx) -> R {
	let mut ms = meshes();
	ms.extend(big_meshes());
	let k = ctx.pick(ms.len());
	let size = *ctx.of(&[1.0, 0.1, 12.0]);
	let f: Vec<Vec<V3>> = ms[k].iter().map(|f| f.iter().map(|p| *p * size).collect()).collect();
	let rots = [O, v(0.0, 0.0, std::f64::consts::FRAC_PI_4), v(0.9553166, 0.0, 0.7853982), v(0.7, -0.4, 1.2), v(std::f64::consts::FRAC_PI_2, 0.0, 0.0)];
	let rot = *ctx.of(&rots);
	let mut ns = vec![v(0.0, 1.0, 0.0), v(0.0, 0.0, -1.0), skew_dir(), v(-1.0, 0.0, 0.0)];
	if ctx.thorough { ns = dirs26(); ns.push(skew_dir()); }
	let n = *ctx.of(&ns);
	ctx.shard()?;
	let cpos = *ctx.of(&[O, v(0.7, -0.4, 1.1), v(-14.0, 9.0, 20.0)]);
	let (ppos, epos, prot) = *ctx.of(&[(O, O, O), (v(0.5, -1.0, 0.0), v(-9.0, 7.0, 3.0), O), (v(1.5, -2.0, 2.5), v(4.0, 0.5, 1.0), v(0.7, -0.4, 1.2))]);
	let (vn, dt) = *ctx.of(if ctx.thorough { &[(-1.0, 1.0), (-1.0, 0.1), (-0.05, 0.1), (-30.0, 0.1), (0.5, 0.1), (-2.0, 0.01)][..] } else { &[(-1.0, 1.0), (-0.05, 0.1), (-30.0, 0.1), (0.5, 0.1)][..] });
	let vt = *ctx.of(&[0.0, 2.0]);
	let hk = ctx.pick(7);
	let (who, order) = match ctx.pick(if ctx.thorough { 6 } else { 3 }) { 0 => (0, [0, 1]), 1 => (1, [1, 0]), 2 => (2, [0, 1]), 3 => (0, [1, 0]), 4 => (1, [0, 1]), _ => (2, [1, 0]) };
	// How much the mesh turns during the step.
	let spin = *ctx.of(&[O, v(0.04, 0.1, -0.06), v(-0.3, 0.0, 0.25)]);
	let side = n.any_perp();
	// Where along the plane it happens, relative to the plane's own position.
	let along = *ctx.of(&[side * 1.5, side * -50.0, n.cross(side) * 31.0]);
	let verts: Vec<V3> = f.iter().flatten().map(|p| p.r32() + cpos.r32()).collect();
	let rm = M3::rot(rot.r32());
	let hs: Vec<f64> = verts.iter().map(|p| rm.mv(*p).dot(n)).collect();
	let (lo, hi) = (hs.iter().cloned().fold(INF, f64::min), hs.iter().cloned().fold(-INF, f64::max));
	let path = f64::abs(vn) * dt;
	let h = match hk { 0 => 0.5 * path, 1 => 1.3 * path, 2 => 0.0, 3 => -0.3 * (hi - lo) - 0.01, 4 => -(hi - lo) - 1.0, 5 => -(hi - lo) - 25.0, _ => 0.97 * path };
	let pos = M3::rot(prot).mv(ppos) + epos + n * (h - lo) + along;
	let rel = n * vn + side * vt;
	let (vm, vp) = match who { 0 => (rel, O), 1 => (O, -rel), _ => (rel * 1.5 + side, rel * 0.5 + side) };
	let es = [Ent::new().own(2.0).at(pos).rot(rot).vel(vm).w(spin * (1.0 / dt)).col(mesh(cpos, f.clone())), Ent::new().own(INF).at(epos).rot(prot).vel(vp).col(plane(ppos, n))];
	let mut w = W::build_in_order(&es, &order);
	w.no_sleep();
	w.sys.iteration_max = 1;
	log_scene(ctx, &es);
	let (b, p) = (w.body(0), w.body(1));
	let nn = n.r32().unit();
	let be = b.moved(dt);
	let (q0, q1) = (p.world(ppos.r32()), p.moved(dt).world(ppos.r32()));
	let h0s: Vec<f64> = verts.iter().map(|x| (b.world(*x) - q0).dot(nn)).collect();
	let h0 = h0s.iter().cloned().fold(INF, f64::min);
	let ext = h0s.iter().cloned().fold(-INF, f64::max) - h0;
	let h1s: Vec<f64> = verts.iter().map(|x| (be.world(*x) - q1).dot(nn)).collect();
	let h1 = h1s.iter().cloned().fold(INF, f64::min);
	// Every vertex goes straight from where it starts to where it ends (documented linearisation), and counts if it moves towards the plane where it touches it.
	let scale = 1.0 + pos.len() + 20.0;
	let eps = 3e-6 * scale;
	let mut first: Option<f64> = None;
	let mut speed = 0.0;
	let mut counts = vec![true; verts.len()];
	let mut close = vec![];
	for (i, x) in verts.iter().enumerate() {
		let (s, e) = (h0s[i], h1s[i]);
		// Could rounding decide whether (or at all when) it touches?
		let tv = if s <= eps { Some(0.0) } else if e < -eps { Some(s / (s - e)) } else if e > eps { None } else { close.push(0.999); None };
		if s.abs() <= eps && (e - s).abs() <= 2.0 * eps { return Err(Stop::Skip); }
		let rising = s.abs() <= eps && e > s;
		if let Some(t) = tv {
			let at = b.world(*x).lerp(be.world(*x), t);
			let real = (b.vel + b.w.cross(at - (b.com + b.vel * (t * dt))) - p.vel).dot(nn);
			if real.abs() < 1e-4 || (spin != O && real.abs() < 1e-3 * spin.len() / dt * size) { close.push(t); counts[i] = false; continue; }
			if real > 0.0 { counts[i] = false; continue; }
			// Touches at the start, and whether it leaves depends on whether it's seen as going straight.
			if rising { close.push(t); continue; }
			if first.map_or(true, |f| t < f) { first = Some(t); speed = (e - s).abs(); }
		}
	}
	if close.iter().any(|c| first.map_or(true, |f| *c <= f + 1e-3)) { ctx.outcome("on the verge (not claimed)"); return Err(Stop::Skip); }
	let t = first;
	if let Some(t) = t { if t > 0.998 { return Err(Stop::Skip); } }
	if h0 < ext + 1.0 || h1 < ext + 1.0 { ctx.interesting(); }
	w.tick(ctx, dt);
	let recs = w.recs();
	match t {
		None => { ensure!(recs.is_empty(), "collision invented, lowest vertex at height {} -> {}: {}", h0, h1, recs[0].show()); ctx.outcome("clear"); }
		Some(t) => {
			ensure!(!recs.is_empty(), "collision missed: lowest vertex at height {} -> {}", h0, h1);
			let r = &recs[0];
			let tr = r.t / dt;
			// As a distance: how far the vertex that touches is from the plane by then.
			let at = |i: usize, t: f64| h0s[i] + (h1s[i] - h0s[i]) * t;
			let low = |t: f64| (0..verts.len()).filter(|i| counts[*i]).map(|i| at(i, t)).fold(INF, f64::min);
			let terr = (tr - t).abs() * speed;
			ctx.dev("time (as distance)", terr);
			ensure!(terr < 10.0 * eps + 1e-3 * path, "recorded at {} of the step, contact at {}", tr, t);
			ensure!((r.a, r.b) == (0, 1) || (r.a, r.b) == (1, 0), "record names entities {} and {}", r.a, r.b);
			let want = if r.a == 0 { -nn } else { nn };
			ensure!(near(r.n, want, 1e-3), "recorded normal {:?}, expected {:?}", r.n.arr(), want.arr());
			// The lowest vertices (each distinct one once).
			let (mut lowest, mut from): (Vec<V3>, Vec<V3>) = (vec![], vec![]);
			let mut vague = false;
			let floor = low(t);
			let reach = (0..verts.len()).filter(|i| counts[*i]).map(|i| at(i, t)).fold(-INF, f64::max) - floor;
			for (i, x) in verts.iter().enumerate() {
				if !counts[i] { continue; }
				let above = at(i, t) - floor;
				let rel = above / reach.max(1e-4);
				if (rel > 0.005 && rel < 0.02) || (above > 2e-5 && above < 5e-4) { vague = true; }
				let (x, to) = (b.world(*x), be.world(*x));
				let at = x.lerp(to, t);
				let real = (b.vel + b.w.cross(at - (b.com + b.vel * (t * dt))) - p.vel).dot(nn);
				if rel <= 0.02 && real.abs() < 1e-3 + 1e-3 * b.w.len() * size { vague = true; }
				if real > 0.0 { continue; }
				if rel <= 0.005 && !from.iter().any(|y| (*y - x).len() < 1e-4) { from.push(x); lowest.push(x.lerp(to, tr)); }
			}
			let low = lowest;
			if !vague {
				let avg = low.iter().fold(O, |a, c| a + *c) * (1.0 / low.len() as f64);
				ctx.dev("point", (r.pos - avg).len());
				ensure!(near(r.pos, avg, 2e-3 + 1e-3 * (b.vel.len() * dt)), "recorded point {:?}, average of the {} lowest vertices {:?}", r.pos.arr(), low.len(), avg.arr());
				ctx.outcome(match low.len() { 1 => "on a corner", 2 => "on an edge", _ => "on a face" });
			}
			ctx.outcome(match (t == 0.0, spin == O) { (true, true) => "embedded or touching", (false, true) => "touch", (true, false) => "embedded or touching, while turning", _ => "touch, while turning" });
		}
	}
	Ok(())
}
