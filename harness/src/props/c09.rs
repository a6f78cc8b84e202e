//! C09 - sphere against mesh (starting clear).  C10 shares the machinery with boxes.
use super::Prop;
use crate::engine::*;
use crate::geom::*;
use crate::m::*;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C09", body,
	rule: "every scene sphere/mesh over: mesh (triangle, quad, tetrahedron, wedge, cube, two-level strip, 40-long plank, mixed convex pentagon, twelve-sided prism, icosahedron) x mesh size (0.1, 1, 40) x mesh pose/offset (up to far from the origin) x target feature (face interiors, edge points, corners) x approach direction x radius (from 1 for big ones) x gap x lateral error x speed/step x who moves (or whether the sphere sits on a swinging arm) x insertion order; plus meshes that turn by 0.02 to 0.4 within the step x axis x offset x radius x when they meet x drift; the oracle finds the exact first touch; non-trivial when it touches or passes within two radii",
	assumptions: &["the sphere starts clear of the mesh; passes within 0.6% of the radius of grazing and touches in the last 0.2% of the step are don't-cares", "what a turning mesh is hit by is claimed up to twice the distance its turning amounts to, where that is less than half the radius"],
};

pub fn meshes() -> Vec<Vec<Vec<V3>>> {
	let plank = box_faces(v(-20.0, -0.2, -0.5), v(20.0, 0.3, 0.5));
	let strip = vec![
		vec![v(-1.0, 0.0, -1.0), v(-1.0, 0.0, 1.0), v(0.5, 0.0, 1.0), v(0.5, 0.0, -1.0)],
		vec![v(0.5, 0.0, -1.0), v(0.5, 0.0, 1.0), v(0.5, 0.8, 1.0), v(0.5, 0.8, -1.0)],
		vec![v(0.5, 0.8, -1.0), v(0.5, 0.8, 1.0), v(2.0, 0.8, 1.0), v(2.0, 0.8, -1.0)],
	];
	let penta: Vec<V3> = vec![v(0.0, 0.0, 0.0), v(2.0, -0.3, 0.0), v(3.0, 1.0, 0.0), v(1.5, 2.2, 0.0), v(-0.5, 1.2, 0.0)].into_iter().map(|p| M3::rot(v(0.4, 0.9, -0.2)).mv(p).r32()).collect();
	vec![
		vec![vec![v(-1.0, 0.0, -1.0), v(1.0, 0.0, -0.8), v(0.2, 0.0, 1.3)]],
		box_faces(v(-0.5, -0.5, -0.5), v(0.5, 0.5, 0.5)),
		tetra(1.5),
		wedge(),
		strip,
		plank,
		vec![vec![v(1.0, 1.0, 0.0), v(-1.0, 1.0, 0.0), v(-1.0, -1.0, 0.0), v(1.0, -1.0, 0.0)]],
		vec![penta],
	]
}

/// Interesting target points: per face the centroid and an off-centre point, per edge two points, all corners (deduplicated).
pub fn targets(faces: &[Vec<V3>]) -> Vec<V3> {
	let mut r: Vec<V3> = vec![];
	let mut push = |p: V3| if !r.iter().any(|q| (*q - p).len() < 1e-6) { r.push(p) };
	for f in faces {
		let c = f.iter().fold(O, |a, b| a + *b) * (1.0 / f.len() as f64);
		push(c);
		push(c.lerp(f[0], 0.6));
		for i in 0..f.len() { let (a, b) = (f[i], f[(i + 1) % f.len()]); push(a); push(a.lerp(b, 0.5)); push(a.lerp(b, 0.12)); }
	}
	r
}

/// Meshes of many faces, corners and edges: a prism of twelve sides, and a solid of twenty triangles.
pub fn big_meshes() -> Vec<Vec<Vec<V3>>> { vec![prism(12, 1.0, -0.4, 0.6), icosahedron()] }
pub fn prism(n: usize, r: f64, lo: f64, hi: f64) -> Vec<Vec<V3>> {
	let at = |i: usize, z: f64| { let t = std::f64::consts::TAU * (i % n) as f64 / n as f64; v(r * t.cos(), r * t.sin(), z).r32() };
	let mut f: Vec<Vec<V3>> = (0..n).map(|i| vec![at(i, lo), at(i + 1, lo), at(i + 1, hi), at(i, hi)]).collect();
	f.push((0..n).rev().map(|i| at(i, lo)).collect());
	f.push((0..n).map(|i| at(i, hi)).collect());
	f
}
pub fn icosahedron() -> Vec<Vec<V3>> {
	let g = 0.5 * (1.0 + 5f64.sqrt());
	let turn = M3::rot(v(0.3, 0.2, -0.7));
	let mut p = vec![];
	for a in [-1.0, 1.0] { for b in [-g, g] { p.extend([v(0.0, a, b), v(a, b, 0.0), v(b, 0.0, a)]); } }
	let mut f = vec![];
	for i in 0..12 { for j in i + 1..12 { for k in j + 1..12 {
		let (a, b, c): (V3, V3, V3) = (p[i], p[j], p[k]);
		if [(a - b).len(), (b - c).len(), (a - c).len()].iter().any(|x| (*x - 2.0).abs() > 0.1) { continue; }
		let out = (b - a).cross(c - a).dot(a) > 0.0;
		f.push(if out { vec![a, b, c] } else { vec![a, c, b] }.into_iter().map(|x| turn.mv(x * 0.6).r32()).collect());
	} } }
	f
}

pub struct Poly { pub shape: Shape, pub targets: Vec<V3> }

/// `spin` is how much the obstacle turns during the step: the sphere's centre then goes straight as seen from it.
pub fn sweep(ctx: &mut Ctx, poly: &Poly, pose: (V3, V3, f64), spin: V3, target: V3, r: f64, th: bool) -> R {
	let mut dirs = AXES.to_vec();
	dirs.extend_from_slice(&[skew_dir(), -skew_dir(), v(1.0, 1.0, 0.0).unit(), v(-1.0, 0.3, 1.0).unit(), v(-0.2, -1.0, 0.1).unit()]);
	if th { dirs = dirs26(); dirs.push(skew_dir()); dirs.push(-skew_dir()); }
	let u = *ctx.of(&dirs);
	let (speed, dt) = *ctx.of(if th { &[(1.0, 1.0), (10.0, 0.1), (0.1, 0.1), (60.0, 0.05), (2.0, 0.01)][..] } else { &[(2.0, 1.0), (0.3, 0.1), (60.0, 0.05)][..] });
	let path: f64 = speed * dt;
	let gap = match ctx.pick(3) { 0 => 0.5 * path, 1 => 0.02 * path, _ => 1.2 * path };
	let lat = *ctx.of(&[0.0, 0.85, -0.4]);
	let (who, order) = match ctx.pick(if lat != 0.0 { 3 } else if th { 7 } else { 4 }) { 3 => (3, if u.dot(v(1.0, 1.1, 1.2)) > 0.0 { [0, 1] } else { [1, 0] }), 6 => (0, [1, 0]), 0 => (0, [0, 1]), 1 => (1, [1, 0]), 2 => (2, [0, 1]), 4 => (1, [0, 1]), _ => (2, [1, 0]) };
	let side = u.any_perp();
	let m = Body { com: pose.0.r32(), rot: M3::rot(pose.1.r32()), vel: O, w: O, mass: 50.0, own: 50.0, inertia: M3::ZERO, off: O, asleep: false };
	let w32 = (spin * (1.0 / dt)).r32();
	// The path of the sphere's centre as seen from the obstacle, and what that is in the world.
	let from = target + u * (r + gap);
	let to = from + ((target + side * (lat * r)) - from).unit() * path;
	let start = m.world(from);
	let turned = M3::rot(w32 * r32(dt)).mm(&m.rot);
	let rel = (m.com + turned.mv(to) - start) * (1.0 / dt);
	let drift = m.rot.mv(side);
	let (vs, vm) = match who { 0 | 3 => (rel, O), 1 => (O, -rel), _ => (rel * 1.5 + drift, rel * 0.5 + drift) };
	// The sphere may sit on an arm that swings: it goes straight all the same between where it starts and where it gets to.
	let (arm, swing) = if who == 3 { (v(0.5, -0.3, 0.4) * (0.5 + r), v(0.3, 0.2, -0.1)) } else { (O, O) };
	let sw32 = (swing * (1.0 / dt)).r32();
	let start_com = start - arm;
	let vs = vs - (M3::rot(sw32 * r32(dt)).mv(arm) - arm) * (1.0 / dt);
	let es = [Ent::new().own(1.0).at(start_com).vel(vs).w(sw32).col(sphere_at(arm, r)), Ent::new().own(50.0).at(pose.0).rot(pose.1).vel(vm).w(w32).col(Col { shape: poly.shape.clone(), mass: 0.0, rest: 1.0, thr: 0.25, mus: 0.0, mud: 0.0 })];
	// Oracle first (in the obstacle's frame): skip before building when it is outside the domain.
	let still = Body { com: O, rot: M3::id(), ..m.clone() };
	let polys = polys_of(&poly.shape, &still);
	let start = start_com.r32() + arm.r32();
	let s = m.rot.t().mv(start - m.com);
	let end = start_com.r32() + (vs.r32() - vm.r32()) * r32(dt) + M3::rot(sw32 * r32(dt)).mv(arm.r32());
	let rl = turned.t().mv(end - m.com) - s;
	let rr = r32(r);
	let margin = 0.006 * rr + 1e-4;
	let clear = dist_polys(s, &polys) - rr;
	let inside = if let Shape::Box { .. } = &poly.shape { penetration(s, rr, &poly.shape, &still) > rr } else { false };
	if clear < margin.min(0.01 * path).max(2e-5) || inside { return Err(Stop::Skip); }
	let (mut dmin, mut first) = (f64::INFINITY, None::<f64>);
	let mut graze = false;
	for f in &polys {
		let (d, t) = convex_first(|t| (closest_on_polygon(s + rl * t, f) - (s + rl * t)).len(), rr);
		dmin = dmin.min(d);
		if let Some(t) = t { if first.map(|x| t < x).unwrap_or(true) { first = Some(t); graze = (d - rr).abs() < margin; } }
	}
	if let Some(t) = first { if graze || t > 0.998 { return Err(Stop::Skip); } } else if dmin < rr + margin { return Err(Stop::Skip); }
	let at = |t: f64| M3::rot(w32 * (r32(dt) * t)).mm(&m.rot);
	// A touch that is nearly tangential is a graze too.
	if let Some(t) = first {
		let c = s + rl * t;
		let q = polys.iter().map(|f| closest_on_polygon(c, f)).min_by(|a, b| (*a - c).len().partial_cmp(&(*b - c).len()).unwrap()).unwrap();
		if rl.dot((q - c).unit()) < 0.03 * rl.len() { return Err(Stop::Skip); }
		if who == 3 {
			// (Where the touching point is then, seen from the middle of the sphere's entity.)
			let reach = m.com + at(t).mv(q) - (start_com + (vs - vm) * (dt * t));
			let real = vs - vm + sw32.cross(reach) - w32.cross(at(t).mv(q));
			if real.dot(at(t).mv((q - c).unit())) * dt < 0.03 * path { return Err(Stop::Skip); }
		}
		if spin != O {
			// Straight lines instead of arcs: claimed while they differ by less than what the sphere covers.
			if spin.dot(spin) * q.len() / 8.0 > 0.5 * path { return Err(Stop::Skip); }
			// How the touching points really move then must agree that they meet.
			let approach = (vs - vm - w32.cross(at(t).mv(q))) * dt;
			if approach.dot(at(t).mv((q - c).unit())) < 0.03 * path { return Err(Stop::Skip); }
		}
	}
	let mut w = W::build_in_order(&es, &order);
	w.no_sleep();
	w.sys.iteration_max = 1;
	log_scene(ctx, &es);
	if dmin < 2.0 * rr { ctx.interesting(); }
	w.tick(ctx, dt);
	let recs = w.recs();
	match first {
		None => { ensure!(recs.is_empty(), "collision invented (closest approach {} radii): {}", dmin / rr, recs[0].show()); ctx.outcome("clear"); }
		Some(t) => {
			ensure!(!recs.is_empty(), "collision missed: the sphere touches the surface at {} of the step and gets to {} radii", t, dmin / rr);
			let rc = &recs[0];
			let tr = rc.t / dt;
			// As a distance: how deep (or how far away) the sphere is at the recorded time.
			let c = s + rl * tr;
			let d = dist_polys(c, &polys);
			let tol = 2e-3 * rr + 3e-5 * (1.0 + pose.0.len() + path) + 5e-6 * rc.pos.len();
			ctx.dev("depth at recorded time (radii)", (d - rr).abs() / rr);
			ensure!((d - rr).abs() < tol, "recorded at {} of the step where the surface is {} radii away; first touch at {}", tr, d / rr, t);
			ensure!((tr - t).abs() * path < 0.05 * rr + tol, "recorded at {} of the step, first touch at {}", tr, t);
			// Point and normal, in the frame of the (moved and turned) obstacle.
			let p = at(tr).t().mv(rc.pos - vm.r32() * (dt * tr) - m.com);
			let off = dist_polys(p, &polys);
			ctx.dev("point off surface (radii)", off / rr);
			ensure!(off < tol, "recorded point is {} off the surface", off);
			let reach = (p - c).len();
			ensure!((reach - rr).abs() < 2.0 * tol, "recorded point is {} radii from the sphere's centre at that time", reach / rr);
			ensure!((rc.a, rc.b) == (0, 1) || (rc.a, rc.b) == (1, 0), "record names entities {} and {}", rc.a, rc.b);
			let want = at(tr).mv(if rc.a == 0 { (p - c).unit() } else { (c - p).unit() });
			ctx.dev("normal", (rc.n - want).len());
			ensure!((rc.n - want).len() < 0.02 && (rc.n.len() - 1.0).abs() < 1e-3, "recorded normal {:?}, line from centre to point {:?}", rc.n.arr(), want.arr());
			ctx.outcome(if spin == O { "touch" } else { "touch, while turning" });
		}
	}
	Ok(())
}

fn body(ctx: &mut Ctx) -> R { if ctx.flag() { turning(ctx) } else { straight(ctx) } }

/// A mesh that turns (and so swings around its entity's centre) within the step: right up to what its turning amounts to.
fn turning(ctx: &mut Ctx) -> R {
	let ms = meshes();
	let f = ctx.of(&[1, 0, 2, 3, 7, 4]).clone();
	let f = &ms[f];
	let target = *ctx.of(&targets(f));
	ctx.shard()?;
	let cpos = *ctx.of(&[O, v(0.7, -0.4, 1.1), v(-4.0, 2.0, 3.0)]);
	let axis = *ctx.of(&[v(0.0, 1.0, 0.0), v(-0.6, 0.3, 0.74).unit()]);
	let theta: f64 = *ctx.of(&[0.02, -0.1, 0.4]);
	let (r, gone) = *ctx.of(&[(0.5, 0.3), (2.0, 0.8), (0.1, 0.7)]);
	let speed = *ctx.of(&[0.3, 2.0]);
	let dt = *ctx.of(&[1.0, 0.05]);
	let lat = *ctx.of(&[0.0, 0.8, 1.3]);
	let drift = *ctx.of(&[O, v(1.0, -2.0, 0.5)]);
	let order = if ctx.flag() { [1, 0] } else { [0, 1] };
	let u = *ctx.of(&[v(1.0, 0.0, 0.0), v(0.0, 1.0, 0.0), v(0.0, 0.0, -1.0), skew_dir(), -skew_dir()]);
	let pose = (v(1.0, -2.0, 0.5), v(0.7, -0.4, 1.2));
	let rot0 = M3::rot(pose.1.r32());
	let turn = axis * theta;
	let rot = |t: f64| M3::rot(turn * t).mm(&rot0);
	let com = |t: f64| pose.0 + drift * t;
	// At `gone` of the step the target arrives where the sphere's surface is then.
	let aim = |t: f64| com(t) + rot(t).mv(target + cpos);
	let uw = rot(gone).mv(u);
	let side = uw.any_perp();
	let near = aim(gone) + uw * r + side * (lat * r);
	let with = drift + turn.cross(aim(gone) - com(gone));
	let vel = with - uw * speed;
	let from = near - vel * gone;
	let es = [Ent::new().own(1.0).at(from).vel(vel * (1.0 / dt)).col(sphere(r)), Ent::new().own(50.0).at(pose.0).rot(pose.1).vel(drift * (1.0 / dt)).w(turn * (1.0 / dt)).col(mesh(cpos, f.clone()))];
	let reach = f.iter().flatten().map(|p| p.len()).fold(0.0, f64::max);
	let tol = 2.0 * theta.abs() * reach + theta * theta * (cpos.len() + reach) / 4.0 + theta.abs() * (vel - drift).len() / 4.0 + 2e-3 * r + 1e-4;
	if tol > 0.5 * r { return Err(Stop::Skip); }
	// In the mesh's own frame.
	let seen = |t: f64, p: V3| rot(t).t().mv(p - com(t)) - cpos;
	let dist = |t: f64| dist_polys(seen(t, from + vel * t), f) - r;
	const N: usize = 48;
	let ds: Vec<f64> = (0..=N).map(|i| dist(i as f64 / N as f64)).collect();
	if ds[0] < tol { return Err(Stop::Skip); }
	let slack = 0.6 * (vel.len() + drift.len() + theta.abs() * (cpos.len() + reach)) / N as f64;
	let mut w = W::build_in_order(&es, &order);
	w.no_sleep();
	w.sys.iteration_max = 1;
	log_scene(ctx, &es);
	let least = ds.iter().cloned().fold(INF, f64::min);
	if least < 2.0 * r { ctx.interesting(); }
	w.tick(ctx, dt);
	let recs = w.recs();
	if recs.is_empty() {
		ctx.outcome("clear, turning mesh");
		// (Unless it slides along it, going no deeper.)
		ensure!(least > -tol, "collision missed: the sphere gets {} radii deep into a mesh that turns by {}", -least / r, theta);
		return Ok(());
	}
	let rc = &recs[0];
	let t = rc.t / dt;
	let d = dist(t);
	ctx.dev("depth at recorded time, turning (of what turning amounts to)", d.abs() / tol);
	ensure!(d.abs() < tol, "recorded at {} of the step where the surface is {} radii off the sphere's (the mesh turns by {})", t, d / r, theta);
	for (i, d) in ds.iter().enumerate() { ensure!(i as f64 / N as f64 > t || *d > -tol - slack, "recorded at {} of the step, but at {} the sphere is {} radii deep already", t, i as f64 / N as f64, -d / r); }
	let c = from + vel * t;
	let off = dist_polys(seen(t, rc.pos), f);
	ensure!(off < tol, "recorded point is {} off the surface of a mesh that turns by {}", off, theta);
	ensure!(((rc.pos - c).len() - r).abs() < tol, "recorded point is {} radii from the sphere's centre", (rc.pos - c).len() / r);
	ensure!((rc.a, rc.b) == (0, 1) || (rc.a, rc.b) == (1, 0), "record names entities {} and {}", rc.a, rc.b);
	let want = if rc.a == 0 { (rc.pos - c).unit() } else { (c - rc.pos).unit() };
	ctx.dev("normal, turning", (rc.n - want).len());
	ensure!((rc.n - want).len() < 0.02 + 1.5 * tol / r && (rc.n.len() - 1.0).abs() < 1e-3, "recorded normal {:?}, line from centre to point {:?}", rc.n.arr(), want.arr());
	ctx.outcome("touch, turning mesh");
	Ok(())
}

fn straight(ctx: &mut Ctx) -> R {
	let mut ms = meshes();
	let few = ms.len();
	ms.extend(big_meshes());
	let k = ctx.pick(ms.len());
	let size = *ctx.of(&[1.0, 0.1, 40.0][..if k < few { 3 } else { 1 }]);
	let f: &Vec<Vec<V3>> = &ms[k].iter().map(|f| f.iter().map(|p| *p * size).collect()).collect();
	let ts = targets(f);
	let target = *ctx.of(&ts);
	ctx.shard()?;
	let cpos = *ctx.of(&[O, v(0.7, -0.4, 1.1), v(-14.0, 9.0, 20.0) * size.min(1.0)]);
	let poses = [(O, O, 0.0), (v(3.0, -2.0, 5.0), v(0.7, -0.4, 1.2), 0.0), (v(-60.0, 1.0, 30.0), v(0.0, 1.57079632679, 0.0), 0.0)];
	let pose = *ctx.of(&poses[..if ctx.thorough { 3 } else { 2 }]);
	let r = *ctx.of(if size > 1.0 { &[1.0, 8.0][..] } else if ctx.thorough { &[0.07, 0.5, 1.0, 4.0][..] } else { &[0.1, 1.0][..] });
	let poly = Poly { shape: Shape::Mesh { pos: cpos, faces: f.clone() }, targets: vec![] };
	let th = ctx.thorough;
	sweep(ctx, &poly, pose, O, target + cpos, r, th)
}
