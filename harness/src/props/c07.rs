//! C07 - sphere against sphere.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C07", body,
	rule: "every scene of two entities carrying spheres over: contact direction x radii x gap x impact-parameter x relative speed x step length x who moves x spin x insertion order, plus compound bodies (up to nine spheres per entity, offset centres, pose), plus spheres on spinning arms (length x spin x how the bodies drift apart or together x gap x lateral offset x counterweight) ; non-trivial when the oracle decides (not grazing) and a contact happens or is avoided by less than a diameter",
	assumptions: &["grazing contacts (closest approach within 0.5% of touching, or touch within the last 0.2% of the step) are don't-cares", "the path of a centre is the straight line between its start and end pose, as documented"],
};

/// Exact first touch of two moving centres: (closest distance over the step, first time with distance <= r).
pub fn touch(c: V3, d: V3, r: f64) -> (f64, Option<f64>) {
	let (a, b, k) = (d.dot(d), c.dot(d), c.dot(c) - r * r);
	let tm = if a > 0.0 { (-b / a).clamp(0.0, 1.0) } else { 0.0 };
	let dmin = (c + d * tm).len();
	if k <= 0.0 { return (dmin, Some(0.0)); }
	if dmin > r { return (dmin, None); }
	let t = (-b - (b * b - a * k).max(0.0).sqrt()) / a;
	(dmin, Some(t.clamp(0.0, 1.0)))
}

/// Checks the first record of one step of a two-entity sphere scene against the oracle.
pub fn check_pair(ctx: &mut Ctx, es: &[Ent; 2], order: &[usize; 2], dt: f64) -> R {
	let mut w = W::build_in_order(es, order);
	w.no_sleep();
	w.sys.iteration_max = 1;
	log_scene(ctx, es);
	let s = w.bodies();
	let e: Vec<Body> = s.iter().map(|b| b.moved(dt)).collect();
	let balls = |i: usize| -> Vec<(V3, V3, f64)> { es[i].cols.iter().filter_map(|c| if let Shape::Sphere { c, r } = &c.shape { let p = c.r32(); Some((s[i].world(p), e[i].world(p) - s[i].world(p), r32(*r))) } else { None }).collect() };
	let (bs0, bs1) = (balls(0), balls(1));
	// Earliest touch over all pairs; grazing pairs make the scene a don't-care.
	let mut first: Option<f64> = None;
	let mut fuzzy = false;
	let mut close = false;
	for (c0, d0, r0) in &bs0 { for (c1, d1, r1) in &bs1 {
		let r = r0 + r1;
		let (c, d) = (*c1 - *c0, *d1 - *d0);
		let (dmin, t) = touch(c, d, r);
		let margin = 0.005 * r;
		if c.len() < r + margin {
			// Already overlapping (or touching): counts only when approaching.
			if c.len() > r - 1e-4 * r && c.len() < r + margin && t != Some(0.0) { fuzzy = true; }
			let vrel = (s[1].vel_at(*c1) - s[0].vel_at(*c0)).dot(c.unit()) ;
			if c.len() < 1e-3 || vrel.abs() < 0.02 * (d.len() / dt) || vrel.abs() < 1e-4 { fuzzy = true; }
			if vrel < 0.0 { first = Some(0.0); close = true; }
			continue;
		}
		if (dmin - r).abs() < margin { fuzzy = true; }
		if let Some(t) = t {
			if t > 0.998 { fuzzy = true; }
			// Touching point velocities must agree that this is an approach (rotation is linearised).
			let (m0, m1) = (s[0].moved(dt * t), s[1].moved(dt * t));
			let n = (c + d * t).unit();
			let p = *c0 + *d0 * t + n * *r0;
			let va = (m0.vel_at(p) - m1.vel_at(p)).dot(n);
			if va < 0.02 * d.len() / dt || va < 1e-4 { fuzzy = true; }
			if first.map(|f| t < f).unwrap_or(true) { first = Some(t); }
			close = true;
		} else if dmin < 2.0 * r { close = true; }
	} }
	if fuzzy { return Err(Stop::Skip); }
	w.tick(ctx, dt);
	if close { ctx.interesting(); }
	let recs = w.recs();
	match first {
		None => { ensure!(recs.is_empty(), "collision invented: {}", recs[0].show()); ctx.outcome("clear"); }
		Some(t) => {
			ensure!(!recs.is_empty(), "collision missed: the spheres touch at {} of the step", t);
			let r = &recs[0];
			ensure!((r.a, r.b) == (0, 1) || (r.a, r.b) == (1, 0), "record names entities {} and {}", r.a, r.b);
			let tr = r.t / dt;
			ctx.dev("time (fraction of step)", (tr - t).abs());
			ensure!((tr - t).abs() < 2e-3, "recorded at {} of the step, first touch at {}", tr, t);
			// Some pair touches at exactly that instant with that point and normal.
			let (fa, fb) = if r.a == 0 { (&bs0, &bs1) } else { (&bs1, &bs0) };
			let mut best = (f64::INFINITY, f64::INFINITY);
			for (c0, d0, r0) in fa { for (c1, d1, r1) in fb {
				let (p0, p1) = (*c0 + *d0 * t, *c1 + *d1 * t);
				let n = (p1 - p0).unit();
				if t > 0.0 && ((p1 - p0).len() - r0 - r1).abs() > 1e-3 * (r0 + r1) { continue; }
				if t == 0.0 && (p1 - p0).len() > r0 + r1 { continue; }
				// Touching point; for overlapping spheres anywhere inside the overlap along the line.
				let point_err = if t > 0.0 || (p1 - p0).len() > 0.999 * (r0 + r1) { (r.pos - (p0 + n * *r0)).len() } else {
					let along = (r.pos - p0).dot(n);
					let lo = (p1 - p0).len() - r1; let hi = *r0;
					(r.pos - p0 - n * along).len() + (lo - along).max(0.0) + (along - hi).max(0.0)
				};
				let ne = (r.n - n).len();
				if point_err / (r0 + r1) + ne < best.0 + best.1 { best = (point_err / (r0 + r1), ne); }
			} }
			ctx.dev("point", best.0);
			ctx.dev("normal", best.1);
			ensure!(best.0 < 1e-2, "recorded point {:?} is not the touching point (off by {} sizes)", r.pos.arr(), best.0);
			ensure!(best.1 < 1e-2, "recorded normal {:?} is not the line of centres (off by {})", r.n.arr(), best.1);
			ensure!((r.n.len() - 1.0).abs() < 1e-3, "normal is not unit");
			ctx.outcome(if t == 0.0 { "overlap at start" } else { "touch" });
		}
	}
	Ok(())
}

fn body(ctx: &mut Ctx) -> R {
	match ctx.pick(3) { 0 => simple(ctx), 1 => compound(ctx), _ => swing(ctx) }
}

/// A sphere on a spinning arm, swinging towards another (or away from it) while the bodies themselves may well drift apart.
fn swing(ctx: &mut Ctx) -> R {
	let n = *ctx.of(&[v(1.0, 0.0, 0.0), v(0.0, -1.0, 0.0), skew_dir(), v(0.0, 0.6, 0.8)]);
	let arm: f64 = *ctx.of(&[2.0, 0.7, 6.0]);
	let other = ctx.pick(3);
	ctx.shard()?;
	let (r0, r1): (f64, f64) = *ctx.of(&[(0.5, 0.5), (0.2, 1.0), (1.5, 0.3)]);
	let (spin, dt): (f64, f64) = *ctx.of(&[(3.0, 0.05), (0.2, 1.0), (-3.0, 0.05), (12.0, 0.01)]);
	let drift = *ctx.of(&[0.1, 0.0, 0.4, -0.5, 0.8]) * spin * arm;
	let gap = *ctx.of(&[0.4, 0.8, 1.3]) * (spin * arm - drift).abs() * dt;
	let lat = *ctx.of(&[0.0, 0.6, -0.6]) * (r0 + r1);
	let balance = ctx.pick(3);
	let order = if ctx.flag() { [1, 0] } else { [0, 1] };
	let side = n.any_perp();
	let base = v(0.5, 0.25, -0.5);
	let along = gap + ((r0 + r1) * (r0 + r1) - lat * lat).sqrt();
	// Where the second sphere is: ahead of the first, which sits at the end of its arm.
	let at1 = base - side * arm + n * along + n.cross(side) * lat;
	// The arm: balanced by a weight without volume, or by another sphere; or the entity's own weight is all there is.
	let mut e0 = Ent::new().at(base).w(n.cross(side) * spin).own(0.5).col(sphere_at(side * -arm, r0).mass(if balance == 2 { 0.0 } else { 1.0 }));
	match balance { 0 => e0 = e0.col(null(side * arm, 1.0, M3::ZERO)), 1 => e0 = e0.col(sphere_at(side * arm, r0 * 0.9).mass(1.0)), _ => {} }
	// The other: a plain ball, one off centre, or one that swings too (the other way round).
	let e1 = match other {
		0 => Ent::new().at(at1).vel(n * drift).own(1.0).col(sphere(r1)),
		1 => Ent::new().at(at1 - n * 1.5).rot(v(0.2, 0.5, 0.1)).vel(n * drift).own(1.0).col(sphere_at(M3::rot(v(0.2, 0.5, 0.1).r32()).t().mv(n * 1.5), r1)),
		_ => Ent::new().at(at1 + side * arm).vel(n * drift).w(n.cross(side) * (-0.4 * spin)).own(1.0).col(sphere_at(side * -arm, r1)),
	};
	check_pair(ctx, &[e0, e1], &order, dt)
}

fn simple(ctx: &mut Ctx) -> R {
	let mut dirs = AXES.to_vec();
	dirs.push(skew_dir());
	dirs.push(v(1.0, 1.0, 0.0).unit());
	if ctx.thorough { dirs = dirs26(); dirs.push(skew_dir()); }
	let n = *ctx.of(&dirs);
	let (r0, r1) = *ctx.of(if ctx.thorough { &[(1.0, 1.0), (0.06, 0.06), (0.25, 0.25), (0.1, 3.0), (5.0, 0.5), (20.0, 20.0)][..] } else { &[(1.0, 1.0), (0.06, 0.06), (0.25, 0.2), (3.0, 0.1)][..] });
	let dt = *ctx.of(if ctx.thorough { &[1.0, 0.1, 0.01, 0.001][..] } else { &[1.0, 0.1, 0.01][..] });
	ctx.shard()?;
	let speed = *ctx.of(&[1.0, 20.0, 0.05, 300.0]);
	// Gap between the surfaces, as a fraction of the distance covered or of the radii.
	let gap = match ctx.pick(6) { 0 => 0.4 * speed * dt, 1 => 0.9 * speed * dt, 2 => 1.3 * speed * dt, 3 => 0.0, 4 => -0.1 * (r0 + r1), _ => -0.7 * (r0 + r1) };
	// Lateral offset of the closest approach in units of r0+r1 and the direction of motion.
	let lat: f64 = *ctx.of(&[0.0, 0.5, 0.9, 1.2]);
	let away = ctx.flag();
	let who = ctx.pick(4);
	let spin = *ctx.of(if ctx.thorough { &[0.0, 4.0, -4.0][..] } else { &[0.0, 4.0][..] });
	let base = if ctx.thorough { *ctx.of(&[O, v(7.0, -3.0, 11.0)]) } else { v(2.0, -1.0, 0.5) };
	let order = if ctx.flag() { [1, 0] } else { [0, 1] };
	let r = r0 + r1;
	if gap + r <= 1e-3 || speed * dt > 100.0 * r { return Err(Stop::Skip); }
	let side = n.any_perp();
	// Sphere 1 starts on the n side of sphere 0; the relative motion of 1 is u * speed.
	let (c, u) = if gap > 0.0 && lat > 0.0 {
		// Passes at lateral distance lat*r: place it so that the surfaces touch (or would) after `gap`.
		let back = if lat < 1.0 { (r * r * (1.0f64 - lat * lat)).sqrt() + gap } else { gap };
		(n * back + side * (lat * r), -n)
	} else {
		// Oblique motion away from the line of centres.
		let ob = lat; // 0, .5, .9, 1.2 rad
		(n * (r + gap), -(n * f64::cos(ob) + side * f64::sin(ob)))
	};
	let u = if away { -u } else { u };
	let rel = u * speed;
	let (v0, v1) = match who { 0 => (O, rel), 1 => (-rel, O), 2 => (rel * -0.3, rel * 0.7), _ => (rel * 2.0 + side, rel * 3.0 + side) };
	let ax = n.cross(side);
	let e0 = Ent::new().at(base).vel(v0).w(ax * spin).own(1.0).col(sphere(r0));
	let e1 = Ent::new().at(base + c).vel(v1).w(n * spin + ax * (-0.5 * spin)).own(2.0).col(sphere(r1).mass(0.5));
	check_pair(ctx, &[e0, e1], &order, dt)
}

fn compound(ctx: &mut Ctx) -> R {
	// Dumb-bells: several spheres per body, offset centres, poses, slow rotation.
	let n = *ctx.of(&[v(1.0, 0.0, 0.0), v(0.0, -1.0, 0.0), skew_dir(), v(0.0, 0.6, 0.8)]);
	let k0 = ctx.pick(5);
	let k1 = [0, 1, 2, 4][ctx.pick(4)];
	ctx.shard()?;
	let rot = *ctx.of(&[O, v(0.0, 0.0, 1.57079632679), v(0.7, -0.4, 2.0)]);
	let spin = *ctx.of(&[O, v(0.0, 0.0, 0.15), v(0.1, -0.12, 0.0)]);
	let dist = *ctx.of(&[2.6, 4.0, 6.5]);
	let speed = *ctx.of(&[1.5, 5.0]);
	let lat = *ctx.of(&[0.0, 0.6, -0.8, 1.7]);
	let massy = ctx.flag();
	let order = if ctx.flag() { [1, 0] } else { [0, 1] };
	let set = |k: usize, m: f64| -> Vec<Col> { match k {
		0 => vec![sphere_at(v(0.8, 0.0, 0.0), 0.5).mass(m), sphere_at(v(-0.8, 0.0, 0.0), 0.5).mass(m)],
		1 => vec![sphere_at(v(0.0, 1.0, 0.2), 0.4).mass(m)],
		2 => vec![sphere_at(v(-0.7, 0.0, 0.0), 0.3).mass(m), sphere_at(v(0.0, 0.7, 0.0), 0.6).mass(2.0 * m), sphere_at(v(0.0, 0.0, -0.9), 0.25)],
		4 => (0..9).map(|i| sphere_at(v(0.7 * (i % 3) as f64 - 0.7, 0.1, 0.75 * (i / 3) as f64 - 0.75), 0.3 + 0.01 * i as f64).mass(m)).collect(),
		_ => vec![null(v(1.0, 1.0, 0.0), 1.0, M3::id()), sphere_at(v(0.0, 0.0, 0.8), 0.5).mass(m), sphere_at(v(0.0, 0.0, -0.8), 0.7)],
	} };
	let m = if massy { 1.0 } else { 0.0 };
	let side = n.any_perp();
	let mut e0 = Ent::new().at(v(0.5, 0.25, -0.5)).rot(rot).w(spin).own(1.0);
	e0.cols = set(k0, m);
	let mut e1 = Ent::new().at(v(0.5, 0.25, -0.5) + n * dist + side * lat).vel(n * -speed).w(-spin).own(1.0);
	e1.cols = set(k1, m);
	check_pair(ctx, &[e0, e1], &order, 1.0)
}
