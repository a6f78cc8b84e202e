//! C08 - sphere against infinite solid plane.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C08", body,
	rule: "every scene sphere/plane over: plane normal x stored normal length (added or updated) x plane offset/pose (turned too) x where along the plane (near its position, 31 and 70 away) x radius x start height (clear, touching, embedded shallow/deep, far side, 60 deep) x normal speed x tangential speed x step length x who moves x spin/offset sphere/sphere on a swinging arm x insertion order; non-trivial when the sphere is or gets within two radii of the plane",
	assumptions: &["the plane's normal is the stored one in world space (planes do not rotate, as documented)", "normal speeds below 1e-4 and touches within the last 0.2% of the step are don't-cares"],
};

fn body(ctx: &mut Ctx) -> R {
	let mut dirs = vec![v(0.0, 1.0, 0.0), v(-1.0, 0.0, 0.0), skew_dir(), v(1.0, 0.0, -1.0).unit()];
	if ctx.thorough { dirs = dirs26(); dirs.push(skew_dir()); }
	let n = *ctx.of(&dirs);
	let nlen = *ctx.of(&[1.0, 3.0, 0.01]);
	let via_update = ctx.flag();
	let (ppos, epos, prot) = *ctx.of(&[(O, O, O), (v(1.0, 2.0, -3.0), O, O), (v(0.5, -1.0, 0.0), v(-20.0, 7.0, 3.0), O), (v(1.5, -2.0, 2.5), v(4.0, 0.5, 1.0), v(0.7, -0.4, 1.2))]);
	ctx.shard()?;
	let r = *ctx.of(if ctx.thorough { &[0.06, 0.5, 1.0, 8.0][..] } else { &[0.06, 1.0, 8.0][..] });
	let dt = *ctx.of(&[1.0, 0.1, 0.01]);
	let vn = *ctx.of(&[-1.0, -0.02, -30.0, 0.5, -4.0]);
	let vt = *ctx.of(&[0.0, 3.0]);
	// Height of the sphere's lowest point over the plane.
	let h = match ctx.pick(8) { 0 => 0.4 * f64::abs(vn) * dt, 1 => 1.4 * f64::abs(vn) * dt, 2 => 0.0, 3 => -0.3 * r, 4 => -1.5 * r, 5 => -3.0 * r - 5.0, 6 => -60.0, _ => 0.95 * f64::abs(vn) * dt };
	let who = ctx.pick(3);
	let cfg = ctx.pick(4);
	let order = if ctx.flag() { [1, 0] } else { [0, 1] };
	let side = n.any_perp();
	// Where along the plane it happens, relative to the plane's own position.
	let along = *ctx.of(&[side * 2.5, side * -70.0, n.cross(side) * 31.0]);
	let rel = n * vn + side * vt;
	let (vs, vp) = match who { 0 => (rel, O), 1 => (O, -rel), _ => (rel * 1.5 + side, rel * 0.5 + side) };
	let plane_point = M3::rot(prot).mv(ppos) + epos;
	let centre = plane_point + n * (h + r) + along;
	let (mut ball, off) = (Ent::new().own(1.0).vel(vs), v(0.5, -0.25, 0.3));
	match cfg {
		0 => { ball = ball.at(centre).col(sphere(r)); }
		1 => { ball = ball.at(centre).w(side * 4.0 + n).col(sphere(r).mass(1.0)); }
		// On an arm that swings it along, too.
		3 => { ball = ball.at(centre - off).w(v(0.3, 0.5, -0.4) * (0.5 / dt.max(0.05))).col(sphere_at(off, r)); }
		// Offset sphere, no mass: the entity origin is somewhere else.
		_ => { ball = ball.at(centre - off).col(sphere_at(off, r)); }
	}
	let pl = Ent::new().own(INF).at(epos).rot(prot).vel(vp).col(plane(ppos, n * nlen));
	let es = [ball, pl];
	let mut w = W::build_in_order(&es, &order);
	if via_update {
		// Store the same normal again through update_collider.
		let h = w.cols[1][0];
		w.sys.update_collider(h, plane(ppos, n * nlen).wrap()).expect("valid plane refused");
	}
	w.no_sleep();
	w.sys.iteration_max = 1;
	log_scene(ctx, &es);
	let (b, p) = (w.body(0), w.body(1));
	let lc = if cfg >= 2 { off.r32() } else { O };
	let nn = (n * nlen).r32().unit();
	let (c0, c1) = (b.world(lc), b.moved(dt).world(lc));
	let (q0, q1) = (p.world(ppos.r32()), p.moved(dt).world(ppos.r32()));
	let rr = r32(r);
	let (h0, h1) = ((c0 - q0).dot(nn) - rr, (c1 - q1).dot(nn) - rr);
	let vrel = (h1 - h0) / dt;
	if vrel.abs() < 1e-4 { return Err(Stop::Skip); }
	let scale = 1.0 + c0.len() + rr;
	let eps = 3e-6 * scale;
	let t = if vrel > 0.0 { None } else if h0 <= eps { Some(0.0) } else if h1 < -eps { Some(h0 / (h0 - h1)) } else if h1 > eps { None } else { return Err(Stop::Skip) };
	if let Some(t) = t { if t > 0.998 { return Err(Stop::Skip); } }
	if cfg == 3 {
		// How the touching point really moves must agree with how the straight path goes.
		let at = dt * t.unwrap_or(if h0 <= eps { 0.0 } else { 1.0 });
		let (b, p) = (b.moved(at), p.moved(at));
		let real = (b.vel_at(b.world(lc) - nn * rr) - p.vel).dot(nn);
		if real * vrel < 0.0 || real.abs() < 1e-3 { return Err(Stop::Skip); }
	}
	if h0 < rr || h1 < rr { ctx.interesting(); }
	w.tick(ctx, dt);
	let recs = w.recs();
	match t {
		None => { ensure!(recs.is_empty(), "collision invented at height {} -> {}: {}", h0, h1, recs[0].show()); ctx.outcome("clear"); }
		Some(t) => {
			ensure!(!recs.is_empty(), "collision missed: height over the plane {} -> {}", h0, h1);
			let r = &recs[0];
			let tr = r.t / dt;
			let terr = (tr - t).abs() * vrel.abs() * dt;
			ctx.dev("time (as distance)", terr);
			ensure!(terr < 10.0 * eps + 1e-3 * vrel.abs() * dt, "recorded at {} of the step, contact at {}", tr, t);
			// Where the sphere is at the recorded moment (which has just been judged itself).
			let want = c0.lerp(c1, tr) - nn * rr;
			ctx.dev("point", (r.pos - want).len());
			ensure!(near(r.pos, want, 2e-3 * (1.0 + rr) + 1e-3 * (c1 - c0).len()), "recorded point {:?}, deepest point of the sphere {:?}", r.pos.arr(), want.arr());
			ensure!((r.a, r.b) == (0, 1) || (r.a, r.b) == (1, 0), "record names entities {} and {}", r.a, r.b);
			let want = if r.a == 0 { -nn } else { nn };
			ensure!(near(r.n, want, 1e-3), "recorded normal {:?}, expected {:?}", r.n.arr(), want.arr());
			ctx.outcome(if t == 0.0 { "embedded or touching" } else { "touch" });
		}
	}
	Ok(())
}
