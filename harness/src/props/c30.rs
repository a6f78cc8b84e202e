//! C30 - friction in the long run: sticking, sliding and rolling.
use super::Prop;
use crate::engine::*;
use crate::geom::*;
use crate::m::*;
use crate::world::*;
use fluffy_tribble::{ColliderWrapper, GravityGenerator};

pub const PROP: Prop = Prop {
	id: "C30", body,
	rule: "every body (a mass that cannot turn, a solid ball, a shell, a wheel of uneven inertia, a cube of mesh) laid on every immovable slope (planes, boxes and meshes; fixed, sliding along under it, or spinning under the body; tilted by angles around and next to the friction angle), for every coefficient, speed, step length and order, then up to two interventions (kicks, other materials, other gravity, a heavier body) at any of several steps; in every step the motion is compared with Coulomb's law in double precision, and whatever should stick has to stay where it is; non-trivial when it touched the slope",
	assumptions: &["restitution 0 (each step's fall would bounce otherwise)", "static and dynamic coefficient equal", "cubes only on planes"],
};

fn rotation_vector(m: &M3) -> V3 {
	let m = &m.0;
	let c = ((m[0][0] + m[1][1] + m[2][2] - 1.0) / 2.0).clamp(-1.0, 1.0);
	let s = v(m[2][1] - m[1][2], m[0][2] - m[2][0], m[1][0] - m[0][1]);
	if s.len() < 1e-9 { return if c > 0.0 { O } else { v(std::f64::consts::PI * ((m[0][0] + 1.0) / 2.0).max(0.0).sqrt(), std::f64::consts::PI * ((m[1][1] + 1.0) / 2.0).max(0.0).sqrt(), std::f64::consts::PI * ((m[2][2] + 1.0) / 2.0).max(0.0).sqrt()) }; }
	s.unit() * (s.len() / 2.0).atan2(c)
}
fn body(ctx: &mut Ctx) -> R {
	let kind = ctx.pick(5);
	let slope = ctx.pick(if kind == 4 { 2 } else { 4 });
	// Tilts as tangents, and the friction as a multiple of those (around the friction angle and far off).
	let tan = *ctx.of(&[0.0f64, 0.1, 0.45, 1.3]);
	let mu = *ctx.of(&[0.0f64, 0.09, 0.44, 0.47, 0.9, 1.29, 1.31, 3.0]);
	ctx.shard()?;
	let dir = ctx.pick(if ctx.thorough { 4 } else { 2 });
	let u = ctx.pick(5);
	let dt = *ctx.of(&[1.0 / 60.0, 0.1]);
	let ground = ctx.pick(if slope == 0 { 3 } else { 2 });
	let last = ctx.flag();
	let sleepy = ctx.flag();
	let up = [v(0.0, 1.0, 0.0), v(0.3, 0.2, -0.9), v(-1.0, 0.0, 0.0), v(0.6, -0.6, 0.5)][dir].unit();
	let down = up.any_perp(); // Downhill.
	let side = down.cross(up);
	let mut g = (up * -1.0 + down * tan).unit() * 10.0;
	let r = [0.4, 0.5, 0.3, 0.6, 0.4][kind];
	let m = [1.0, 2.0, 0.5, 3.0, 1.5][kind];
	let k: f64 = *ctx.of(&[0.7, 1.6]);
	let mat = |c: Col, f: f64| c.rest(0.0).fric(f, f, 0.5);
	let me = |f: f64| -> Ent {
		let s = || mat(sphere(r), f);
		match kind {
			0 => Ent::new().own(m).col(s()),
			1 => Ent::new().col(s().mass(m)),
			2 => Ent::new().col(s()).col(null(O, m, M3::diag(1.0, 1.0, 1.0).scale(m * r * r * 2.0 / 3.0))),
			3 => Ent::new().own(0.5).col(s()).col(null(O, m - 0.5, M3::diag(0.3, 0.4, 0.5).scale(m * r * r))),
			_ => Ent::new().own(m).col(mat(mesh(O, box_faces(v(-r, -r, -r), v(r, r, r))), f)),
		}
	};
	// A frame whose y is up.
	let frame = M3::rows(down, up, side).t();
	let rotvec = rotation_vector(&frame);
	let ground_vel = if ground == 1 { down * -0.7 + side * 0.9 } else { O };
	let spin = if ground == 2 { 1.3 } else { 0.0 };
	let base = Ent::new().own(INF).rot(rotvec).vel(ground_vel).w(up * spin);
	let fm = mu / k;
	let floor = match slope {
		0 => Ent { rot: O, ..base }.col(mat(plane(O, up), fm)),
		1 => Ent { rot: O, pos: up * 0.3 + down, ..base }.col(mat(plane(side * 2.0 - up * 0.3, up * 2.0), fm)),
		2 => base.col(mat(boxx(v(0.0, -0.5, 0.0), v(-60.0, -0.5, -60.0), v(60.0, 0.5, 60.0)), fm)),
		_ => base.col(mat(mesh(v(0.0, -0.5, 0.0), box_faces(v(-60.0, -0.5, -60.0), v(60.0, 0.5, 60.0))), fm)),
	};
	let start = up * r + down * 0.3 + side * -0.2;
	let v0 = [O, down * 1.0, down * -2.0, side * 1.5 + down * 0.4, O][u];
	let w0 = if kind > 0 && kind < 4 { [O, O, side * 2.0, up * 0.8 + down * 1.1, side * -5.0][u] } else { if u == 4 { return Err(Stop::Skip); } O };
	let mut b = me(k).at(start).vel(v0).w(w0);
	if kind == 4 { b.rot = rotvec; }
	let es = if last { vec![b, floor] } else { vec![floor, b] };
	let (ib, ig) = if last { (0, 1) } else { (1, 0) };
	let mut w = W::build(&es);
	if sleepy { w.sys.energy_sleep_threshold = 1e-7; w.sys.sleep_time_threshold = 0.15; } else { w.awake(last); }
	let mut gen = w.sys.add_unary_force_generator(Box::new(GravityGenerator::new(f3(g)))).expect("generator refused");
	log_scene(ctx, &es);
	let mut mass = m;
	let mut mu = mu;
	let mut vel = d3(&f3(v0));
	let mut om = d3(&f3(w0));
	let steps = if ctx.thorough { 16 } else { 12 };
	let mut ops = 0;
	let mut stuck: Option<V3> = None;
	let max_ops = if ctx.thorough { 2 } else { 1 };
	for step in 0..steps {
		// Interventions.
		if (step == 3 || step == 7 || step == 8) && ops < max_ops && !(sleepy && step == 7) {
			let op = ctx.pick(if sleepy { 4 } else { 7 });
			if op > 0 {
				ops += 1;
					stuck = None;
				ctx.log(|| format!("-- intervention {}", op));
				match op {
					1 => { let kick = vel + down * -0.8 + side * 0.3; w.edit(ib, |e| e.velocity = f3(kick)); vel = d3(&f3(kick)); }
					2 => { w.edit(ib, |e| { e.velocity = f3(O); e.angular_velocity = f3(O); }); vel = O; om = O; }
					3 => { w.edit(ib, |e| e.own_mass += 1.5); mass += 1.5; }
					4 | 5 => {
						mu = if op == 4 { 0.0 } else { 1.3 };
						let i = w.cols[ig][0];
						let mut c = w.sys.get_collider(i).expect("collider vanished");
						let f = (mu / k) as f32;
						match &mut c {
							ColliderWrapper::Plane(c) => { c.static_friction_coefficient = f; c.dynamic_friction_coefficient = f; }
							ColliderWrapper::AlignedBox(c) => { c.static_friction_coefficient = f; c.dynamic_friction_coefficient = f; }
							ColliderWrapper::Mesh(c) => { c.static_friction_coefficient = f; c.dynamic_friction_coefficient = f; }
							_ => bad!("the collider changed its kind"),
						}
						w.sys.update_collider(i, c).expect("update refused");
					}
					_ => {
						w.sys.remove_unary_force_generator(gen).expect("generator vanished");
						g = (up * -1.0 + side * 0.6 + down * 0.2).unit() * 7.0;
						gen = w.sys.add_unary_force_generator(Box::new(GravityGenerator::new(f3(g)))).expect("generator refused");
					}
				}
			}
		}
		let before = w.body(ib);
		let under = w.body(ig);
		w.tick(ctx, dt);
		let after = w.body(ib);
		// Coulomb's law for this step.
		let dt = r32(dt);
		if !before.asleep {
			vel = vel + g * dt;
			let pressed = -vel.dot(up);
			vel = vel + up * pressed;
			let arm = up * -r;
			let surface = under.vel + under.w.cross(before.com - up * r - under.com);
			let slip = vel + om.cross(arm) - surface;
			let slip = slip - up * slip.dot(up);
			let inv = before.inv_inertia();
			if slip.len() > 1e-9 {
				let d = slip.unit();
				let per = 1.0 / mass + d.dot(inv.mv(arm.cross(d)).cross(arm));
				let f = d * -(mu * mass * pressed).min(slip.len() / per);
				vel = vel + f * (1.0 / mass);
				om = om + inv.mv(arm.cross(f));
			}
			if w.recs().iter().any(|r| (r.a == ib || r.b == ib) && r.j > 0.0) { ctx.interesting(); }
		} else { ctx.outcome("slept"); vel = O; om = O; }
		let tol = 1e-4 * (1.0 + vel.len() + om.len() * r);
		let dv = (after.vel - vel).len() / tol;
		let dw = (after.w - om).len() * r / tol / 3.0;
		ctx.dev("velocity", dv); ctx.dev("turning", dw);
		ensure!(dv <= 1.0, "step {}: the velocity is {:?}, by Coulomb's law {:?} (mu {}, tilt {})", step, after.vel.arr(), vel.arr(), mu, tan);
		ensure!(dw <= 1.0, "step {}: the turning is {:?}, by Coulomb's law {:?} (mu {}, tilt {})", step, after.w.arr(), om.arr(), mu, tan);
		let height = after.com.dot(up) - r;
		ctx.dev("height", height.abs() / 2e-4);
		ensure!(height.abs() <= 2e-4, "step {}: it is {} off the slope", step, height);
		// What does not move against a fixed ground, stays.
		let gt = (g - up * g.dot(up)).len();
		let gn = -g.dot(up);
		if ground == 0 && (kind == 0 || kind == 4) && mu * gn > gt * 1.001 && after.vel.len() < 1e-5 {
			let p = *stuck.get_or_insert(after.com);
			ctx.outcome("sticks");
			ctx.dev("creep", (after.com - p).len() / 1e-4);
			ensure!((after.com - p).len() <= 1e-4, "step {}: what should stick has crept from {:?} to {:?}", step, p.arr(), after.com.arr());
		} else { ctx.outcome(if (vel + om.cross(up * -r)).len() < 1e-6 { "rolls" } else if mu == 0.0 { "slides without friction" } else { "slides" }); }
		// Follow what the engine computes, so that rounding does not add up.
		vel = after.vel; om = after.w;
	}
	Ok(())
}
