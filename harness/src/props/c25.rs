//! C25 - what is read back is a faithful, independent snapshot.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::store::*;
use crate::world::*;
use fluffy_tribble::*;

pub const PROP: Prop = Prop {
	id: "C25", body,
	rule: "every sequence (to the depth bound, from several starting stores) of link, unlink, update, removal and step over spheres, boxes, null colliders with a full tensor, planes and meshes, then every read-back entity x every edit of the copy's pose, velocities and own mass x what is done to the system meanwhile (nothing, a step, an update, removal); energy, inertia and orientation of the copy are recomputed from the current parts in double precision, and neither side may see the other's changes until the copy is stored; non-trivial always",
	assumptions: &["inertia is not compared while a part has infinite mass", "relative tolerance 5e-4"],
};

/// Energy, inertia, mass and orientation as the copy gives them, against its fields and the parts.
fn judge(ctx: &mut Ctx, e: &Entity, off: V3, total: f64, local: &Option<M3>, what: &str) -> R {
	let (vel, w, pos) = (d3(&e.velocity), d3(&e.angular_velocity), d3(&e.position));
	let rot = M3::rot(d3(&e.rotation));
	let o = e.make_orientation();
	let scale = 1.0 + pos.len() * 0.05 + off.len();
	for p in [O, v(1.0, -2.0, 0.5), v(0.0, 0.0, 7.0)] {
		let (got, want) = (d3(&o.position_into_world(&f3(p))), pos + rot.mv(off + p));
		ensure!(near(got, want, 2e-4 * scale), "{}: its orientation takes {:?} to {:?}, its pose and origin to {:?}", what, p.arr(), got.arr(), want.arr());
	}
	let mass = e.get_last_total_mass() as f64;
	ensure!(if total.is_finite() { (mass - total).abs() <= 1e-4 * (1.0 + total) } else { mass == total }, "{}: the mass is {}, the parts make {}", what, mass, total);
	let energy = e.get_total_energy() as f64;
	if !total.is_finite() {
		let want = if vel.len() < 1e-5 && w.len() < 1e-5 { 0.0 } else { INF };
		ensure!(energy == want, "{}: an immovable body with v={:?} w={:?} has energy {}", what, vel.arr(), w.arr(), energy);
		ctx.outcome("immovable");
		return Ok(());
	}
	if let Some(l) = local {
		let want = rot.mm(l).mm(&rot.t());
		let got = dm(&e.get_last_moment_of_inertia());
		let d = got.max_diff(&want) / (1.0 + want.max_abs());
		ctx.dev("inertia", d);
		ensure!(d < 5e-4, "{}: the inertia is {:?}, its parts and rotation make {:?}", what, got.0, want.0);
		let want = 0.5 * total * vel.dot(vel) + 0.5 * want.mv(w).dot(w);
		let t = 5e-4 * (0.5 * total * vel.dot(vel) + (1.0 + l.max_abs()) * w.dot(w)) + 1e-6;
		ctx.dev("energy", (energy - want).abs() / t);
		ensure!((energy - want).abs() <= t, "{}: the energy is {}, its motion makes {}", what, energy, want);
		ctx.outcome("movable");
	}
	Ok(())
}

fn show(e: &Entity) -> String {
	let mut cs: Vec<String> = e.get_colliders().iter().map(|c| format!("{:?}", c)).collect();
	cs.sort();
	format!("{:?} {:?} {:?} {:?} {} {} {:?} {:?} {:?}", e.position, e.rotation, e.velocity, e.angular_velocity, e.own_mass, e.was_asleep(), e.get_last_orientation(), e.get_last_moment_of_inertia(), cs)
}

fn body(ctx: &mut Ctx) -> R {
	let skew = M3::rot(v(0.4, 0.9, -0.2));
	let tensor = { let t = skew.mm(&M3::diag(1.0, 2.0, 2.5)).mm(&skew.t()); let mut r = t; for i in 0..3 { for j in 0..3 { r.0[i][j] = r32(0.5 * (t.0[i][j] + t.0[j][i])); } } r };
	let mut cfg = Cfg {
		cols: vec![
			vec![sphere_at(v(1.0, 0.5, -2.0), 2.0).mass(2.0), sphere_at(v(1.0, 0.5, -2.0), 2.0).mass(INF)],
			vec![boxx(v(0.0, 0.5, 0.0), v(-1.0, -1.0, -1.0), v(2.0, 1.0, 4.0)).mass(3.0), boxx(v(0.25, 0.5, 4.0), v(-1.0, -1.0, -1.0), v(-0.5, 1.0, 1.0)).mass(0.5)],
			vec![null(v(3.0, 0.0, 0.0), 1.0, tensor), null(v(3.0, 0.0, 0.0), 1.0, tensor.scale(2.0))],
			vec![mesh(v(0.0, 0.0, 1.0), crate::geom::tetra(1.0))],
			// Points and specks: inertia without full rank, or next to none.
			vec![null(v(-3.0, 0.5, 0.0), 1.5, M3::diag(0.0, 0.0, 0.0)), null(v(0.0, 4.0, -1.0), 1.5, M3::diag(0.0, 0.0, 0.0))],
			vec![sphere_at(v(0.0, 0.0, 0.0), 0.06).mass(0.02)],
		],
		ents: vec![Ent::new().own(2.0).at(v(1.0, 2.0, 3.0)).rot(v(0.1, 0.9, -0.4)).vel(v(0.25, 0.0, 0.5)).w(v(1.0, 2.0, 0.25)), Ent::new().own(0.5).at(v(-7.0, 2.0, 3.0))],
		upds: vec![Ent::new().own(5.0).at(v(-4.0, 2.0, 3.5)).rot(v(0.0, 0.7, 2.0)).w(v(0.0, 3.0, 0.0)), Ent::new().own(INF).at(v(-4.0, 2.0, 3.5)), Ent::new().own(1.5).at(v(-4.0, 2.0, 3.5)).rot(v(0.0, 6e-4, -3e-4))],
		max_e: 2, max_c: 4, max_g: 0, stale: false, steps: true, values: false, links: false, masses: true, sleepy: false, copies: false,
	};
	use Op::*;
	let starts: [&[Op]; 5] = [
		&[AddE(0), AddE(1), AddC(0), AddC(1), Link(0, Some(0)), Link(1, Some(0))],
		&[AddE(1), AddE(0), AddC(1), AddC(2), AddC(3), Link(0, Some(0)), Link(1, Some(1)), Link(2, Some(0))],
		&[AddE(0), AddC(2), Link(0, Some(0))],
		&[AddE(0), AddC(4), AddC(4), UpdC(1, 1), Link(0, Some(0)), Link(1, Some(0))],
		&[AddE(0), AddC(5), Link(0, Some(0))],
	];
	let pre = *ctx.of(&starts);
	cfg.sleepy = ctx.flag();
	let mut s = Store::new();
	if cfg.sleepy { s.sys.energy_sleep_threshold = 1e30; s.sys.sleep_time_threshold = 0.0; }
	for op in pre { s.apply(*op, &cfg)?; }
	if cfg.sleepy { s.apply(Step, &cfg)?; }
	let depth = if ctx.thorough { 3 } else { 2 };
	for d in 0..depth {
		let ops = s.ops(&cfg);
		let op = *ctx.of(&ops);
		if d == 0 { ctx.shard()?; }
		ctx.log(|| format!("{:?}", op));
		s.apply(op, &cfg)?;
		ctx.step();
	}
	s.check(ctx, &cfg)?;
	let alive: Vec<usize> = (0..s.e.len()).filter(|i| s.e[*i].alive).collect();
	if alive.is_empty() { return Err(Stop::Skip); }
	let i = *ctx.of(&alive);
	let h = s.e[i].h;
	let (total, centre, local) = s.compose(i);
	let e = s.sys.get_entity(h).expect("entity");
	let off = d3(&e.get_last_orientation().internal_origin_offset);
	ensure!(near(off, -centre, 2e-4), "the centre of mass is {:?} from the origin, the parts put it at {:?}", (-off).arr(), centre.arr());
	judge(ctx, &e, -centre, total, &local, "as read back")?;
	// Where it really is, and where its fields say it is.
	for p in [O, v(1.0, -2.0, 0.5), v(0.0, 0.0, 7.0)] {
		let (got, want) = (d3(&e.make_orientation().position_into_world(&f3(p))), d3(&e.get_last_orientation().position_into_world(&f3(p))));
		ensure!(near(got, want, 3e-5 * (1.0 + want.len() + off.len())), "the pose read back takes {:?} to {:?}, it really is at {:?}", p.arr(), got.arr(), want.arr());
	}
	// Edits of the copy.
	let mut c = e.clone();
	let rot = *ctx.of(&[None, Some(v(0.7, -0.4, 1.2)), Some(v(0.0, 4.0, 0.0))]);
	if let Some(r) = rot { c.rotation = f3(r); }
	match ctx.pick(4) { 0 => {} 1 => { c.velocity = f3(v(-3.0, 0.5, 2.0)); } 2 => { c.velocity = f3(O); c.angular_velocity = f3(O); } _ => { c.angular_velocity = f3(v(0.0, -6.0, 2.5)); c.velocity = f3(v(0.001, 0.0, 0.0)); } }
	if ctx.flag() { c.position = f3(s.e[i].com + v(10.0, 2.0, -1.0)); }
	let own = if ctx.flag() { c.own_mass += 1.5; 1.5 } else { 0.0 };
	judge(ctx, &c, -centre, total, &local, "edited copy")?;
	ensure!(d3(&c.get_last_orientation().internal_origin_offset) == off && c.get_last_orientation().position == e.position, "the last orientation changed along with the copy");
	// The system has seen none of it.
	let again = s.sys.get_entity(h).expect("entity");
	ensure!(show(&again) == show(&e), "editing a copy changed what is stored: {} to {}", show(&e), show(&again));
	// And the copy sees nothing of what happens to the system.
	let was = show(&e);
	let op = match ctx.pick(4) { 0 => None, 1 => Some(Step), 2 => Some(UpdE(i, 0)), _ => Some(RemE(i)) };
	if let Some(op) = op { ctx.log(|| format!("{:?}", op)); s.apply(op, &cfg)?; ctx.step(); s.check(ctx, &cfg)?; }
	ensure!(show(&e) == was, "a copy changed along with the system");
	judge(ctx, &e, -centre, total, &local, "older copy")?;
	// Storing the copy: as it said it would be.
	let want = c.clone();
	let r = s.sys.update_entity(h, c);
	ensure!(r.is_ok() == s.e[i].alive, "storing the copy returned {:?}", r);
	if r.is_ok() {
		let (total, centre, local) = s.compose(i);
		// (What is stored replaces own mass; the model still has the older one.)
		let total = total - s.e[i].own + want.own_mass as f64;
		let total = if total.is_nan() { if s.e[i].links.iter().any(|c| s.c[*c].c.mass.is_infinite()) { INF } else { want.own_mass as f64 + s.e[i].links.iter().map(|c| part(&s.c[*c].c).0).sum::<f64>() } } else { total };
		let got = s.sys.get_entity(h).expect("entity");
		ensure!(got.velocity == want.velocity && got.angular_velocity == want.angular_velocity && got.own_mass == want.own_mass, "stored v={:?} w={:?} m={}, read back {:?} {:?} {}", want.velocity, want.angular_velocity, want.own_mass, got.velocity, got.angular_velocity, got.own_mass);
		judge(ctx, &got, -centre, total, &local, "after storing the copy")?;
		let _ = own;
	}
	ctx.state(s.fp());
	ctx.interesting();
	Ok(())
}
