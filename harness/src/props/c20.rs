//! C20 - robustness: no panic, no hang, nothing non-finite.
use super::Prop;
use crate::engine::*;
use crate::geom::*;
use crate::m::*;
use crate::world::*;
use fluffy_tribble::*;

pub const PROP: Prop = Prop {
	id: "C20", body,
	rule: "(a) every scene of two entities out of 11 collider set-ups (each kind, several colliders, none, tiny, huge, flat) x 7 mass classes each (massless, tiny, ordinary, huge, own or collider mass, immovable by own mass or collider) x 7 placements (coincident, nested, overlapping, exactly touching, apart) x motions (at rest to 1000 per second, spinning) x (step length, iteration limit including 0 and 255, gravity), followed for several steps; (b) every sequence of operations to a depth over three living worlds (a pile asleep on a floor, a moving pair, a lone compound body): steps, removals, unlinking, relinking, resizing, teleports into others, mass changes to nothing and to immovable, additions on top of others, gravity and torque generators; after every operation everything readable is checked; a panic, crash or hang fails the property; non-trivial when something collided",
	assumptions: &["values of ordinary magnitude (up to 1e3 in speed, 1e4 in distance, 1e4 in size, 1e6 in mass)", "an immovable moving entity may report infinite energy"],
};
fn body(ctx: &mut Ctx) -> R { if ctx.pick(2) == 0 { scenes(ctx) } else { ops(ctx) } }

fn check(w: &W, alive: &[bool]) -> R {
	for i in 0..w.ents.len() {
		let e = match w.sys.get_entity(w.ents[i]) { Some(e) => e, None => { ensure!(!alive[i], "entity {} vanished", i); continue } };
		ensure!(alive[i], "entity {} came back", i);
		let b = body_of(&e);
		ensure!(b.finite() && d3(&e.rotation).finite() && b.off.finite(), "entity {} is no longer finite: {} rotation {:?} offset {:?}", i, b.show(), d3(&e.rotation).arr(), b.off.arr());
		ensure!(!b.mass.is_nan() && b.mass >= 0.0, "entity {} has mass {}", i, b.mass);
		ensure!(b.inertia.0.iter().all(|r| r.iter().all(|x| x.is_finite())), "entity {} has inertia {:?}", i, b.inertia.0);
		let en = e.get_total_energy();
		ensure!(!en.is_nan() && (en.is_finite() || (!b.movable() && (b.vel != O || b.w != O))), "entity {} has energy {} ({})", i, en, b.show());
	}
	for r in w.recs() { ensure!(r.pos.finite() && r.n.finite() && r.t.is_finite() && r.e.is_finite() && r.j.is_finite(), "a collision record is not finite: {}", r.show()); }
	Ok(())
}

fn flat() -> Vec<Vec<V3>> { vec![vec![v(-1.0, 0.0, -1.0), v(1.0, 0.0, -1.0), v(1.0, 0.0, 1.0), v(-1.0, 0.0, 1.0)]] }
const KINDS: usize = 11;
fn kind(k: usize) -> Vec<Col> {
	let h = 0.5;
	match k {
		0 => vec![sphere(0.5)],
		1 => vec![plane(O, v(0.0, 1.0, 0.0))],
		2 => vec![boxx(O, v(-h, -h, -h), v(h, h, h))],
		3 => vec![mesh(O, box_faces(v(-h, -h, -h), v(h, h, h)))],
		4 => vec![mesh(O, flat())],
		5 => vec![],
		6 => vec![sphere_at(v(-0.2, 0.0, 0.0), 0.5), sphere_at(v(0.2, 0.0, 0.0), 0.5)],
		7 => vec![sphere(0.06), boxx(O, v(-1e-5, -0.4, -0.4), v(1e-5, 0.4, 0.4))],
		8 => vec![sphere(1e4)],
		9 => vec![mesh(v(0.1, 0.0, 0.0), wedge()), sphere(0.25)],
		_ => vec![plane(v(0.0, 0.5, 0.0), v(0.0, 1.0, 0.0)), plane(v(0.0, -0.5, 0.0), v(0.0, -1.0, 0.0))],
	}
}
fn heavy(mut e: Ent, cols: Vec<Col>, m: usize) -> Ent {
	e.cols = cols;
	let put = |e: &mut Ent, m: f64| {
		let massy = e.cols.iter().any(|c| !matches!(c.shape, Shape::Mesh { .. }));
		if massy { for c in e.cols.iter_mut() { c.mass = m; } } else { e.cols.push(null(v(0.1, 0.2, 0.0), m, M3::id().scale(if m.is_finite() { 0.1 * m } else { 1.0 }))); }
	};
	match m { 0 => {} 1 => e.own = 1.0, 2 => e.own = INF, 3 => put(&mut e, 2.0), 4 => put(&mut e, INF), 5 => e.own = 1e-7, _ => { e.own = 1e6; put(&mut e, 1e6) } }
	e
}
fn scenes(ctx: &mut Ctx) -> R {
	let (ka, kb) = (ctx.pick(KINDS), ctx.pick(KINDS));
	ctx.shard()?;
	let (ma, mb) = (ctx.pick(7), ctx.pick(7));
	let at = *ctx.of(&[O, v(0.3, 0.4, 0.0), v(0.0, 1.0, 0.0), v(1.0, 1.0, 0.0), v(0.1, 0.0, -0.05), v(0.0, 1.3, 0.2), v(0.0, -0.5, 0.0)]);
	let (va, wa, vb, wb) = *ctx.of(&[(O, O, O, O), (v(0.0, -1.0, 0.0), O, O, O), (v(0.0, -1e3, 0.0), O, v(3.0, 50.0, 0.0), O), (v(4.0, 0.0, 1.0), v(0.0, 5.0, -2.0), O, O), (O, v(30.0, 0.0, 0.0), v(0.0, 0.0, 0.0), v(0.0, 0.0, 1.0)), (v(-0.5, -2.0, 0.0), v(0.0, 0.0, 1.0), v(0.5, 2.0, 0.0), O)]);
	let sets = [(0.1, 5u8, true), (1.0, 255, false), (10.0, 5, false), (0.1, 0, true), (1e-7, 5, true), (0.01, 1, true)];
	let (dt, limit, g) = *ctx.of(&sets[..if ctx.thorough { 6 } else { 3 }]);
	let (e, mu) = if ctx.thorough { *ctx.of(&[(1.0, 0.5), (0.0, 0.0), (0.5, 1e3)]) } else { (1.0, 0.5) };
	let mat = |c: Vec<Col>| c.into_iter().map(|c| c.rest(e).fric(mu, mu * 0.5, 0.25)).collect::<Vec<_>>();
	let es = [heavy(Ent::new().at(at).vel(va).w(wa), mat(kind(ka)), ma), heavy(Ent::new().rot(v(0.0, 0.0, 0.0)).vel(vb).w(wb), mat(kind(kb)), mb)];
	let mut w = W::build(&es);
	w.sys.iteration_max = limit;
	if g { w.sys.add_unary_force_generator(Box::new(GravityGenerator::new(f3(v(0.0, -10.0, 0.0))))).expect("generator refused"); }
	log_scene(ctx, &es);
	check(&w, &[true, true])?;
	for _ in 0..if ctx.thorough { 5 } else { 3 } {
		w.tick(ctx, dt);
		if !w.sys.collision_records.is_empty() { ctx.interesting(); }
		ensure!(w.sys.collision_records.len() <= limit as usize, "{} records for an iteration limit of {}", w.sys.collision_records.len(), limit);
		check(&w, &[true, true])?;
	}
	Ok(())
}

#[derive(Debug)]
struct Twist;
impl UnaryForceGenerator for Twist {
	fn make_force(&mut self, _dt: f32, physics: &PhysicsSystem, entity: EntityHandle) -> Force {
		let p = physics.get_entity(entity).map(|e| e.position).unwrap_or(types::Vec3::zeros());
		Force::new(types::Vec3::new(0.0, 0.5, 3.0), p + types::Vec3::new(1.0, 0.0, 0.25))
	}
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Step(f64), Rest, RemE(usize), RemC(usize, usize), Unlink(usize, usize), Relink(usize, usize, usize), Resize(usize, usize), Into(usize, usize), Mass(usize, f64), Push(usize, V3), Spin(usize), AddOn(usize), Pull, Twist, Limit(u8), Sleepy }

fn ops(ctx: &mut Ctx) -> R {
	let wk = ctx.pick(4);
	let es: Vec<Ent> = match wk {
		0 => vec![Ent::new().own(INF).col(plane(O, v(0.0, 1.0, 0.0)).rest(0.0)), Ent::new().own(1.0).at(v(0.0, 0.5, 0.0)).col(sphere(0.5).rest(0.0)), Ent::new().at(v(0.0, 1.5, 0.0)).col(sphere(0.5).mass(2.0).rest(0.0))],
		1 => vec![Ent::new().own(1.0).col(mesh(O, box_faces(v(-0.5, -0.5, -0.5), v(0.5, 0.5, 0.5))).fric(0.5, 0.4, 0.25)).vel(v(0.0, -3.0, 0.0)).at(v(0.0, 1.2, 0.0)).w(v(1.0, 0.0, 2.0)), Ent::new().col(boxx(O, v(-5.0, -1.0, -5.0), v(5.0, 0.0, 5.0)).mass(INF)), Ent::new().own(2.0).at(v(0.4, 2.2, 0.1)).col(sphere(0.5).mass(1.0)).vel(v(0.0, -4.0, 0.0))],
		2 => vec![Ent::new().col(sphere_at(v(0.5, 0.0, 0.0), 0.5).mass(1.0)).col(null(v(-1.0, 0.0, 0.0), 1.0, M3::diag(0.1, 0.2, 0.3))).w(v(0.0, 0.0, 3.0)), Ent::new().own(INF).at(v(0.0, -2.0, 0.0)).rot(v(0.3, 0.0, 0.2)).col(mesh(O, flat().iter().map(|f| f.iter().map(|p| *p * 5.0).collect()).collect()))],
		_ => vec![Ent::new().own(1.0).col(sphere(0.5)).vel(v(1.0, 0.0, 0.0)), Ent::new().own(1.0).at(v(1.2, 0.0, 0.0)).col(sphere(0.5)), Ent::new().at(v(2.2, 0.0, 0.0)).col(sphere(0.5))],
	};
	let depth = if ctx.thorough { 4 } else { 3 };
	let mut w = W::build(&es);
	let mut alive = vec![true; es.len()];
	w.sys.energy_sleep_threshold = 0.01;
	w.sys.sleep_time_threshold = 0.1;
	if wk < 3 { w.sys.add_unary_force_generator(Box::new(GravityGenerator::new(f3(v(0.0, -10.0, 0.0))))).expect("generator refused"); }
	log_scene(ctx, &es);
	if wk == 0 { for _ in 0..6 { w.tick(ctx, 0.05); } check(&w, &alive)?; }
	let mut gone: Vec<(usize, usize)> = vec![];
	for d in 0..depth + 2 {
		// The last two are always steps.
		let op = if d >= depth { Op::Step(0.1) } else {
			let mut alpha = vec![Op::Step(0.1), Op::Rest, Op::Pull, Op::Twist, Op::Limit(0), Op::Limit(255), Op::Sleepy];
			for i in 0..w.ents.len() {
				if !alive[i] { continue; }
				for c in 0..w.cols[i].len() { if w.sys.get_collider(w.cols[i][c]).is_none() && !gone.contains(&(i, c)) { gone.push((i, c)); } }
				alpha.extend([Op::RemE(i), Op::Mass(i, 0.0), Op::Mass(i, INF), Op::Push(i, v(0.3, -6.0, 0.0)), Op::Spin(i), Op::AddOn(i)]);
				for j in 0..w.ents.len() { if i != j && alive[j] { alpha.push(Op::Into(i, j)); } }
				for c in 0..w.cols[i].len() { if !gone.contains(&(i, c)) {
					alpha.extend([Op::RemC(i, c), Op::Unlink(i, c), Op::Resize(i, c)]);
					let j = (i + 1) % w.ents.len();
					if alive[j] { alpha.push(Op::Relink(i, c, j)); }
				} }
			}
			*ctx.of(&alpha)
		};
		if d == 1 { ctx.shard()?; }
		ctx.log(|| format!("-- {:?}", op));
		ctx.step();
		match op {
			Op::Step(dt) => w.tick(ctx, dt),
			Op::Rest => for _ in 0..8 { w.tick(ctx, 0.05); check(&w, &alive)?; },
			Op::RemE(i) => { ensure!(w.sys.remove_entity(w.ents[i]), "entity {} could not be removed", i); alive[i] = false; }
			Op::RemC(i, c) => { w.sys.remove_collider(w.cols[i][c]); gone.push((i, c)); }
			Op::Unlink(i, c) => { let h = w.cols[i][c]; ensure!(w.sys.link_collider(h, None).is_ok(), "unlinking failed"); }
			Op::Relink(i, c, j) => { let (h, e) = (w.cols[i][c], w.ents[j]); ensure!(w.sys.link_collider(h, Some(e)).is_ok(), "linking failed"); }
			Op::Resize(i, c) => {
				let h = w.cols[i][c];
				let x = match w.sys.get_collider(h).expect("collider vanished") {
					ColliderWrapper::Sphere(mut s) => { s.radius *= 2.0; s.center.x += 0.1; ColliderWrapper::Sphere(s) }
					ColliderWrapper::AlignedBox(mut s) => { s.max_corner.y += 2.0; ColliderWrapper::AlignedBox(s) }
					ColliderWrapper::Plane(mut s) => { s.position.y += 0.7; s.normal.x += 0.3; ColliderWrapper::Plane(s) }
					ColliderWrapper::Null(mut s) => { s.mass = 0.0; ColliderWrapper::Null(s) }
					ColliderWrapper::Mesh(mut s) => { s.position.y += 0.6; ColliderWrapper::Mesh(s) }
				};
				ensure!(w.sys.update_collider(h, x).is_ok(), "collider update refused");
			}
			Op::Into(i, j) => { let p = w.sys.get_entity(w.ents[j]).expect("entity vanished").position; w.edit(i, |e| e.position = p); }
			Op::Mass(i, m) => w.edit(i, |e| e.own_mass = m as f32),
			Op::Push(i, x) => w.edit(i, |e| e.velocity = f3(x)),
			Op::Spin(i) => w.edit(i, |e| { e.angular_velocity = f3(v(0.0, 7.0, 20.0)); e.rotation = f3(v(3.0, 0.5, 0.0)); }),
			Op::AddOn(i) => { let p = w.body(i).com; w.add(&Ent::new().own(1.0).at(p).col(sphere(0.5))); alive.push(true); }
			Op::Pull => { w.sys.add_unary_force_generator(Box::new(GravityGenerator::new(f3(v(-8.0, 30.0, 0.0))))).expect("generator refused"); }
			Op::Twist => { w.sys.add_unary_force_generator(Box::new(Twist)).expect("generator refused"); }
			Op::Limit(n) => w.sys.iteration_max = n,
			Op::Sleepy => w.sys.sleep_time_threshold = 0.0,
		}
		if !w.sys.collision_records.is_empty() { ctx.interesting(); }
		check(&w, &alive)?;
	}
	Ok(())
}
