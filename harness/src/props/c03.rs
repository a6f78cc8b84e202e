//! C03 - round trip of stored values, and atomic refusal.
use super::Prop;
use crate::engine::*;
use crate::geom::*;
use crate::m::*;
use crate::store::*;
use crate::world::*;
use fluffy_tribble::*;

pub const PROP: Prop = Prop {
	id: "C03", body,
	rule: "every pair (value stored first, value offered next) over per-field boundary, typical and huge values of entities and of the five collider kinds (including values that break exactly one rule, and values of another kind), offered by add or by update, on unlinked and linked objects (owner moving, spinning, resting with other colliders, asleep); after it everything stored is read back and compared; non-trivial always",
	assumptions: &["NaN values are outside the domain", "rotations are compared as rotations; positions of entities whose centre of mass is recomputed from colliders are compared to 1e-5"],
};

struct Val { c: Col, ok: bool }
fn val(c: Col, ok: bool) -> Val { Val { c, ok } }

fn values(kind: usize) -> Vec<Val> {
	let mut r = vec![];
	match kind {
		0 => for (m, ok) in [(1.0, true), (0.0, true), (INF, true), (1e-4, true), (1e-30, true), (3e7, true), (-1e-30, false), (-1e-3, false), (-INF, false)] {
			for (p, t) in [(O, M3::id()), (v(1.5, -2.0, 0.25), M3::rows(v(2.0, 0.5, -0.25), v(0.5, 3.0, 0.125), v(-0.25, 0.125, 4.0))), (v(0.0, 8.0, 0.0), M3::ZERO)] { r.push(val(null(p, m, t), ok)); }
		},
		1 => {
			for (q, ok) in [(1.0, true), (0.0501, true), (0.05f32.next_up() as f64, true), (200.0, true), (1e7, true), (0.05, false), (0.05f32.next_down() as f64, false), (0.0, false), (-1.0, false), (0.049, false)] {
				for p in [O, v(1.5, -2.0, 0.25)] { r.push(val(sphere_at(p, q).mass(1.0), ok)); }
			}
			for (m, ok) in [(0.0, true), (INF, true), (1e-4, true), (3e7, true), (-1e-3, false), (-INF, false)] { r.push(val(sphere(2.0).mass(m), ok)); }
			// Hardly different from others.
			for (q, m) in [(2.0, 1.0), (2.0001, 1.0), (2.0, 1.0001), (200.0001, 1.0), (2.0, 1e-30)] { r.push(val(sphere(q).mass(m), true)); }
			for d in [v(1e-5, 0.0, 0.0), v(0.0, 0.0, -1e-6)] { r.push(val(sphere_at(v(1.5, -2.0, 0.25) + d, 1.0).mass(1.0), true)); }
			r.push(val(sphere(0.01).mass(-1.0), false));
		}
		2 => {
			for (n, ok) in [(v(0.0, 1.0, 0.0), true), (v(0.0, 1.004, 0.0), true), (v(0.0, 0.996, 0.0), true), (v(0.0, 1.0001, 0.0), true), (v(0.0, 1.0, 0.0002), true), (v(-0.6, 0.0, 0.8002), true), (v(0.0, 0.0, -7.0), true), (v(1.0, 2.0, 3.0), true), (v(1e-3, 0.0, 0.0), true), (v(-0.001, 0.002, 0.001), true), (v(300.0, -400.0, 0.0), true), (v(0.0, -1e-5, 1e-5), true), (v(0.0, 0.0, 2e-6), true), (v(1e-4, 0.0, 1e-4), true), (v(3e6, 0.0, 4e6), true), (O, false), (v(0.0, 5e-7, 0.0), false), (v(1e-8, 0.0, 0.0), false)] {
				for p in [O, v(1.5, -2.0, 0.25)] { r.push(val(plane(p, n), ok)); }
			}
			for (m, ok) in [(3.0, true), (3e7, true), (INF, true), (-1e-3, false)] { r.push(val(plane(O, v(1.0, 2.0, 3.0)).mass(m), ok)); }
		}
		3 => {
			for s in 0..8 {
				let (lo, hi) = (v(-0.5, 0.25, -3.0), v(0.5, 2.0, -1.0));
				let sw = |i: u32, a: f64, b: f64| if s >> i & 1 == 1 { (b, a) } else { (a, b) };
				let (x, y, z) = (sw(0, lo.x, hi.x), sw(1, lo.y, hi.y), sw(2, lo.z, hi.z));
				r.push(val(boxx(v(0.125, 0.0, 4.0), v(x.0, y.0, z.0), v(x.1, y.1, z.1)).mass(1.5), true));
			}
			for k in 0..3 {
				let mut b = v(1.0, 2.0, 3.0);
				match k { 0 => b.x = 0.0, 1 => b.y = 0.0, _ => b.z = 0.0 }
				r.push(val(boxx(O, O, b), false));
				let mut b = v(1.0, 2.0, 3.0);
				match k { 0 => b.x = 1e-8, 1 => b.y = -1e-8, _ => b.z = 1e-8 }
				r.push(val(boxx(O, O, b), false));
				let mut b = v(1.0, 2.0, 3.0);
				match k { 0 => b.x = 0.001, 1 => b.y = -0.001, _ => b.z = 0.001 }
				r.push(val(boxx(O, O, b), true));
				for (d, ok) in [(2e-6, true), (-2e-6, true), (5e-7, false), (-5e-7, false)] {
					let mut b = v(1.0, -2.0, 3.0);
					match k { 0 => b.x = d, 1 => b.y = d, _ => b.z = d }
					r.push(val(boxx(O, O, b), ok));
				}
			}
			for d in [v(1e-5, 0.0, 0.0), v(0.0, 1e-4, 0.0), v(0.0, 0.0, -1e-5)] { r.push(val(boxx(v(0.125, 0.0, 4.0), v(-0.5, 0.25, -3.0), v(0.5, 2.0, -1.0) + d).mass(1.5), true)); r.push(val(boxx(v(0.125, 0.0, 4.0) + d, v(-0.5, 0.25, -3.0), v(0.5, 2.0, -1.0)).mass(1.5), true)); }
			for (m, ok) in [(0.0, true), (3e7, true), (INF, true), (-1e-3, false), (-INF, false)] { r.push(val(boxx(O, v(-1.0, -1.0, -1.0), v(1.0, 1.0, 1.0)).mass(m), ok)); }
		}
		_ => {
			let q = vec![vec![v(1.0, 1.0, 0.0), v(-1.0, 1.0, 0.0), v(-1.0, -1.0, 0.0), v(1.0, -1.0, 0.0)]];
			for p in [O, v(1.5, -2.0, 0.25)] {
				r.push(val(mesh(p, tetra(1.0)), true));
				r.push(val(mesh(p, tetra(1.0001)), true));
				// As many corners, edges and faces, but another size or place.
				r.push(val(mesh(p, tetra(2.0)), true));
				r.push(val(mesh(p, tetra(1.0).iter().map(|f| f.iter().map(|q| v(0.5, 0.25, -0.5) - *q).collect()).collect()), true));
				r.push(val(mesh(p, q.clone()), true));
				r.push(val(mesh(p, box_faces(O, v(1.0, 2.0, 3.0))), true));
				r.push(val(mesh(p, vec![]), false));
			}
		}
	}
	// Materials: valid whatever they are.
	// (Restitution, static, dynamic, threshold), in every order of size, and at their limits.
	let mats = [
		(0.0, 0.0, 0.0, 0.0), (1.0, 1.0, 1.0, 1.0), (0.25, 0.5, 0.75, 1.0), (1.0, 0.75, 0.5, 0.25), (0.5, 0.25, 1.0, 0.75), (0.75, 1.0, 0.25, 0.5),
		(1.0, 0.0, 0.0, 0.0), (0.0, 1.0, 0.0, 0.0), (0.0, 0.0, 1.0, 0.0), (0.0, 0.0, 0.0, 1.0), (0.001, 0.002, 0.003, 5.0), (2.0, 1.5, 3.0, 1e-4),
	];
	for (i, x) in r.iter_mut().enumerate() { let m = mats[i % mats.len()]; x.c = x.c.clone().rest(m.0).fric(m.1, m.2, m.3); }
	// Every material on a valid value of every kind.
	let base = r.iter().find(|x| x.ok).map(|x| x.c.clone());
	if let Some(c) = base { for m in mats.iter() { if kind > 0 { r.push(val(c.clone().rest(m.0).fric(m.1, m.2, m.3), true)); } } }
	r
}

/// Everything that can be read about the system's objects, for "nothing changed".
struct Snap { bodies: Vec<Option<(Body, Vec<String>)>>, cols: Vec<String> }
impl Snap {
	/// Equal, but for rounding in derived poses and inertias.
	fn same(&self, o: &Snap) -> bool {
		self.cols == o.cols && self.bodies.len() == o.bodies.len() && self.bodies.iter().zip(&o.bodies).all(|(a, b)| match (a, b) {
			(None, None) => true,
			(Some((a, la)), Some((b, lb))) => la == lb && a.vel == b.vel && a.w == b.w && a.own == b.own && a.asleep == b.asleep && a.rot.max_diff(&b.rot) < 1e-6
				&& near(a.com, b.com, 1e-5 * (1.0 + a.com.len())) && near(a.off, b.off, 1e-5 * (1.0 + a.off.len())) && (a.mass == b.mass || (a.mass - b.mass).abs() < 1e-5 * a.mass)
				&& (!a.mass.is_finite() || a.inertia.max_diff(&b.inertia) < 1e-5 * (1.0 + a.inertia.max_abs())),
			_ => false,
		})
	}
	fn show(&self) -> String { format!("{:?} {:?}", self.bodies, self.cols) }
}
fn snapshot(w: &W) -> Snap {
	Snap {
		bodies: w.ents.iter().map(|h| w.sys.get_entity(*h).map(|e| { let mut l: Vec<String> = e.get_colliders().iter().map(|x| format!("{:?}", x)).collect(); l.sort(); (body_of(&e), l) })).collect(),
		cols: w.cols.iter().flatten().map(|c| match w.sys.get_collider(*c) { Some(ColliderWrapper::Null(x)) => format!("{:?}", x), Some(ColliderWrapper::Sphere(x)) => format!("{:?}", x), Some(ColliderWrapper::Plane(x)) => format!("{:?}", x), Some(ColliderWrapper::Mesh(x)) => format!("{:?}", x), Some(ColliderWrapper::AlignedBox(x)) => format!("{:?}", x), None => "gone".into() }).collect(),
	}
}

/// The shape of a mesh cannot be read back, but balls can be shot at it: what they hit, where and when.
fn probe(w: &mut W, h: ColliderHandle) -> Vec<Option<Rec>> {
	let at = v(500.0, 0.0, 0.0);
	let host = w.sys.add_entity(Ent::new().own(INF).at(at).public()).expect("entity refused");
	w.sys.link_collider(h, Some(host)).expect("link refused");
	for e in w.ents.clone() { w.sys.remove_entity(e); }
	let mut r = vec![];
	for aim in [v(0.23, 0.31, 0.17), v(0.9, 0.35, 0.3), v(1.5, -2.0, 0.25) + v(0.23, 0.31, 0.17), v(-0.4, 0.45, -0.3)] {
		for d in AXES.iter().chain([v(0.6, 0.48, 0.64)].iter()) {
			let b = w.sys.add_entity(Ent::new().own(1.0).at(at + aim + *d * 5.0).vel(*d * -10.0).public()).expect("entity refused");
			let c = w.sys.add_collider(sphere(0.06).wrap()).expect("collider refused");
			w.sys.link_collider(c, Some(b)).expect("link refused");
			w.sys.step(1.0);
			r.push(w.recs().into_iter().next());
			w.sys.remove_entity(b);
		}
	}
	r
}
/// Is it the same mesh as a newly added one of these values?
fn same_mesh(ctx: &mut Ctx, w: &mut W, h: ColliderHandle, c: &Col) -> R {
	let mut f = W::new();
	let n = f.sys.add_collider(c.wrap()).expect("collider refused");
	let (got, want) = (probe(w, h), probe(&mut f, n));
	for (k, (x, y)) in got.iter().zip(&want).enumerate() {
		match (x, y) {
			(None, None) => ctx.outcome("probe missed"),
			(Some(x), Some(y)) => { ctx.outcome("probe hit"); ensure!((x.t - y.t).abs() < 1e-5 && near(x.pos, y.pos, 1e-3) && (near(x.n, y.n, 1e-2) || near(x.n, -y.n, 1e-2)), "probe {}: the stored mesh is hit as {}, a fresh one of the same values as {}", k, x.show(), y.show()); }
			_ => bad!("probe {}: the stored mesh is {}hit, a fresh one of the same values is {}hit", k, if x.is_some() { "" } else { "not " }, if y.is_some() { "" } else { "not " }),
		}
	}
	Ok(())
}

fn colliders(ctx: &mut Ctx) -> R {
	let kind = ctx.pick(5);
	let vs = values(kind);
	let mode = ctx.pick(5); // add, update unlinked, update linked, linked with company, linked to a sleeper
	// What is there before.
	let firsts: Vec<&Val> = vs.iter().filter(|x| x.ok).collect();
	let first = *ctx.of(&firsts);
	ctx.shard()?;
	let okind = ctx.pick(5);
	let others = values(okind);
	let next = ctx.of(&others);
	if mode == 0 && okind != kind { return Err(Stop::Skip); }
	let mut w = W::new();
	let company = Ent::new().own(2.0).at(v(1.0, 2.0, 3.0)).rot(v(0.1, 0.9, -0.4)).vel(if mode == 4 { O } else { v(0.25, 0.0, 0.5) });
	let company = if mode == 3 { company.col(null(v(1.0, 1.0, 0.0), 2.0, M3::id())).col(first.c.clone()) } else if mode >= 2 { company.col(first.c.clone()) } else { company };
	w.add(&company);
	if mode < 2 { let h = match w.sys.add_collider(first.c.wrap()) { Ok(h) => h, Err(()) => bad!("valid value refused by add_collider: {:?}", first.c) }; w.cols[0].push(h); }
	let h = *w.cols[0].last().unwrap();
	if mode == 4 { for _ in 0..4 { w.step(0.1); } }
	if mode == 0 {
		let before = snapshot(&w);
		let r = w.sys.add_collider(next.c.wrap());
		ensure!(r.is_ok() == next.ok, "add_collider returned {:?} for {:?}", r.is_ok(), next.c);
		ensure!(snapshot(&w).same(&before), "adding a collider changed something else");
		if let Ok(n) = r { ensure!(n != h, "the same handle again"); match w.sys.get_collider(n) { Some(g) => { same_collider(&g, &next.c, 1)?; ensure!(owner_of(&g).is_none(), "a new collider has an owner"); if kind == 4 { same_mesh(ctx, &mut w, n, &next.c)?; } } None => bad!("the added collider is not there") } }
		ctx.outcome(if next.ok { "accepted" } else { "refused" });
	} else {
		let before = snapshot(&w);
		let valid = next.ok && okind == kind;
		let r = w.sys.update_collider(h, next.c.wrap());
		ensure!(r.is_ok() == valid, "update_collider returned {:?} for {:?} over {:?}", r.is_ok(), next.c, first.c);
		let g = match w.sys.get_collider(h) { Some(g) => g, None => bad!("the collider is gone") };
		let want_owner = if mode >= 2 { Some(w.ents[0]) } else { None };
		ensure!(owner_of(&g) == want_owner, "the update changed the owner to {:?}", owner_of(&g));
		if valid { same_collider(&g, &next.c, 0)?; if kind == 4 { same_mesh(ctx, &mut w, h, &next.c)?; } ctx.outcome("accepted"); } else {
			let after = snapshot(&w);
			ensure!(after.same(&before), "a refused update changed something: {} became {}", before.show(), after.show());
			if kind == 4 { same_mesh(ctx, &mut w, h, &first.c)?; }
			ctx.outcome(if okind != kind { "refused (other kind)" } else { "refused" });
		}
	}
	ctx.step();
	let mut f = Fp::new();
	f.u(kind as u64).u(okind as u64).u(mode as u64).u(next.ok as u64).u(w.fp());
	ctx.state(f.get());
	ctx.interesting();
	Ok(())
}

fn entities(ctx: &mut Ctx) -> R {
	let mode = ctx.pick(5); // add, update bare, update with a weightless collider, with massive colliders, asleep
	let masses = [(1.0, true), (0.0, true), (INF, true), (1e-4, true), (1e6, true), (2.5e7, true), (1e30, true), (-1e-4, false), (-1.0, false), (-INF, false)];
	let (m, ok) = *ctx.of(&masses);
	let p = *ctx.of(&[O, v(1.5, -2.0, 0.25), v(-1000.0, 0.0, 400.5), v(2e6, -3e5, 7.0)]);
	ctx.shard()?;
	let rot = *ctx.of(&[O, v(0.0, 1.0, 0.0), v(0.7, -0.4, 1.2), v(0.0, 0.0, 3.1), v(5.0, 0.0, 0.0), v(-8.0, 3.0, 2.0), v(1e-4, 0.0, 0.0), v(0.0, std::f64::consts::PI, 0.0)]);
	let vel = *ctx.of(&[O, v(0.25, -3.0, 1e-3), v(1e5, 0.0, 0.0), v(0.0, 0.01, -0.005), v(1e-7, 0.0, 0.0)]);
	let av = *ctx.of(&[O, v(-2.5, 0.125, 30.0), v(0.002, 0.0, -0.01)]);
	let prev = ctx.pick(if mode == 0 { 1 } else { 3 });
	let mut w = W::new();
	let base = match prev { 0 => Ent::new().own(2.0), 1 => Ent::new().own(0.0).at(v(3.0, 0.5, 1.0)).rot(v(0.0, 2.0, 1.0)).vel(v(1.0, 0.0, 0.0)).w(v(0.0, 0.0, 1.0)), _ => Ent::new().own(INF).at(v(0.0, 0.0, 9.0)).rot(v(1.0, 0.0, 0.0)) };
	let base = match mode { 2 => base.col(sphere_at(v(1.0, 0.0, 0.0), 0.5)), 3 => base.col(sphere_at(v(1.0, 0.0, 0.0), 0.5).mass(2.0)).col(null(v(0.0, -3.0, 1.0), 1.0, M3::id())), 4 => { let mut b = base.col(sphere(0.5)); b.vel = O; b.w = O; b } _ => base };
	w.add(&base);
	if mode == 4 { for _ in 0..4 { w.step(0.1); } ensure!(w.body(0).asleep, "a resting entity should be asleep by now"); }
	let want = Ent::new().own(m).at(p).rot(rot).vel(vel).w(av);
	let h = if mode == 0 {
		let before = snapshot(&w);
		let r = w.sys.add_entity(want.public());
		ensure!(r.is_ok() == ok, "add_entity returned {:?} for {:?}", r.is_ok(), want);
		ensure!(snapshot(&w).same(&before), "adding an entity changed something else");
		match r { Ok(h) => h, Err(()) => w.ents[0] }
	} else {
		let before = snapshot(&w);
		let mut e = w.sys.get_entity(w.ents[0]).expect("entity");
		e.position = f3(p); e.rotation = f3(rot); e.velocity = f3(vel); e.angular_velocity = f3(av); e.own_mass = m as f32;
		let r = w.sys.update_entity(w.ents[0], e);
		ensure!(r.is_ok() == ok, "update_entity returned {:?} for {:?}", r.is_ok(), want);
		if !ok { ensure!(snapshot(&w).same(&before), "a refused update changed something: {} became {}", before.show(), snapshot(&w).show()); }
		w.ents[0]
	};
	if ok {
		let e = w.sys.get_entity(h).expect("entity");
		let b = body_of(&e);
		let tol = if mode == 3 { 2e-5 * (1.0 + p.len()) } else { 0.0 };
		ensure!(near(b.com, p.r32(), tol), "position {:?} stored, {:?} read back", p.arr(), b.com.arr());
		ensure!(b.vel == vel.r32() && b.w == av.r32() && b.own == r32(m), "stored {:?}, read back {}", want, b.show());
		let want = M3::rot(rot.r32());
		ctx.dev("rotation", b.rot.max_diff(&want));
		ensure!(b.rot.max_diff(&want) < 1e-5, "rotation {:?} stored, read back as {:?}", rot.arr(), b.rot.0);
		ensure!(M3::rot(d3(&e.rotation)).max_diff(&want) < 1e-3, "rotation {:?} stored, rotation vector {:?} read back", rot.arr(), e.rotation);
		// What was read back can be stored again without changing anything.
		let again = w.sys.get_entity(h).expect("entity");
		ensure!(w.sys.update_entity(h, again).is_ok(), "storing what was read back is refused");
		let c = body_of(&w.sys.get_entity(h).expect("entity"));
		ensure!(near(c.com, b.com, tol) && c.vel == b.vel && c.w == b.w && c.own == b.own && c.rot.max_diff(&b.rot) < 1e-3, "storing what was read back changed {} to {}", b.show(), c.show());
		ctx.outcome("accepted");
	} else { ctx.outcome("refused"); }
	ctx.step();
	let f = w.fp();
	ctx.state(f);
	ctx.interesting();
	Ok(())
}

fn body(ctx: &mut Ctx) -> R { if ctx.flag() { entities(ctx) } else { colliders(ctx) } }
