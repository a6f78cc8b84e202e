//! C29 - what never touches does not matter.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::scenes::{self, *};
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C29", body,
	rule: "every scene of scenes.rs alone, and again together with every item of a list of company that never touches it (far bodies at rest, flying, spinning and asleep; bodies without colliders, massless ones, immovable ones, unlinked and null colliders in the midst of it; groups far away that collide, come to rest and fall asleep, or wake each other), put in before, in between or after; records and states of the scene are compared with those without company; non-trivial when something collided",
	assumptions: &["enough iterations for everybody", "company that collides is only kept by balls (collisions elsewhere cut the step, and contacts of what turns depend on the cuts)", "compared as in C21"],
};

fn far(k: usize) -> (Vec<Ent>, bool) {
	let ball = |p: V3, r: f64, m: f64| Ent::new().at(p).col(sphere(r).mass(m).fric(0.4, 0.3, 0.5).rest(0.9));
	let f = v(3.0, 140.0, -2.0);
	match k {
		// Alone.
		0 => (vec![ball(f, 0.5, 1.0)], false),
		1 => (vec![ball(f, 0.5, 1.0).vel(v(-3.0, 0.5, 2.0)).w(v(3.0, 7.0, 1.0)), Ent::new().own(INF).at(f + v(9.0, 0.0, 0.0)).vel(v(0.0, 2.0, 0.0)).w(v(0.0, 1.0, 0.0)).col(boxx(v(0.3, 0.0, 0.0), v(-1.0, -1.0, -1.0), v(1.0, 1.0, 1.0)))], false),
		// In the midst of it, but with nothing to hit.
		2 => (vec![Ent::new().own(1e3).at(v(0.0, 0.8, 0.0)).vel(v(5.0, -2.0, 1.0)).w(v(1.0, 0.0, 4.0))], false),
		3 => (vec![Ent::new().own(INF).at(v(0.1, 1.0, 0.0)), Ent::new().own(0.0).at(v(0.1, 1.0, 0.0)).vel(v(1.0, 1.0, 1.0)), Ent::new().own(1.0).at(v(0.2, 1.1, 0.0))], false),
		4 => (vec![Ent::new().at(v(0.3, 0.7, 0.2)).col(null(v(0.5, 0.0, 0.0), 30.0, M3::diag(3.0, 2.0, 1.0))).w(v(2.0, 0.0, 0.0))], false),
		// Massless, so nothing can push it.
		5 => (vec![Ent::new().at(v(0.0, 0.9, 0.1)).vel(v(0.5, 0.0, 0.0)).col(sphere(1.2))], false),
		// Groups with something going on.
		6 => (vec![ball(f, 0.5, 1.0).vel(v(8.0, 0.3, 0.0)), ball(f + v(1.3, 0.0, 0.0), 0.5, 2.0), ball(f + v(3.1, 0.4, 0.0), 0.5, 0.5).vel(v(-4.0, 0.0, 0.0))], true),
		7 => (vec![Ent::new().own(INF).at(f).col(boxx(O, v(-4.0, -1.0, -4.0), v(4.0, 0.0, 4.0)).rest(0.6).fric(0.3, 0.2, 0.5)), ball(f + v(0.0, 0.55, 0.0), 0.5, 1.0).vel(v(1.0, -7.0, 0.0)), ball(f + v(-1.5, 0.8, 0.5), 0.4, 1.5).vel(v(6.0, -3.0, -1.0))], true),
		8 => (vec![ball(f, 0.5, 1.0), ball(f + v(1.02, 0.0, 0.0), 0.5, 1.0), ball(f + v(2.04, 0.0, 0.0), 0.5, 1.0), ball(f + v(-4.0, 0.2, 0.1), 0.5, 1.0).vel(v(13.0, 0.0, 0.0))], true),
		// A crowd.
		_ => ((0..12).map(|i| ball(f + v(1.1 * i as f64, 0.1 * i as f64, 2.0), 0.5, 1.0 + i as f64).vel(v(0.0, 0.0, if i % 2 == 0 { 1.0 } else { -1.0 }))).collect(), false),
	}
}

fn body(ctx: &mut Ctx) -> R {
	let mut s = scenes::pick_in(ctx, ALL, true, false)?;
	if s.limit != 5 || s.gens.iter().any(|g| matches!(g, Gen::Flock(_) | Gen::Spring(..))) { return Err(Stop::Skip); }
	s.limit = 60;
	let base = reference(ctx, &s);
	if base.run.is_empty() { ctx.outcome("hangs on a hair"); return Err(Stop::Skip); }
	if base.run.iter().any(|x| x.cut) { return Err(Stop::Skip); }
	if base.run.iter().any(|x| x.bodies.iter().any(|b| b.com.len() > 70.0)) { ctx.outcome("flies too far"); return Err(Stop::Skip); }
	let smooth = SMOOTH.contains(&s.k) || s.sleep;
	let k = ctx.pick(if smooth { 10 } else { 7 });
	// (Scene 9 has a ceiling: nothing is far from that.)
	if s.k == 9 && !(2..6).contains(&k) { return Err(Stop::Skip); }
	let (company, busy) = far(if smooth || k < 6 { k } else { 9 });
	if base.run.iter().any(|x| !x.recs.is_empty()) { ctx.interesting(); ctx.outcome(if busy { "collisions here and there" } else { "collisions" }); }
	let loose = ctx.flag();
	// Where in the order the company comes.
	let place = ctx.pick(3);
	let mut ents = vec![];
	let mut mine = vec![];
	for i in 0..s.ents.len() + 1 {
		if (place == 0 && i == 0) || (place == 1 && i == 1) || (place == 2 && i == s.ents.len()) { ents.extend(company.iter().cloned()); }
		if i < s.ents.len() { mine.push(ents.len()); ents.push(s.ents[i].clone()); }
	}
	log_scene(ctx, &s.ents);
	ctx.log(|| format!("-- again, in company {}, place {}, {} unlinked colliders", k, place, if loose { "with" } else { "without" }));
	log_scene(ctx, &ents);
	let mut w = W::new();
	for (i, e) in ents.iter().enumerate() {
		if loose && i % 2 == 0 { w.sys.add_collider(sphere(1.0).mass(INF).wrap()).expect("collider refused"); }
		w.add(e);
	}
	if loose { w.sys.add_collider(boxx(O, v(-2.0, -2.0, -2.0), v(2.0, 2.0, 2.0)).mass(5.0).wrap()).expect("collider refused"); }
	let got = run(ctx, w, &s, &s.gens);
	let at = |i: usize| mine.iter().position(|k| *k == i);
	let mut seen = vec![];
	for x in got {
		if x.cut { return Err(Stop::Skip); }
		let mut recs = vec![];
		for r in x.recs {
			match (at(r.a), at(r.b)) {
				(Some(a), Some(b)) => recs.push(Rec { a, b, ..r }),
				(None, None) => { ctx.outcome("company collided"); ensure!(busy, "company that touches nothing collided: {}", r.show()); }
				_ => bad!("a collision with company that nothing touches: {}", r.show()),
			}
		}
		seen.push(Seen { bodies: mine.iter().map(|i| x.bodies[*i].clone()).collect(), recs, cut: false });
	}
	compare(ctx, &s, &base, &seen, if busy { 2.0 } else { 1.0 }, "in company")
}
