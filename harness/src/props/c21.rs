//! C21 - order independence.
use super::Prop;
use crate::engine::*;
use crate::scenes::{self, *};
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C21", body,
	rule: "every scene of scenes.rs (loose balls, many-collider bodies against each other, planes sharing an entity, box and mesh floors, a tetrahedron on a plane and on a mesh, a moving immovable box, sleepers being hit) x placements x velocities x restitution/friction x step length x iteration limit x force generators, run once in the natural order and once for every order of adding the entities x every iteration order of the collider sets (forced: the world is rebuilt under other hash keys until every set iterates as wanted) x link order x every order of the generators; records and states of all steps are compared; non-trivial when something collided",
	assumptions: &["judged are the steps in which the same collisions happen when everything is nudged by 1e-5 four ways; rounding may move the result at most twice as far as such a nudge does (plus 3e-5; where boxes or meshes take part plus 1e-3, tripled by every collision, as next to an edge the normal is only as good as the square root of rounding)"],
};

fn perm(n: usize, mut k: usize) -> Vec<usize> {
	let mut rest: Vec<usize> = (0..n).collect();
	let mut r = vec![];
	for i in (1..=n).rev() { let j = k % i; k /= i; r.push(rest.remove(j)); }
	r
}
fn fact(n: usize) -> usize { (1..=n).product() }

fn body(ctx: &mut Ctx) -> R {
	let s = scenes::pick(ctx, SCENES)?;
	let base = reference(ctx, &s);
	if base.run.is_empty() { ctx.outcome("hangs on a hair"); return Err(Stop::Skip); }
	if base.run.iter().any(|x| !x.recs.is_empty()) { ctx.interesting(); ctx.outcome("collisions"); }
	let n = s.ents.len();
	let order = perm(n, ctx.pick(fact(n)));
	// Iteration orders wanted of the sets of colliders.
	let mut sets: Vec<Vec<usize>> = vec![];
	for e in &s.ents { let c = e.cols.len(); sets.push(if c < 2 { (0..c).collect() } else { perm(c, ctx.pick(fact(c))) }); }
	// Colliders are linked in this order.
	let back = if ctx.thorough { ctx.flag() } else { order[0] != 0 };
	let gens = perm(s.gens.len(), if ctx.thorough || order[0] == 0 { ctx.pick(fact(s.gens.len())) } else { 1 });
	log_scene(ctx, &s.ents);
	ctx.log(|| format!("-- again: entities in order {:?}, collider sets iterating in orders {:?}, generators in order {:?}", order, sets, gens));
	let mut other = None;
	for _ in 0..20000 {
		let mut es = s.ents.clone();
		if back { for e in es.iter_mut() { e.cols.reverse(); } }
		let mut w = W::build_in_order(&es, &order);
		if back { for c in w.cols.iter_mut() { c.reverse(); } }
		let fits = (0..n).all(|i| {
			if sets[i].len() < 2 { return true; }
			let want: Vec<_> = sets[i].iter().map(|k| w.cols[i][*k]).collect();
			let is: Vec<_> = w.sys.get_entity(w.ents[i]).expect("entity vanished").get_colliders().into_iter().collect();
			want == is
		});
		if fits { other = Some(w); break; }
	}
	let other = match other { Some(w) => w, None => { ctx.outcome("unreachable set order"); return Err(Stop::Skip); } };
	let gs: Vec<Gen> = gens.iter().map(|k| s.gens[*k]).collect();
	let got = run(ctx, other, &s, &gs);
	compare(ctx, &s, &base, &got, 1.0, "in the other order")
}
