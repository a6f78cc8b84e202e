//! C28 - where time is cut into steps makes no difference to what collides.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::scenes::{self, *};
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C28", body,
	rule: "every force-free scene of balls against balls, planes, boxes and meshes (also moving ones) x placements x velocities x restitution/friction x length, run once in one step and once cut into steps in every way of a family: equal parts, uneven parts, and cuts just before, at and just after each of the collisions; collisions (by time since the start) and final states are compared; non-trivial when something collided",
	assumptions: &["no forces (integration depends on the step by design), nothing whose contacts depend on how turning within a step is approximated", "enough iterations", "compared as in C21"],
};

fn body(ctx: &mut Ctx) -> R {
	let mut s = scenes::pick_in(ctx, SMOOTH, false, true)?;
	if s.limit != 5 { return Err(Stop::Skip); }
	s.limit = 60;
	s.steps = 1;
	s.dt = if s.dt < 0.2 { 0.4 } else { 1.1 };
	let base = reference(ctx, &s);
	if base.run.is_empty() { ctx.outcome("hangs on a hair"); return Err(Stop::Skip); }
	let recs = base.run[0].recs.clone();
	if base.run[0].cut { return Err(Stop::Skip); }
	if !recs.is_empty() { ctx.interesting(); ctx.outcome("collisions"); }
	// The fractions at which to cut.
	let mut cuts: Vec<Vec<f64>> = vec![vec![0.5], vec![0.1], vec![0.93], vec![0.3, 0.4], vec![0.2, 0.4, 0.6, 0.8], (1..16).map(|i| i as f64 / 16.0).collect()];
	for r in &recs { for d in [-1e-2, -1e-3, -1e-4, 0.0, 1e-4, 1e-3, 1e-2] { let at = r.t / s.dt + d; if 1e-3 < at && at < 1.0 - 1e-3 { cuts.push(vec![at]); } } }
	// Two at a time.
	for (i, r) in recs.iter().enumerate() { for q in &recs[i + 1..] { for (x, y) in [(0.0, 0.0), (1e-4, -1e-4), (-1e-4, 1e-4), (1e-3, 1e-3)] { let (x, y) = (r.t / s.dt + x, q.t / s.dt + y); if 1e-3 < x && x + 1e-3 < y && y < 1.0 - 1e-3 { cuts.push(vec![x, y]); } } } }
	if recs.len() >= 2 { cuts.push(recs.iter().map(|r| r.t / s.dt).filter(|at| 1e-3 < *at && *at < 1.0 - 1e-3).collect()); }
	let cut = ctx.of(&cuts).clone();
	log_scene(ctx, &s.ents);
	ctx.log(|| format!("-- again, cut at {:?}", cut));
	let mut w = W::build(&s.ents);
	w.sys.iteration_max = s.limit;
	w.drowsy();
	let mut last = 0.0;
	let mut all = vec![];
	for at in cut.iter().chain([1.0].iter()) {
		// A length that single precision can hold.
		let dt = r32((at - last) * s.dt);
		if dt < 2e-6 { continue; }
		w.tick(ctx, dt);
		for r in w.recs() { all.push(Rec { t: r.t + last * s.dt, ..r }); }
		last += dt / s.dt;
	}
	let got = Seen { bodies: w.bodies(), cut: false, recs: all };
	compare(ctx, &s, &base, &[got], 2.0, "cut into steps")
}
