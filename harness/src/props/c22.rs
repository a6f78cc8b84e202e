//! C22 - every frame is as good as any other.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::scenes::{self, *};
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C22", body,
	rule: "every scene of scenes.rs (loose balls, many-collider bodies against each other, planes sharing an entity, box and mesh floors, a tetrahedron on a plane and on a mesh, a moving immovable box, sleepers being hit) x placements x velocities x restitution/friction x step length x iteration limit x force generators, run as it is and again under every one of the 48 signed axis permutations, under translations (two of them 130 to 290 away), under boosts (where forces do not depend on speed or place), and under combinations; records and states of all steps, transformed back, are compared; non-trivial when something collided",
	assumptions: &["judged are the steps in which the same collisions happen when everything is nudged by 1e-5 four ways; rounding may move the result at most twice as far as such a nudge does (plus 6e-5, more the farther and faster the frame, and twentyfold for spins; where boxes or meshes take part plus 1e-3, tripled by every collision)", "translations stay within ten units, except two far frames, which are judged against a reference nudged twenty times as far and up to the first step with collisions; boosts within a few units per second, so that single precision still resolves the scene", "reflected meshes get their faces wound the other way, so that they keep facing outward"],
};

#[derive(Debug, Clone, Copy)]
struct Frame { p: M3, t: V3, boost: V3 }
impl Frame {
	fn det(&self) -> f64 { self.p.det() }
	/// Axial vectors.
	fn ax(&self, a: V3) -> V3 { self.p.mv(a) * self.det() }
	fn conj(&self, m: &M3) -> M3 { self.p.mm(m).mm(&self.p.t()) }
	fn at(&self, a: V3, time: f64) -> V3 { self.p.mv(a) + self.t + self.boost * time }
	fn shape(&self, s: &Shape) -> Shape {
		let p = |a: &V3| self.p.mv(*a);
		match s {
			Shape::Null { pos, tensor } => Shape::Null { pos: p(pos), tensor: self.conj(tensor) },
			Shape::Sphere { c, r } => Shape::Sphere { c: p(c), r: *r },
			Shape::Plane { p: q, n } => Shape::Plane { p: p(q), n: p(n) },
			Shape::Box { pos, a, b } => { let (x, y) = (p(a), p(b)); Shape::Box { pos: p(pos), a: v(x.x.min(y.x), x.y.min(y.y), x.z.min(y.z)), b: v(x.x.max(y.x), x.y.max(y.y), x.z.max(y.z)) } }
			Shape::Mesh { pos, faces } => Shape::Mesh { pos: p(pos), faces: faces.iter().map(|f| { let mut f: Vec<V3> = f.iter().map(p).collect(); if self.det() < 0.0 { f.reverse(); } f }).collect() },
		}
	}
	fn ent(&self, e: &Ent) -> Ent {
		Ent { pos: self.at(e.pos, 0.0), rot: self.ax(e.rot), vel: self.p.mv(e.vel) + self.boost, w: self.ax(e.w), own: e.own, cols: e.cols.iter().map(|c| Col { shape: self.shape(&c.shape), ..c.clone() }).collect() }
	}
	fn gen(&self, g: &Gen) -> Gen { match g { Gen::Gravity(a) => Gen::Gravity(self.p.mv(*a)), Gen::Spring(at, k, grab) => Gen::Spring(self.at(*at, 0.0), *k, self.p.mv(*grab)), Gen::Drag(k) => Gen::Drag(*k), Gen::Flock(k) => Gen::Flock(*k) } }
	fn body(&self, b: &Body, time: f64) -> Body {
		Body { com: self.at(b.com, time), rot: self.conj(&b.rot), vel: self.p.mv(b.vel) + self.boost, w: self.ax(b.w), inertia: if b.movable() { self.conj(&b.inertia) } else { b.inertia }, off: self.p.mv(b.off), ..b.clone() }
	}
}

fn body(ctx: &mut Ctx) -> R {
	let s = scenes::pick(ctx, SCENES)?;
	let base = reference(ctx, &s);
	if base.run.is_empty() { ctx.outcome("hangs on a hair"); return Err(Stop::Skip); }
	let perms = signed_perms();
	let id = M3::id();
	let mut frames: Vec<Frame> = perms.iter().map(|p| Frame { p: *p, t: O, boost: O }).collect();
	for t in [v(7.3, -2.1, 4.9), v(-0.4, 9.7, 0.3), v(-5.0, -6.0, 3.0)] { frames.push(Frame { p: id, t, boost: O }); }
	frames.push(Frame { p: perms[29], t: v(-3.3, 0.7, 5.1), boost: O });
	// Forces that depend on where or how fast something is, and sleep, single out a frame.
	if !s.sleep && s.gens.iter().all(|g| matches!(g, Gen::Gravity(_) | Gen::Flock(_))) {
		for b in [v(2.7, -1.3, 0.9), v(0.0, 5.1, 0.0), v(-4.3, -3.7, 2.2)] { frames.push(Frame { p: id, t: O, boost: b }); }
		frames.push(Frame { p: perms[17], t: v(1.1, 2.2, -3.3), boost: v(0.7, 0.2, -1.9) });
	}
	// Far out: rounding there is beyond the usual nudges.
	let near = frames.len();
	for t in [v(130.0, -210.0, 85.0), v(-20.0, 30.0, -290.0)] { frames.push(Frame { p: id, t, boost: O }); }
	let which = ctx.pick(frames.len());
	let f = frames[which];
	let base = if which < near { base } else { let mut key = ctx.chosen(); key.pop(); reference_by(ctx, &s, 2e-4, key) };
	if base.run.is_empty() { ctx.outcome("hangs on a hair far out"); return Err(Stop::Skip); }
	if base.run.iter().any(|x| !x.recs.is_empty()) { ctx.interesting(); ctx.outcome("collisions"); }
	log_scene(ctx, &s.ents);
	ctx.log(|| format!("-- again, moved by {:?}", f));
	let ents: Vec<Ent> = s.ents.iter().map(|e| f.ent(e)).collect();
	log_scene(ctx, &ents);
	let gens: Vec<Gen> = s.gens.iter().map(|g| f.gen(g)).collect();
	let mut time = 0.0;
	let mut want = base.map(|x| {
		let recs: Vec<Rec> = x.recs.iter().map(|r| Rec { pos: f.at(r.pos, time + r.t), n: f.p.mv(r.n), ..r.clone() }).collect();
		time += if x.cut { x.recs[x.recs.len() - 1].t } else { s.dt };
		Seen { bodies: x.bodies.iter().map(|b| f.body(b, time)).collect(), recs, cut: x.cut }
	});
	let got = run(ctx, W::build(&ents), &s, &gens);
	if which >= near {
		// Claimed as far as the first step in which something collides.
		let first = want.run.iter().position(|x| !x.recs.is_empty()).map(|k| k + 1).unwrap_or(want.run.len());
		want.run.truncate(first);
		if got[..first].iter().any(|x| tied(x, s.dt, 2e-4)) { ctx.outcome("hangs on a hair far out"); return Err(Stop::Skip); }
		ctx.outcome("far out");
	}
	compare(ctx, &s, &want, &got, 2.0 + f.t.len().min(300.0) + f.boost.len(), "in the other frame")
}
