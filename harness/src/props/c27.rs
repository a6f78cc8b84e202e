//! C27 - no unit is special.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::scenes::{self, *};
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C27", body,
	rule: "every scene of scenes.rs x placements x velocities x restitution/friction x step length x iteration limit x force generators, run once as it is and once in every other system of units (mass, length and time each scaled, alone and together, up and down, by powers of two and not); what happened there is converted back, and records, states and sleep of all steps are compared; non-trivial when something collided",
	assumptions: &["units differ by no more than a factor of 64 (mass), 8 (length) and 8 (time), so that the library's absolute tolerances stay negligible", "compared as in C21: judged are the steps in which the same collisions happen when everything is nudged by 1e-5 four ways, and rounding may move the result at most twice as far as such a nudge does plus a floor"],
};

/// How many of the new units make one old one.
#[derive(Debug, Clone, Copy)]
struct Units { m: f64, l: f64, t: f64 }
impl Units {
	fn speed(&self) -> f64 { self.l / self.t }
	fn shape(&self, s: &Shape) -> Shape {
		let l = self.l;
		match s {
			Shape::Null { pos, tensor } => Shape::Null { pos: *pos * l, tensor: tensor.scale(self.m * l * l) },
			Shape::Sphere { c, r } => Shape::Sphere { c: *c * l, r: r * l },
			Shape::Plane { p, n } => Shape::Plane { p: *p * l, n: *n },
			Shape::Box { pos, a, b } => Shape::Box { pos: *pos * l, a: *a * l, b: *b * l },
			Shape::Mesh { pos, faces } => Shape::Mesh { pos: *pos * l, faces: faces.iter().map(|f| f.iter().map(|p| *p * l).collect()).collect() },
		}
	}
	fn ent(&self, e: &Ent) -> Ent {
		Ent { pos: e.pos * self.l, rot: e.rot, vel: e.vel * self.speed(), w: e.w * (1.0 / self.t), own: e.own * self.m, cols: e.cols.iter().map(|c| Col { shape: self.shape(&c.shape), mass: c.mass * self.m, ..c.clone() }).collect() }
	}
	fn gen(&self, g: &Gen) -> Gen {
		match g {
			Gen::Gravity(a) => Gen::Gravity(*a * (self.l / self.t / self.t)),
			Gen::Spring(at, k, grab) => Gen::Spring(*at * self.l, k * self.m / self.t / self.t, *grab * self.l),
			Gen::Drag(k) => Gen::Drag(k * self.m / self.t),
			Gen::Flock(k) => Gen::Flock(k / self.t),
		}
	}
	/// Converts back.
	fn seen(&self, x: &Seen) -> Seen {
		Seen {
			bodies: x.bodies.iter().map(|b| Body { com: b.com * (1.0 / self.l), vel: b.vel * (1.0 / self.speed()), w: b.w * self.t, mass: b.mass / self.m, own: b.own / self.m, inertia: if b.movable() { b.inertia.scale(1.0 / (self.m * self.l * self.l)) } else { b.inertia }, off: b.off * (1.0 / self.l), ..b.clone() }).collect(),
			recs: x.recs.iter().map(|r| Rec { pos: r.pos * (1.0 / self.l), t: r.t / self.t, j: r.j / (self.m * self.speed()), ..r.clone() }).collect(),
			cut: x.cut,
		}
	}
}

fn body(ctx: &mut Ctx) -> R {
	let s = scenes::pick(ctx, ALL)?;
	let base = reference(ctx, &s);
	if base.run.is_empty() { ctx.outcome("hangs on a hair"); return Err(Stop::Skip); }
	let u = |m, l, t| Units { m, l, t };
	let mut units = vec![
		u(16.0, 1.0, 1.0), u(0.125, 1.0, 1.0), u(3.0, 1.0, 1.0), u(64.0, 1.0, 1.0), u(0.015625, 1.0, 1.0),
		u(1.0, 4.0, 1.0), u(1.0, 0.25, 1.0), u(1.0, 3.0, 1.0), u(1.0, 8.0, 1.0),
		u(1.0, 1.0, 4.0), u(1.0, 1.0, 0.25), u(1.0, 1.0, 0.3), u(1.0, 1.0, 8.0), u(1.0, 1.0, 0.125),
		u(0.25, 4.0, 2.0), u(8.0, 0.5, 0.5), u(0.1, 6.0, 0.7), u(8.0, 2.0, 0.125),
	];
	if ctx.thorough { for m in [0.03, 1.0, 40.0] { for l in [0.2, 1.0, 7.0] { for t in [0.15, 1.0, 6.0] { units.push(u(m, l, t)); } } } }
	let u = *ctx.of(&units);
	// A mesh that turns on a mesh sinks in as far as turning is approximated within a step; how far that may be is an absolute length.
	if s.k == 5 && u.l != 1.0 { return Err(Stop::Skip); }
	if base.run.iter().any(|x| !x.recs.is_empty()) { ctx.interesting(); ctx.outcome("collisions"); }
	log_scene(ctx, &s.ents);
	let energy = u.m * u.speed() * u.speed();
	let t = Scene { ents: s.ents.iter().map(|e| u.ent(e)).collect(), gens: s.gens.iter().map(|g| u.gen(g)).collect(), dt: s.dt * u.t, drowsy: (s.drowsy.0 * energy, s.drowsy.1 * u.t), ..s.clone() };
	ctx.log(|| format!("-- again, in other units {:?}", u));
	log_scene(ctx, &t.ents);
	let got: Vec<Seen> = run(ctx, W::build(&t.ents), &t, &t.gens).iter().map(|x| u.seen(x)).collect();
	compare(ctx, &s, &base, &got, 2.0, "in other units")
}
