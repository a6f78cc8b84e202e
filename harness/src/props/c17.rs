//! C17 - sleeping.
use super::Prop;
use crate::engine::*;
use crate::hist::*;
use crate::m::*;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C17", body,
	rule: "every history over 12 worlds (a dozen balls in a row, ball on a plane, box or mesh, stacks of two and three, touching row, touching balls in space, corner, falling ball, turning and moving immovable bodies, slowly drifting and turning bodies in space) x restitution x energy threshold x time threshold x step length x iteration limit: up to two interventions (pushes hard/soft/tiny, stop, unchanged store, teleport, mass change, removal of any body including the floor, a ball shot at or dropped on any body, spin, turn, nudge, twist, gravity changes) placed before any steps of the horizon; after every step and every intervention the state is compared with a sleep-timer automaton kept from outside (energies, contacts from the records); plus bodies whose energy is exactly, or one unit in the last place above or below, the threshold (also thresholds of zero and below), alone and beside others; non-trivial when something fell asleep, woke or collided",
	assumptions: &["energies within 0.1 percent of the threshold are not judged", "worlds of spheres with mass or none-turning inertia on immovable floors; what falls asleep together is judged by recorded contacts"],
};
fn body(ctx: &mut Ctx) -> R { if ctx.pick(2) == 0 { histories(ctx, Who::C17) } else { edge(ctx) } }

/// Bodies whose energy is exactly (or hardly above or below) the threshold, drifting where nothing is.
fn edge(ctx: &mut Ctx) -> R {
	let kind = ctx.pick(7);
	let near = ctx.pick(5);
	ctx.shard()?;
	let dt = *ctx.of(&[0.25, 0.125, 1.0]);
	let t = *ctx.of(&[0.0, 0.25, 1.0, 2.0]);
	let others = ctx.pick(3);
	// All of this is exact in single precision.
	let (e, energy) = match kind {
		0 => (Ent::new().own(1.0).vel(v(1.0, 0.0, 0.0)), 0.5),
		1 => (Ent::new().own(2.0).vel(v(0.0, -2.0, 0.0)), 4.0),
		2 => (Ent::new().own(0.5).col(sphere(0.5).mass(1.5)).vel(v(0.0, 0.0, 0.25)), 0.0625),
		3 => (Ent::new().own(1.0), 0.0),
		4 => (Ent::new().own(INF).col(sphere(0.5)), 0.0),
		5 => (Ent::new().vel(v(0.0, 3.0, 0.0)).w(v(1.0, 0.0, 0.0)), 0.0), // nothing to have energy with
		_ => (Ent::new().own(INF).vel(v(1.0, 0.0, 0.0)), INF),
	};
	let ulp = (2.0f64).powi(-23);
	let thr = if energy == 0.0 || !energy.is_finite() { [0.0, 1e-30, -1e-30, -1.0, 1e30][near] } else { energy * [1.0, 1.0 + ulp, 1.0 - ulp, 0.5, 2.0][near] };
	let mut es = vec![e.at(v(10.0, -4.0, 3.0))];
	// Others neither speed this up nor hold it off.
	match others {
		1 => es.insert(0, Ent::new().own(3.0).at(v(500.0, 0.0, 0.0)).vel(v(0.0, 0.0, 70.0))),
		2 => es.push(Ent::new().own(1e-3).at(v(-500.0, 0.0, 0.0))),
		_ => {}
	}
	let me = (others == 1) as usize;
	let mut w = W::build(&es);
	w.sys.energy_sleep_threshold = thr as f32;
	w.sys.sleep_time_threshold = t as f32;
	log_scene(ctx, &es);
	ctx.log(|| format!("energy {}, energy threshold {}, time threshold {}", energy, thr, t));
	let slow = energy <= thr;
	let need = (t / dt) as usize;
	for k in 1..need + 6 {
		w.tick(ctx, dt);
		let b = w.body(me);
		if slow { ctx.interesting(); }
		ensure!(!b.asleep || slow, "entity {} of energy {} was put to sleep (threshold {})", me, energy, thr);
		// It has to have been slow at the end of every step for that time before the one that puts it to sleep.
		ensure!(!b.asleep || k > need, "entity {} was put to sleep by step {} of {} (time threshold {})", me, k, dt, t);
		ensure!(!b.asleep || (b.vel == O && b.w == O), "entity {} moves though it is asleep", me);
		ensure!(!slow || b.asleep || k < need + 4, "entity {} of energy {} is not asleep after {} steps of {} (thresholds {}, {})", me, energy, k, dt, thr, t);
		ctx.outcome(if b.asleep { "asleep on the edge" } else { "awake on the edge" });
	}
	Ok(())
}
