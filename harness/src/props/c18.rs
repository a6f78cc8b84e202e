//! C18 - waking.
use super::Prop;
use crate::engine::*;
use crate::hist::*;

pub const PROP: Prop = Prop {
	id: "C18", body,
	rule: "every history over 12 worlds (a dozen balls in a row, ball on a plane, box or mesh, stacks of two and three, touching row, touching balls in space, corner, falling ball, turning and moving immovable bodies) x restitution x energy threshold x time threshold x step length x iteration limit: up to two interventions (pushes hard/soft/tiny, stop, unchanged store, teleport, mass change, removal of any body including the floor, a ball shot at or dropped on any body, spin, turn, nudge, twist, gravity changes) placed before any steps of the horizon; after every step and every intervention the state is compared with a wake-propagation model kept from outside (energies, contacts from the records); non-trivial when something fell asleep, woke or collided",
	assumptions: &["energies within 0.1 percent of the threshold are not judged", "worlds of spheres with mass or none-turning inertia on immovable floors; what falls asleep together is judged by recorded contacts"],
};
fn body(ctx: &mut Ctx) -> R { histories(ctx, Who::C18) }
