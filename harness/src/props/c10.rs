//! C10 - sphere against box (starting clear).
use super::c09::*;
use super::Prop;
use crate::engine::*;
use crate::geom::*;
use crate::m::*;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C10", body,
	rule: "every scene sphere/box over: box corners (cube, flat, long, asymmetric about its origin, corners given in swapped order) x box size (0.1, 1, 40) x collider position (up to far from the origin) x entity pose x turning during the step x target feature (6 faces, 12 edges, 8 corners) x approach direction x radius (from 1 for big ones) x gap x lateral error x speed/step x who moves (or whether the sphere sits on a swinging arm) x insertion order; the oracle finds the exact first touch on the box surface; non-trivial when it touches or passes within two radii",
	assumptions: &["the sphere starts clear of the box; passes within 0.6% of the radius of grazing and touches in the last 0.2% of the step are don't-cares", "while the box turns, the sphere's centre goes straight as seen from the box (documented linearisation); scenes in which the touching points really do not approach by then, or in which arc and chord differ by more than half of what the sphere covers, are don't-cares"],
};

fn body(ctx: &mut Ctx) -> R {
	let boxes = [
		(v(-0.5, -0.5, -0.5), v(0.5, 0.5, 0.5)),
		(v(0.0, 0.0, 0.0), v(1.0, 2.0, 3.0)),
		(v(-5.0, -0.1, -5.0), v(5.0, 0.1, 5.0)),
		(v(1.0, 0.3, 0.2), v(-0.25, -0.1, 2.0)),
		(v(-0.05, -8.0, -0.05), v(0.1, 8.0, 0.1)),
	];
	let (a, b) = *ctx.of(&boxes);
	let size = *ctx.of(&[1.0, 0.1, 40.0]);
	let (a, b) = (a * size, b * size);
	let ts = targets(&box_faces(a, b));
	let target = *ctx.of(&ts);
	ctx.shard()?;
	let cpos = *ctx.of(&[O, v(0.7, -0.4, 1.1), v(-14.0, 9.0, 20.0) * size.min(1.0)]);
	let poses = [(O, O, 0.0), (v(3.0, -2.0, 5.0), v(0.7, -0.4, 1.2), 0.0), (v(-60.0, 1.0, 30.0), v(0.0, 1.57079632679, 0.0), 0.0)];
	let pose = *ctx.of(&poses[..if ctx.thorough { 3 } else { 2 }]);
	let spins = [O, v(0.0, 0.05, 0.0), v(-0.2, 0.1, 0.25), v(0.0, -0.6, 0.0)];
	let spin = *ctx.of(&if ctx.thorough { spins.to_vec() } else { vec![spins[0], spins[2]] });
	let r = *ctx.of(if size > 1.0 { &[1.0, 8.0][..] } else if ctx.thorough { &[0.07, 0.5, 1.0, 4.0][..] } else { &[0.1, 1.0][..] });
	let poly = Poly { shape: Shape::Box { pos: cpos, a, b }, targets: vec![] };
	let th = ctx.thorough;
	sweep(ctx, &poly, pose, spin, target + cpos, r, th)
}
