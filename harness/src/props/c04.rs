//! C04 - mass, centre of mass and inertia from the current parts, along every operation sequence.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::store::*;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C04", body,
	rule: "every sequence (to the depth bound, from several starting stores; shallower from an entity of a dozen parts and with everything asleep; with copies of what was read back added or stored, too) of link, unlink, relink, collider update (mass 0/small/large/infinite, centre, size), collider and entity removal, own-mass and pose updates, and steps with spin, over spheres, boxes, null colliders with a full tensor, planes and meshes; after each operation mass, centre of mass, local origin and world inertia of every entity are recomputed from its current parts in double precision",
	assumptions: &["inertia is not compared while a part has infinite mass (nothing can turn it)", "relative tolerance 5e-4"],
};

fn body(ctx: &mut Ctx) -> R {
	let skew = M3::rot(v(0.4, 0.9, -0.2));
	let tensor = { let t = skew.mm(&M3::diag(1.0, 2.0, 2.5)).mm(&skew.t()); let mut r = t; for i in 0..3 { for j in 0..3 { r.0[i][j] = r32(0.5 * (t.0[i][j] + t.0[j][i])); } } r };
	let mut cfg = Cfg {
		cols: vec![
			vec![sphere_at(v(1.0, 0.5, -2.0), 2.0).mass(2.0), sphere_at(v(0.0, -1.5, 0.25), 0.5).mass(40.0), sphere_at(v(1.0, 0.5, -2.0), 2.0).mass(INF), sphere_at(v(-1.0, 0.5, 0.25), 1.5).mass(2.0)],
			vec![boxx(v(0.0, 0.5, 0.0), v(-1.0, -1.0, -1.0), v(2.0, 1.0, 4.0)).mass(3.0), boxx(v(0.25, 0.5, 4.0), v(-1.0, -1.0, -1.0), v(-0.5, 1.0, 1.0)).mass(0.0), boxx(v(0.0, 0.5, 0.0), v(-1.0, -1.0, -3.0), v(2.0, 1.0, 6.0)).mass(3.0), boxx(v(0.0, 0.5, 0.0), v(-1.0, -1.0, -1.0), v(2.0, 1.0, 4.0)).mass(0.004)],
			vec![null(v(3.0, 0.0, 0.0), 1.0, tensor), null(v(-3.0, 2.0, 0.0), 0.25, M3::ZERO), null(v(3.0, 0.0, 0.0), 1.0, tensor.scale(2.0))],
			vec![plane(v(0.0, -20.0, 1.0), v(0.0, 1.0, 0.0)).mass(4.0), plane(v(0.0, -20.0, 1.0), v(0.0, 1.0, 0.0)).mass(INF)],
			vec![mesh(v(0.0, 0.0, 1.0), crate::geom::tetra(1.0))],
		],
		ents: vec![Ent::new().own(2.0).at(v(1.0, 2.0, 3.0)).rot(v(0.1, 0.9, -0.4)).vel(v(0.25, 0.0, 0.5)).w(v(1.0, 2.0, 0.25)), Ent::new().own(0.0).at(v(-7.0, 2.0, 3.0))],
		upds: vec![Ent::new().own(5.0).at(v(-4.0, 2.0, 3.5)).rot(v(0.0, 0.7, 2.0)).w(v(0.0, 3.0, 0.0)), Ent::new().own(INF).at(v(-4.0, 2.0, 3.5)), Ent::new().own(0.0).rot(v(1.0, 0.0, 0.0))],
		max_e: 2, max_c: 4, max_g: 0, stale: false, steps: true, values: false, links: false, masses: true, sleepy: false, copies: false,
	};
	use Op::*;
	let starts: [&[Op]; 5] = [
		&[AddE(0), AddE(1), AddC(0), AddC(1), Link(0, Some(0)), Link(1, Some(0))],
		&[AddE(0), AddC(0), AddC(2), AddC(3), Link(0, Some(0)), Link(1, Some(0)), UpdC(2, 1)],
		&[AddE(1), AddE(0), AddC(0), AddC(0), AddC(4), Link(0, Some(0)), Link(1, Some(1)), UpdC(1, 2)],
		&[AddE(0), AddC(1), AddC(2), AddC(3), Link(0, Some(0)), Link(1, Some(0)), Link(2, Some(0))],
		&[AddE(1), AddE(1), AddC(4), AddC(1), AddC(2), Link(0, Some(1)), Link(1, Some(1)), Link(2, Some(1)), UpdE(1, 1)],
	];
	let k = ctx.pick(starts.len() + 1 + 6);
	let deep = ctx.thorough as usize;
	if k < starts.len() { return explore_ops(ctx, &cfg, starts[k], 4 + deep); }
	if k > starts.len() + 3 {
		// With copies of what is stored.
		cfg.copies = true;
		cfg.max_e = 3;
		return explore_ops(ctx, &cfg, starts[[1, 3, 4][k - starts.len() - 4]], 3 + deep);
	}
	if k > starts.len() {
		// Everything asleep.
		cfg.sleepy = true;
		let mut pre = starts[[0, 3, 4][k - starts.len() - 1]].to_vec();
		pre.extend([Step, Step]);
		return explore_ops(ctx, &cfg, &pre, 3 + deep);
	}
	// A dozen parts on one entity.
	let mut pre = vec![AddE(0), AddE(1)];
	for i in 0..13 { pre.extend([AddC([0, 2, 1, 4][i % 4]), Link(i, Some(if i < 12 { 0 } else { 1 }))]); }
	(cfg.max_e, cfg.max_c) = (2, 14);
	explore_ops(ctx, &cfg, &pre, 2 + deep)
}
