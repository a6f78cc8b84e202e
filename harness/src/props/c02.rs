//! C02 - links: every operation sequence against the link model.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::store::*;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C02", body,
	rule: "every sequence (to the depth bound, from several linked starting stores; shallower with fourteen colliders on one entity ten entities re-linked, and everything asleep; with copies of what was read back added or stored, too) of link/unlink/relink to the same or another entity, remove entity, remove collider, add, update and step, also naming dead colliders and entities; after each operation all owners and collider lists are compared with the link model, and every entity's velocity, rotation, own mass and local origin with what they were",
	assumptions: &["colliders of four kinds with mass, so that every re-link moves centres of mass"],
};

fn body(ctx: &mut Ctx) -> R {
	let mut cfg = Cfg {
		cols: vec![
			vec![sphere_at(v(1.0, 0.5, -2.0), 0.5).mass(2.0)],
			vec![boxx(v(0.0, 0.5, 0.0), v(-1.0, -1.0, -1.0), v(2.0, 1.0, 1.0)).mass(3.0), boxx(v(0.0, 0.5, 4.0), v(-1.0, -1.0, -1.0), v(2.0, 1.0, 1.0)).mass(0.5)],
			vec![null(v(3.0, 0.0, 0.0), 1.0, M3::id())],
			vec![mesh(v(0.0, 0.0, 1.0), crate::geom::tetra(1.0))],
		],
		ents: vec![Ent::new().own(2.0).at(v(1.0, 2.0, 3.0)).rot(v(0.1, 0.9, -0.4)).vel(v(0.25, 0.0, 0.5)).w(v(0.0, 0.5, 0.25))],
		upds: vec![Ent::new().own(5.0).at(v(-4.0, 2.0, 3.5)).rot(v(0.0, 0.7, 0.0)).w(v(0.0, 0.25, 0.0)).vel(v(0.5, 0.0, 0.0))],
		max_e: 3, max_c: 4, max_g: 0, stale: true, steps: true, values: false, links: true, masses: false, sleepy: false, copies: false,
	};
	use Op::*;
	let starts: [&[Op]; 3] = [
		&[AddE(0), AddE(0), AddC(0), AddC(1), AddC(3), Link(0, Some(0)), Link(1, Some(0))],
		&[AddE(0), AddE(0), AddC(1), AddC(2), Link(0, Some(0)), Link(1, Some(1))],
		&[AddE(0), AddE(0), AddC(0), AddC(1), AddC(2), Link(0, Some(0)), Link(1, Some(0)), Link(2, Some(0)), RemC(1), RemE(1)],
	];
	let k = ctx.pick(starts.len() + 6);
	let deep = ctx.thorough as usize;
	match k.checked_sub(starts.len()) {
		None => explore_ops(ctx, &cfg, starts[k], 4 + deep),
		Some(0) => {
			// A dozen colliders on one entity, some on another.
			let mut pre = vec![AddE(0), AddE(0), AddE(0)];
			for i in 0..14 { pre.extend([AddC([0, 2, 1, 3][i % 4]), Link(i, Some(if i < 12 { 0 } else { 1 }))]); }
			pre.push(AddC(0));
			(cfg.max_e, cfg.max_c) = (4, 16);
			explore_ops(ctx, &cfg, &pre, 2 + deep)
		}
		Some(n @ 3..=4) => {
			// With copies of what is stored.
			cfg.copies = true;
			explore_ops(ctx, &cfg, starts[n - 3], 3 + deep)
		}
		Some(n @ 1..=2) => {
			// Everything asleep.
			cfg.sleepy = true;
			let mut pre = starts[n - 1].to_vec();
			pre.extend([Step, Step]);
			explore_ops(ctx, &cfg, &pre, 3 + deep)
		}
		_ => {
			// Ten entities with a collider each, re-linked around.
			let mut pre: Vec<Op> = (0..10).map(|_| AddE(0)).collect();
			for i in 0..10 { pre.extend([AddC(i % 4), Link(i, Some(9 - i))]); }
			for i in 0..4 { pre.push(Link(i, Some(i))); }
			(cfg.max_e, cfg.max_c) = (11, 11);
			explore_ops(ctx, &cfg, &pre, 2 + deep)
		}
	}
}
