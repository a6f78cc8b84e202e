//! C01 - handles: every operation sequence, including through dead handles, against the store model.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::store::*;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C01", body,
	rule: "every sequence (to the depth bound, from several starting stores; shallower from a crowd, from slots reused seventy times over from a store with 300 of everything and from one in which everything is asleep; with what was read back added or stored again, too) of add/update/remove of entities, colliders and force generators, link/unlink and step, through every live and every dead handle; after each operation every handle ever given out is checked against the store model (presence, stored values, owner, which generator is asked for whom)",
	assumptions: &["each stored value carries a unique tag", "colliders have no mass, so values read back are the values stored"],
};

fn body(ctx: &mut Ctx) -> R {
	let mut cfg = Cfg {
		cols: vec![vec![sphere(0.5)], vec![boxx(O, v(-1.0, -1.0, -1.0), v(1.0, 1.0, 1.0))]],
		ents: vec![Ent::new().own(2.0).at(v(1.0, 2.0, 3.0)).rot(v(0.1, 0.0, -0.4))],
		upds: vec![Ent::new().own(5.0).at(v(-4.0, 2.0, 3.5)).rot(v(0.0, 0.7, 0.0)).w(v(0.0, 0.25, 0.0))],
		max_e: 4, max_c: 4, max_g: 3, stale: true, steps: true, values: true, links: true, masses: false, sleepy: false, copies: false,
	};
	use Op::*;
	let starts: [&[Op]; 4] = [
		&[AddE(0), AddC(0), Link(0, Some(0)), AddG],
		&[AddE(0), AddE(0), AddC(0), AddC(1), Link(0, Some(0)), Link(1, Some(0)), AddG, AddG],
		&[],
		&[AddE(0), AddE(0), AddC(0), AddC(1), Link(0, Some(0)), RemE(0), AddG, RemG(0)],
	];
	let k = ctx.pick(starts.len() + 5);
	let deep = ctx.thorough as usize;
	match k.checked_sub(starts.len()) {
		None => explore_ops(ctx, &cfg, starts[k], 5 + deep),
		Some(0) => {
			// A crowd: ten entities, a dozen colliders, eight generators.
			let mut pre: Vec<Op> = (0..10).map(|_| AddE(0)).collect();
			for i in 0..12 { pre.extend([AddC(i % 2), Link(i, Some(if i < 9 { i } else { 3 }))]); }
			pre.extend((0..8).map(|_| AddG));
			(cfg.max_e, cfg.max_c, cfg.max_g) = (12, 13, 10);
			explore_ops(ctx, &cfg, &pre, 2 + deep)
		}
		Some(1) => {
			// Slots that have been used over and over.
			let mut pre = vec![];
			for i in 0..70 { pre.extend([AddE(0), AddC(0), AddG, Link(i, Some(i))]); pre.extend(match i % 3 { 0 => [RemE(i), RemG(i)], 1 => [RemC(i), RemE(i)], _ => [RemE(i), RemG(i)] }); if i % 3 == 1 { pre.push(RemG(i)); } }
			pre.extend([AddE(0), AddC(0), AddG, Link(70, Some(70))]);
			(cfg.max_e, cfg.max_c, cfg.max_g) = (72, 72, 72);
			explore_ops(ctx, &cfg, &pre, 1 + deep)
		}
		Some(3) => {
			// With copies of what is stored.
			cfg.copies = true;
			explore_ops(ctx, &cfg, starts[3], 3 + deep)
		}
		Some(2) => {
			// Everything asleep.
			cfg.sleepy = true;
			let mut pre = starts[1].to_vec();
			pre.extend([Step, Step]);
			explore_ops(ctx, &cfg, &pre, 3 + deep)
		}
		_ => {
			// A few hundred of everything.
			let mut pre: Vec<Op> = vec![];
			for i in 0..300 { pre.extend([AddE(0), AddC(0), AddG]); if i % 2 == 0 { pre.push(Link(i, Some(i / 2))); } }
			(cfg.max_e, cfg.max_c, cfg.max_g) = (300, 300, 300);
			cfg.upds.clear();
			let ops = |s: &Store| -> Vec<Op> { let _ = s; let mut r: Vec<Op> = vec![]; for i in [0, 1, 63, 64, 127, 128, 149, 150, 255, 256, 298, 299] { r.extend([RemE(i), RemC(i), RemG(i), Link(i, None), Link(i, Some(299 - i))]); } r.push(Step); r };
			explore_with(ctx, &cfg, &pre, 1 + deep, &ops)
		}
	}
}
