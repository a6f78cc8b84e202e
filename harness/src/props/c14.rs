//! C14 - friction.
use super::Prop;
use crate::engine::*;
use crate::m::*;
use crate::pairs;
use crate::world::*;

pub const PROP: Prop = Prop {
	id: "C14", body,
	rule: "every single-collision scene with friction over: contact kind (9) x how each body carries its mass (12 pairings, immovable ones included) x mass ratios and masses up to 4e6 x restitution x friction coefficients and thresholds of both (none, slight, ordinary, huge, static and dynamic far apart) x spins x closing and sliding speeds x frame velocity x turned frame x overlapping or later contact x insertion order x another body or collider of other material in line to be hit later (looked at before or after); the total impulse is split into the normal response and friction and compared with Coulomb's law; non-trivial when friction acts",
	assumptions: &["one collision per step (iteration limit 1)", "which of the static and the dynamic coefficient applies is not prescribed: either is accepted", "where the sliding left after the normal response is below rounding, its direction is not judged"],
};

fn body(ctx: &mut Ctx) -> R {
	let p = pairs::pick_pair(ctx, true)?;
	let mut w = pairs::build(&p);
	log_scene(ctx, &p.ents);
	let before = w.bodies();
	w.tick(ctx, p.dt);
	let recs = w.recs();
	let after = w.bodies();
	if !pairs::is_ours(&p, &recs)? { ctx.outcome("something else first"); return Err(Stop::Skip); }
	if recs.is_empty() { ctx.outcome("no contact"); return Ok(()); }
	ensure!(recs.len() == 1, "an iteration limit of 1 handled {} collisions", recs.len());
	let r = &recs[0];
	let at: Vec<Body> = before.iter().map(|b| b.moved(r.t)).collect();
	let (a, b) = (&at[r.a], &at[r.b]);
	let rel = |x: &Body, y: &Body| x.vel_at(r.pos) - y.vel_at(r.pos);
	let hit = |x: &Body, j: V3| Body { vel: x.vel + j * x.inv_mass(), w: x.w + x.inv_inertia().mv((r.pos - x.com).cross(j)), ..x.clone() };
	let closing = rel(a, b).dot(r.n);
	let kn = pairs::k_along(a, b, r.pos, r.n);
	let jn = (1.0 + p.e) * closing / kn;
	ensure!((r.j - jn).abs() <= 1e-4 * jn + 2e-6 / kn * (1.0 + a.vel.len() + b.vel.len()), "the recorded normal impulse is {}, the restitution law needs {}", r.j, jn);
	// After the normal response.
	let (a1, b1) = (hit(a, r.n * -jn), hit(b, r.n * jn));
	let d = rel(&a1, &b1);
	let s = d - r.n * d.dot(r.n);
	let sl = s.len();
	let lever = |x: &Body| (r.pos - x.com).len();
	let noise = 2e-6 * (a1.vel.len() + b1.vel.len() + lever(a) * a1.w.len() + lever(b) * b1.w.len() + a.vel.len() + b.vel.len() + lever(a) * a.w.len() + lever(b) * b.w.len() + 0.2);
	// The impulse the first body got from friction, read off the lighter movable body.
	let (i, sign) = if a.movable() && (!b.movable() || a.mass <= b.mass) { (r.a, 1.0) } else { (r.b, -1.0) };
	let was = &at[i];
	let total = (after[i].vel - was.vel) * (was.mass * sign);
	let jt = total + r.n * jn;
	let scale = jn + total.len() + was.mass * (was.vel.len() + after[i].vel.len());
	let tol = 2e-5 * scale + 1e-6;
	// Equal and opposite, at the recorded point.
	for (k, sg) in [(r.a, 1.0), (r.b, -1.0)] {
		if !at[k].movable() { ensure!(after[k].vel == at[k].vel && after[k].w == at[k].w, "immovable entity {} was affected", k); continue; }
		let e = hit(&at[k], total * sg);
		let (vt, wt) = (1e-5 * (e.vel.len() + at[k].vel.len() + 0.2) + tol / at[k].mass, 2e-5 * (e.w.len() + at[k].w.len() + 0.1) + tol * (lever(&at[k]) + 0.1) * at[k].inv_inertia().max_abs());
		ctx.dev("reaction v", (after[k].vel - e.vel).len() / vt);
		ctx.dev("reaction w", (after[k].w - e.w).len() / wt);
		ensure!(near(after[k].vel, e.vel, vt), "entity {} has velocity {:?}, the reaction {:?} makes it {:?}", k, after[k].vel.arr(), total.arr(), e.vel.arr());
		ensure!(near(after[k].w, e.w, wt), "entity {} has angular velocity {:?}, the reaction {:?} makes it {:?}", k, after[k].w.arr(), total.arr(), e.w.arr());
	}
	ensure!(jt.dot(r.n).abs() <= tol, "friction {:?} has a normal part (normal {:?})", jt.arr(), r.n.arr());
	if sl < 20.0 * noise {
		// Next to nothing left to stop.
		ctx.outcome("no sliding");
		if sl > 0.0 { let kt = pairs::k_along(a, b, r.pos, s.unit()); ensure!(jt.len() <= (sl + noise) / kt * 3.0 + tol, "friction {} though nothing slides", jt.len()); } else { ensure!(jt.len() <= 30.0 * tol, "friction {} though nothing slides", jt.len()); }
		return Ok(());
	}
	let t = s.unit();
	let kt = pairs::k_along(a, b, r.pos, t);
	let stop = sl / kt;
	let (ws, wd) = ((p.mus * jn).min(stop), (p.mud * jn).min(stop));
	// Direction errors: the sliding is a difference of rounded numbers.
	let dir = noise / sl;
	let tj = tol + 4.0 * noise / kt;
	if ws.max(wd) > tj { ctx.interesting(); ctx.outcome(if stop <= p.mud * jn { "sticks" } else { "slides on" }); } else { ctx.outcome("no friction"); }
	let along = -jt.dot(t);
	let off = (jt + t * along).len();
	ctx.dev("direction", off / (tj + dir * jt.len()));
	ensure!(off <= tj + 2.0 * dir * jt.len(), "friction {:?} is not along the sliding {:?}", jt.arr(), s.arr());
	ensure!(along >= -tj, "friction {:?} pushes along the sliding {:?}", jt.arr(), s.arr());
	let best = (along - ws).abs().min((along - wd).abs());
	ctx.dev("size", best / tj);
	ensure!(best <= tj + 1e-4 * along, "friction is {}, Coulomb says {} (static) or {} (dynamic): normal impulse {}, stopping needs {}", along, ws, wd, jn, stop);
	// Energy, unless a body that cannot answer is driving the other (an immovable body in motion, or a spinning one without inertia around some axis).
	let passive = |x: &Body| if x.movable() { (x.inertia.max_abs() > 1e-8 * x.mass && !x.inertia.thin()) || x.w == O } else { x.vel == O && x.w == O };
	if !passive(a) || !passive(b) { return Ok(()); }
	let en = |x: &Body| if x.movable() { x.energy() } else { 0.0 };
	let (e1, e2) = (en(&a1) + en(&b1), en(&Body { vel: after[r.a].vel, w: after[r.a].w, ..a.clone() }) + en(&Body { vel: after[r.b].vel, w: after[r.b].w, ..b.clone() }));
	ensure!(e2 <= e1 * (1.0 + 2e-5) + 1e-6, "friction raised the kinetic energy from {} to {}", e1, e2);
	Ok(())
}
