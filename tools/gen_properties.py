#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the anchors stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or ["public API of PhysicsSystem: get_entity / get_collider / collision_records"]
    d["anchors"]["hook_needed"] = hook
    P.append(d)

PS, EN, CO, RA, OR = "src/physics_system.rs", "src/entity.rs", "src/collision.rs", "src/range.rs", "src/orientation.rs"
COLS = ["src/null_collider.rs", "src/sphere_collider.rs", "src/plane_collider.rs", "src/mesh_collider.rs", "src/aligned_box_collider.rs"]

p("C01", "Handles are unique, stable, and never come back to life",
  "Every entity, collider or force-generator handle returned by an add operation differs from every handle of that kind returned before by the same system, and until that object is removed it designates exactly that object with the values last stored through it. Once the object is removed (directly, or because the entity owning it was removed) every operation through the old handle reports absence and changes nothing, no matter what is added, linked or removed afterwards.",
  ["histories"], "every sequence of add / get / update / link / remove / step operations over entities, colliders and force generators",
  "basic_update, store_collider and add_remove_unary_force_generator each follow one fixed add/remove script; slot reuse after interleaved removals is never exercised.",
  [PS], [("generational arenas; every operation goes through a checked lookup", PS)],
  [("entities / colliders / generators", "arenas of live objects", PS)])

p("C02", "Collider-entity links stay two-way consistent and exclusive",
  "After any history of operations a collider reports entity E as its owner exactly when E lists that collider, so no collider is ever listed by two entities and no entity ever lists a collider that does not exist. Removing an entity removes precisely the colliders linked to it, removing a collider takes it off its owner and leaves everything else as it was, and re-linking or unlinking moves only the named collider. A link request that names a missing collider or a missing entity is refused and changes nothing.",
  ["histories"], "every sequence of add / link / relink / unlink / update / remove / step operations",
  "link_collider follows a single script with one collider at a time and never removes a collider that is still linked.",
  [PS, EN], [("link_collider, remove_entity, remove_collider", PS)],
  [("collider set of an entity", "handles of linked colliders", EN), ("owner of a collider", "back link", "src/collider.rs")])

p("C03", "Stored values round-trip and invalid values are refused atomically",
  "Every entity or collider value that meets its documented validity rule (mass not negative; sphere radius above 0.05; plane normal of non-negligible length; box corners apart on every axis, in either order; a mesh with at least one face) is accepted by add and by update and is read back unchanged, except that plane normals come back unit length with the same direction and box corners come back sorted per axis. Any value that breaks its rule, and any update with a value of another collider kind, is refused and leaves everything stored exactly as it was.",
  ["inputs", "histories"], "every collider kind and entity, every value of a small alphabet per field, every add / update / failed-update sequence",
  "Tests store one sphere and one plane with valid values; no test offers an invalid value, a swapped box or a non-unit normal to update.",
  COLS + [EN, PS], [("is_valid / new_from / update_from / make_pub of each collider", "src/*_collider.rs"), ("new_from / update_from", EN)])

p("C04", "Mass, centre of mass and inertia follow from the current parts alone",
  "At every moment an entity's total mass, centre of mass and moment of inertia equal the rigid-body composition of its own mass (which sits at the centre of mass) and the colliders linked to it at that moment - masses add, the centre is the mass-weighted mean of the collider centres, each collider's own tensor (solid sphere 2/5 m r^2, solid box m/12 (b^2+c^2), the given tensor for a null collider, none for planes and meshes) is carried to the centre by the parallel-axis rule and rotated with the entity - whatever sequence of operations led there. Changing the parts never moves the entity's local origin in the world. A collider of infinite mass makes the total mass infinite and puts the centre of mass at the local origin.",
  ["histories", "inputs"], "every history of link / unlink / update / remove operations over colliders of every kind, every iteration order of the internal collider set, several entity poses",
  "entity_auto_update and entity_local_space_unchanged check total mass and origin for one or two spheres; inertia values are not asserted anywhere.",
  [EN, OR] + COLS, [("recalculate_mass", EN), ("prep/finalize_moment_of_inertia (parallel axis + rotation)", OR), ("get_moment_of_inertia_tensor", "src/*_collider.rs")])

p("C05", "Bodies that touch nothing move freely, and time advances in lock-step",
  "During a step, an awake entity that takes part in no collision and feels no force ends displaced by exactly velocity x dt and turned by exactly angular velocity x dt about its centre of mass, with both velocities unchanged, no matter which other entities, colliders, collisions or sleepers the world contains. If the limit on collisions per step cuts the step short, every awake entity has been advanced to one and the same earlier instant, which is the time of the last recorded collision. A step shorter than 1e-6 changes nothing at all, and splitting a force-free step at its collisions gives the same final state as taking it whole.",
  ["inputs", "schedules", "histories"], "every combination of free bodies with 0..3 colliding bodies, every iteration limit 0..6, several dt",
  "basic_update and angular_update move one lone body along one axis.",
  [PS, OR], [("integration and re-adjustment of all movements after each handled collision", PS + " step()"), ("affect_with", OR)])

p("C06", "Forces follow Newton-Euler and superpose",
  "In one step every force generator present is asked exactly once for each entity of finite non-zero mass, and an awake entity's velocity changes by the sum of the forces / total mass x dt and its angular velocity by inverse inertia x the sum of (application point - centre of mass) x force, x dt, before the entity is moved. Uniform gravity therefore accelerates every finite mass equally and never turns anything; entities of infinite or zero mass ignore all forces, and a removed generator has no further effect.",
  ["inputs", "histories"], "every set of up to 3 generators over a force/offset alphabet, masses, inertia tensors, poses, and every add/remove history of generators",
  "basic_gravity drops one ball under one generator and only looks at its final resting place; no force off the centre of mass is ever applied.",
  [PS, "src/gravity_generator.rs", "src/force.rs"], [("acceleration / torque accumulation at the start of step()", PS), ("make_force", "src/gravity_generator.rs")])

DET = "collision.rs unit tests hold one hand-made head-on case per routine (and none for the dispatch in collide()); off-axis impacts, both argument orders, moving targets, short steps and near misses are not sampled."
p("C07", "Sphere-sphere contact is neither missed, invented, nor mis-described",
  "Whenever two spheres carried by two entities, each centre moving in a straight line from its pose at the start to its pose at the end of the step, first come within touching distance during the step (or are already overlapping, with distinct centres, and approaching), a collision is recorded no later than that instant; if they never touch, or only separate, none is recorded. The recorded time is the instant of first touch (0 if already overlapping), the recorded point is the touching point and the normal is the unit vector from the first entity's sphere to the second's at that instant, for any radii, speed, step length and order of the entities.",
  ["inputs"], "all placements, velocities, spins, radii, collider offsets and step lengths of a finite lattice, both entity orders",
  DET, [CO, RA, PS], [("collide / collide_sphere_with_sphere", CO), ("quadratic_zeros", RA)])
p("C08", "Sphere-plane contact is neither missed, invented, nor mis-described",
  "Whenever a sphere approaching an (infinite, solid) plane is or comes within its radius of the plane's free side during a step, a collision is recorded at that instant (0 if already in contact or embedded), at the sphere's point deepest along the plane normal, with a unit normal perpendicular to the plane pointing off the first entity; otherwise none is recorded. This holds for any plane orientation and offset, either body moving, any step length and either order of the entities, so nothing ever gets past a plane.",
  ["inputs"], "all placements, velocities, radii, plane normals/offsets and step lengths of a finite lattice, both orders",
  DET, [CO, RA, PS], [("collide / collide_sphere_with_plane / sphere_plane_overlap_time", CO), ("linear_overlap", RA)])
p("C09", "Sphere-mesh contact is neither missed, invented, nor mis-described",
  "Whenever a sphere that starts clear of a non-rotating mesh would come within its radius of any face, edge or corner during a step, a collision is recorded at the instant of first touch, at the touching point on the mesh, with the unit normal along the line from sphere centre to that point (pointing off the first entity); if it stays clear, none is recorded. This holds for any face, edge or corner, any mesh pose and size, either body moving, and either order of the entities. A mesh that turns within the step is hit, as a sphere touches it in its true motion, right up to the distance that the turning amounts to.",
  ["inputs"], "all sphere placements / velocities / radii of a finite lattice against several meshes (triangle, quad, tetrahedron, cube, large and rotated ones), both orders",
  DET, [CO, "src/mesh_collider.rs", PS], [("collide_sphere_with_mesh and its vertex/edge/face routines", CO), ("vertices_in_world", "src/mesh_collider.rs")])
p("C10", "Sphere-box contact is neither missed, invented, nor mis-described",
  "Whenever a sphere that starts clear of a box collider would come within its radius of the box during a step, a collision is recorded at the instant of first touch, at the touching point on the box surface, with the unit normal along the line from sphere centre to that point (pointing off the first entity); if it stays clear, none is recorded. This holds for any box size, position and pose, faces, edges and corners, either body moving and either order of the entities. While the box turns during the step the same holds for the straight path, as seen from the box, between the places of the sphere's centre at the start and end of the step.",
  ["inputs"], "all sphere placements / velocities / radii of a finite lattice against several boxes and poses, both orders",
  DET + " The test named check_collide_sphere_with_box actually collides two spheres.", [CO, "src/aligned_box_collider.rs", OR, PS],
  [("collide / collide_sphere_with_aligned_box / transform_out_of", CO), ("lerp", OR)])
p("C11", "Mesh-plane contact is neither missed, invented, nor mis-described",
  "Whenever, during a step, a vertex of a mesh is or gets on or below an infinite plane while it moves further towards it, a collision is recorded at the first such instant (0 if it is already there), at the average of those vertices that are then lowest (within one percent of the mesh's extent along the normal) and approach the plane, with a unit normal perpendicular to the plane pointing off the first entity; otherwise none is recorded. Vertices past the plane that are already on their way out do not count, nor do they hide others. This includes meshes resting flat on the plane, either body moving and either order, and meshes that turn during the step (each vertex then goes straight from its place at the start to its place at the end).",
  ["inputs"], "all placements / velocities of a finite lattice for several meshes and poses against several planes, both orders",
  DET, [CO, "src/mesh_collider.rs", PS], [("collide_mesh_with_plane", CO)])
p("C12", "Mesh corners never pass through another mesh's faces",
  "Whenever two convex non-rotating meshes that start clear of each other first meet during a step by a corner of one reaching the interior of a face of the other, a collision is recorded at that instant, at the point of passage, with a unit normal perpendicular to that face pointing off the first entity; if no corner reaches a face, none is recorded. It does not matter which of the two meshes owns the corner, which of them moves, or which was added first; and the mesh that owns the corner may also turn during the step (each corner then goes straight from its place at the start to its place at the end).",
  ["inputs"], "all placements and velocities of a finite lattice for several pairs of convex meshes, both orders",
  "check_collide_point_with_polygon exercises the point/polygon routine with a fixed polygon; mesh against mesh is not tested at all.",
  [CO, PS], [("collide_mesh_with_mesh / collide_mesh_points_with_mesh_faces / collide_point_with_polygon", CO)])

p("C13", "Collisions obey the restitution law and conserve momentum",
  "Each handled frictionless collision changes the two bodies by equal and opposite impulses along the recorded normal at the recorded point, so linear and angular momentum are conserved; the normal component of the relative velocity of the touching points is reversed and multiplied by the product of the two restitution coefficients (within 0 to 1), which is the recorded coefficient, and the recorded impulse magnitude is the impulse applied. Velocities respond through total mass and moment of inertia about the centre of mass; a body of infinite mass is not affected at all, and one without moment of inertia is not turned.",
  ["inputs"], "all pairs of shapes, masses (finite/infinite), restitutions, offsets, spins and velocities of a finite lattice",
  "equal_mass_billiard_balls, floor_stop and angular_adsorb_all_momentum check three hand-made impacts with restitution 0 or 1 and equal masses.",
  [PS, EN, "src/collision_record.rs"], [("calc_collision_impulse / apply_collision_impulse", PS), ("apply_impulse, get_velocity_at_world_position", EN)])
p("C14", "Friction opposes sliding and stays inside the Coulomb cone",
  "After the normal response of a collision the friction impulse is tangential, directed against the relative sliding of the touching points, equal and opposite on the two bodies, and of magnitude min(mu x normal impulse, the impulse that just stops the sliding along its own direction), where mu is the product of the two colliders' static or of their dynamic coefficients. So friction never reverses sliding and never adds kinetic energy (except where a body that no impulse can slow, in motion, drags the other along), for any masses, inertias and speeds, and it vanishes when the coefficients or the sliding do.",
  ["inputs"], "all friction coefficients / thresholds / masses / shapes / velocities / spins of a finite lattice",
  "Existing tests that involve friction only look at a unit-mass, unit-radius ball coming to rest.",
  [PS], [("friction block of step()", PS)])
p("C15", "Collisions never create kinetic energy",
  "In a force-free world of spheres and immovable obstacles, the total kinetic energy of the finite-mass bodies never increases over any step, whatever the number of simultaneous or successive collisions, restitution and friction coefficients, and iteration limit. With all restitutions 1 and no friction it stays constant as long as nothing is put to sleep.",
  ["histories", "inputs"], "all multi-body scenes of a finite lattice, all step-length choices over several steps",
  "wall_riccochet_energy checks one dumbbell against one frictionless wall.",
  [PS], [("impulse and friction formulae; approach filter; re-adjustment of remaining movement", PS)])
p("C16", "Bodies never sink into or pass through each other",
  "In every world of spheres with planes, boxes or meshes as immovable obstacles, starting clear of each other, no sphere is ever found penetrating an obstacle or another sphere by more than rounding after any history of steps, pushes, stops, gravity changes, sleeping, waking and additions or removals of other bodies. Likewise no corner of a mesh that cannot turn (a point mass) is ever found below a plane or a mesh face that it came down on, and nothing that turns - bodies of spheres, meshes - ever falls through a plane. Running out of collision budget in a step does not weaken this.",
  ["histories"], "all histories of steps and interventions up to a bounded number of interventions within a bounded horizon",
  "basic_gravity, go_to_sleep and dual_sleeping follow one scripted history each.",
  [PS, CO, EN], [("earliest-collision loop, approach filter, neighbour skipping, wake_up", PS)])
p("C17", "Only persistently slow bodies sleep, and sleepers stay put",
  "An entity is put to sleep at the end of a step only if its kinetic energy is then at or below the sleep threshold and has been so at the end of every step for at least the sleep time threshold before it (an immovable entity counts as having no energy at rest and infinite energy otherwise; being woken restarts the count). An entity that stays at or below the threshold, and that neither is disturbed itself nor touches anything that is, is asleep within a few steps after that time has passed. A sleeping entity that is not hit has exactly the same position and rotation after every step, and velocities are zero while asleep.",
  ["histories"], "all histories of step lengths and interventions over several bodies, thresholds and masses",
  "go_to_sleep and dual_sleeping check two scripted histories with a single step length and threshold.",
  [PS, EN], [("sleep bookkeeping at the end of step()", PS)],
  [("falling_asleep_time / asleep / neighbors", "sleep state of an entity", EN)])
p("C18", "Disturbing a sleeper wakes it and whatever it rests against",
  "Storing a changed velocity, pose or own mass into a sleeping entity wakes it immediately, together with every finite-mass sleeper it came to rest against, transitively; storing unchanged values wakes nobody. A collision that leaves a finite-mass entity with more energy than the threshold leaves it awake at the end of the step, together with everything that had come to rest against it. Immovable sleepers are woken only by storing changes into them. Removing an entity wakes whatever had come to rest against it. Whatever is woken stays awake until it has been slow for the sleep time threshold again, and meanwhile responds to forces and moves normally.",
  ["histories"], "all histories of interventions on piles of 1..3 spheres resting on planes",
  "go_to_sleep wakes one ball by one velocity change.",
  [EN, PS], [("wake_up", EN), ("update_from change detection", EN), ("wake calls in step()", PS)])
p("C19", "Collision records are complete, ordered and well formed",
  "After each step the collision records describe exactly the collisions handled in that step, at most the iteration limit: each names two different live entities that own colliders, has a time within the step, a unit normal pointing off the first entity along which the touching points were approaching, a non-negative impulse, and times never decrease along the list. Every velocity change of a force-free step is accounted for by a record of that entity, and a step in which nothing collides leaves the list empty. (Steps shorter than 1e-6 do nothing and leave the list alone.)",
  ["inputs", "histories"], "all multi-body scenes of a finite lattice, all iteration limits, several consecutive steps",
  "No existing test reads the collision records.",
  [PS, "src/collision_record.rs"], [("collision_records handling in step()", PS)])
p("C20", "No valid history panics, hangs or produces non-finite state",
  "Any sequence of valid operations on finite values - including removing linked, sleeping or neighbouring objects, massless or immovable bodies meeting each other, coincident or degenerate contacts, and extreme iteration limits - completes without panicking or hanging, and every readable position, rotation, velocity and collision record stays finite (an immovable entity's energy is the one thing that may read as infinite, while it moves).",
  ["histories", "inputs"], "all operation sequences up to a bounded depth over worlds containing every collider kind, mass class and overlap pattern",
  "Every existing test keeps to well-behaved scenes.",
  [PS, EN, CO], [("checked lookups, guards on degenerate impulses and normals", PS)])
p("C21", "The outcome does not depend on insertion order or internal set order",
  "The state reached and the collisions recorded are the same, up to rounding, whatever order entities, colliders, links and generators were added in and whatever order the internal hash sets iterate in, as long as no two contacts happen at the same instant; with the order swapped a record only has its two entities exchanged and its normal negated. Running the same history twice gives the same result.",
  ["schedules", "inputs"], "all insertion orders and all iteration orders of the collider sets, for all scenes of a finite lattice",
  "Each test uses one order; hash iteration order varies from run to run and is never controlled.",
  [PS, EN, CO], [("pair loop over entities and hash sets of colliders; earliest-time selection", PS)])
p("C22", "Physics is the same in every frame",
  "Moving a whole scene by a translation, by any of the 48 axis permutations/reflections of space, or by adding one constant velocity to every entity (with sleeping disabled) changes the result of a step only by that same transformation: same collisions at the same times with transformed points and normals, transformed final poses and velocities.",
  ["inputs"], "all scenes of a finite lattice x all 48 signed axis permutations x translations x boosts",
  "Existing tests keep to a handful of axis-aligned set-ups.",
  [PS, CO, OR, EN], [("all vector code", CO)])
p("C23", "Mesh construction keeps unique vertices and edges and rejects bad faces",
  "After any sequence of face additions a mesh holds every distinct corner once, every undirected edge of the accepted faces once, and each accepted face; it is valid exactly when it has a face. A face with fewer than three points, non-coplanar points or a non-convex outline is refused by panicking and leaves the mesh unchanged and usable.",
  ["histories", "inputs"], "all sequences of faces from an alphabet of triangles, quads, polygons (both windings, shared corners and edges) and invalid faces",
  "check_create_mesh adds four particular triangles and no invalid face.",
  ["src/mesh_collider.rs"], [("add_face / add_points / add_edge / is_valid", "src/mesh_collider.rs")],
  observe=["MeshCollider::{face_count, edge_count, vertex_count, is_valid}"])
p("C24", "Orientations are exact rigid transforms",
  "For every orientation, world-to-local and local-to-world conversions of points and of directions are inverse rigid maps: a local point maps to position + rotation (point + origin offset), directions ignore position and offset, and distances, angles and handedness are preserved. Applying a movement translates the position and composes the rotation in world space without touching the original when a copy is asked for; interpolating between two orientations gives the first at 0, the second at 1, and turns along the shortest arc at constant rate between them; carrying an inertia tensor through gives the parallel-axis and rotated tensor.",
  ["inputs", "histories"], "all orientations of a finite lattice of positions / rotations / offsets and all sequences of up to 3 movements",
  "basic_transforms checks two poses with one rotation axis.",
  [OR], [("into_local/into_world, affect_with, lerp, prep/finalize_moment_of_inertia", OR)],
  observe=["public API of Orientation"])
p("C25", "What is read back is a faithful and independent snapshot",
  "At any point of any history, the entity read back for a handle describes that body as it is: its total mass, its orientation (where local points are in the world), its world moment of inertia and its kinetic energy are those of the body's current parts and motion - energy being half of m v^2 plus half of w.I w, zero for immovable bodies at rest and infinite for moving ones. What is read back is a copy: editing its position, rotation, velocities or own mass changes orientation, inertia and energy of the copy accordingly and nothing in the system until it is stored, and nothing that happens to the system changes a copy taken before.",
  ["histories", "inputs"], "every sequence of store operations up to a depth, then every read-back entity, edit of the copy and continuation",
  "No test reads an energy, and inertia is read back for two fixed bodies.",
  [EN, PS, OR], [("make_pub, get_total_energy, get_last_moment_of_inertia, make_orientation", EN), ("get_entity", PS)],
  observe=["Entity::{get_total_energy, get_last_moment_of_inertia, get_last_total_mass, get_last_orientation, make_orientation}"])
p("C26", "The future depends on the scene alone, not on how it came about",
  "Two systems that hold the same entities (masses, poses, velocities, awake), colliders (shapes, materials, links), force generators and settings evolve alike (same collisions, same states up to rounding), whatever happened in either before: values stored and later replaced, colliders linked elsewhere or nowhere in between, parts or bodies that came and went, earlier steps with other bodies, materials, forces or limits, earlier sleep. Putting everything back to where it started makes the same things happen again.",
  ["histories"], "every scene of a family x every sequence of detours up to a depth that end in the same scene",
  "Every test builds its world once and runs it once; nothing is ever put back and run again.",
  [PS, EN], [("step: per-step state, neighbours, sleep state", PS), ("update_entity / update_collider / link_collider", PS), ("wake_up, recalculate_mass", EN)])
p("C27", "No unit is special: only ratios matter",
  "Measuring a whole scene in other units - every mass, every length and every time (with all velocities, forces, inertias, step lengths and thresholds that follow from them) multiplied by constant factors - changes the result of every step only by those same factors: the same collisions at the corresponding times with corresponding points, normals and impulses, the same final motion, the same sleepers. (Within factors small enough that the library's absolute tolerances, such as ignoring masses and steps under 1e-6, stay negligible.)",
  ["inputs"], "all scenes of a finite lattice x a family of systems of units, mass, length and time alone and together, up and down",
  "Every test uses sizes, masses and speeds around one.",
  [PS, CO, EN], [("every constant compared with a mass, length, speed, time or energy", PS), ("tolerances", CO)])
p("C28", "Where time is cut into steps makes no difference without forces",
  "While no force acts, stepping a scene of balls among balls, planes, boxes and meshes once by a time or several times by parts of it leads to the same collisions at the same times since the start, the same bounces and the same motion, wherever the cuts are: also just before, at or just after a collision (given enough collision iterations; shapes other than balls that turn within a step are approximated per step and so excepted).",
  ["schedules", "inputs"], "all force-free scenes of a finite lattice x all cuts of a family that includes the instants around every collision",
  "Tests step by one length, and never compare two ways of getting to the same time.",
  [PS, CO], [("step: collision loop, remaining time", PS), ("swept tests, time limits", CO)])
p("C29", "What never touches does not matter",
  "Entities, colliders and generators that neither touch a group of bodies nor act on it have no influence on it: far bodies at rest, flying, spinning, asleep or colliding among themselves, entities without colliders or without mass, null and unlinked colliders - added before, between or after - leave the group's collisions, motion and sleep exactly as they are without them (up to rounding, given enough collision iterations).",
  ["inputs", "histories"], "every scene of a finite lattice alone and together with every item of a list of company, in every place of the order",
  "Every test has one group of bodies only.",
  [PS, EN, CO], [("step: loops over all entities, all pairs, all colliders", PS), ("sleep bookkeeping", PS)])
p("C30", "Friction in the long run: sticking, sliding and rolling",
  "A body without bounce that lies on an immovable slope (a plane, box or mesh, standing still, sliding along or spinning under it) follows Coulomb's law in every step, for as long as it stays there: the friction impulse is exactly what stops the sliding, but at most mu x the normal impulse, mu being the product of the two coefficients (static and dynamic alike). So whatever cannot turn stays put for ever where the slope is less steep than mu and otherwise slides at the rate that friction leaves; what can turn goes from sliding to rolling; mass makes no difference, and nothing creeps, lifts off or sinks in. A change of material, gravity, mass or velocity takes effect in the very next step.",
  ["inputs", "histories"], "all bodies x slopes x tilts around and off the friction angle x coefficients x speeds of a finite lattice, then up to two interventions at several steps; every step of a long run",
  "One test slides one ball on one floor; none has a slope, a moving ground, or a change on the way.",
  [PS, CO, EN], [("step: gravity, contact and friction of one step after another", PS), ("calc_collision_impulse, friction", PS), ("sphere / mesh against plane, box, mesh at rest on them", CO)])
p("C31", "What is trapped comes to rest, and stays there",
  "Under gravity and with restitution below 1 and friction, a body that cannot roll away (or two that cannot turn) comes to rest on whatever immovable planes, boxes and meshes hold it, and everything is asleep after a bounded time, never far outside; then nothing stirs, collides or wakes by itself. Kicked, or hit by something thrown in, it wakes, and everything comes to rest and sleeps again. (Given plenty of collision iterations, and a sleep threshold above the energy that gravity adds within one step.)",
  ["histories"], "all drops of one or two bodies of a finite lattice into all places of a list, simulated until everything sleeps (bounded liveness), disturbed, and simulated until everything sleeps again",
  "One test puts one ball to sleep; liveness cannot be tested by a few steps from a few states.",
  [PS, EN], [("step: falling asleep, waking up", PS), ("wake_up, neighbors", EN), ("contacts at rest", CO)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
