"""Which harness runs decide which property (case counts per tier)."""

def run(bin, cfg, quick, thorough=None, mode="", **kw):
    d = {"bin": bin, "cfg": cfg, "quick": quick, "thorough": thorough if thorough is not None else quick * 30, "mode": mode}
    d.update(kw)
    return d

PROPS = {}
NOT_APPLICABLE = {}

PROPS["C05"] = {
    "rule": "hash of the query box/ray and of the multiset of objects the tree reported, with the tree's size and height",
    "technique": "runtime monitoring: a brute-force model shadows the tree and judges every query answer (random operation histories, ASan/UBSan builds included)",
    "note": "random histories of the tree's own interface and of worlds of moving bodies; sizes up to a few hundred objects",
    "runs": [run("h_tree", "f", 6000), run("h_tree", "d", 4000, offset=100000), run("h_tree", "fa", 1200, offset=200000),
             run("h_tree", "f", 3000, mode="world"), run("h_tree", "da", 400, mode="world", offset=100000)],
    "min_distinct": 100,
}
PROPS["C24"] = {
    "rule": "hash of the container's model content and of the operation that led to it",
    "technique": "runtime monitoring: every container is driven by random operation histories beside its standard-library model; element life cycles are counted and ASan/UBSan watch the memory",
    "note": "element types: integers, strings, pointers and life-cycle counting objects; the arguments are not elements of the container itself",
    "runs": [run("h_containers", "fa", 6000), run("h_containers", "f", 24000, offset=100000), run("h_containers", "da", 1600, offset=200000)],
    "min_distinct": 1000,
}
PROPS["C25"] = {
    "rule": "hash of the operands",
    "technique": "runtime monitoring: identities and double-precision reference formulas judge the results of the real functions on random and degenerate operands, UBSan and the library's own assertions included",
    "note": "operands of ordinary magnitude (1e-3 to 1e3), tolerances proportional to rounding",
    "runs": [run("h_math", "f", 4000), run("h_math", "d", 4000, offset=100000), run("h_math", "fa", 600, offset=200000)],
    "min_distinct": 1000,
}
PROPS["C01"] = {
    "rule": "hash of everything observable of the world after some steps (transforms, velocities, flags, joints, debug items, all events so far)",
    "technique": "runtime monitoring: random valid API histories under AddressSanitizer and UBSan with every object individually allocated, the library's own assertions on, and a monitor that follows every id an event names",
    "note": "up to 16 (thorough 40) bodies per world, 1 or 2 worlds per factory, ordinary magnitudes; concave shapes on static bodies, finite masses for jointed bodies, documented preconditions respected",
    "runs": [run("h_fuzz", "fa", 1600, 20000), run("h_fuzz", "da", 900, 10000, offset=1000000), run("h_fuzz", "fu", 700, 6000, offset=2000000), run("h_fuzz", "f", 1200, 20000, offset=3000000)],
    "min_distinct": 500,
}
PROPS["C03"] = {
    "rule": "hash of everything observable of the world (and of all events so far) after each round of a history",
    "technique": "runtime monitoring: the same random history is executed six times (other allocators with zeroed, 0xFF-filled or random memory, ascending, descending and scattered addresses, and beside other worlds of the factory) and an offline checker compares the recorded states, events and query answers bit for bit",
    "note": "up to 14 (thorough 30) bodies, 10-50 (thorough 120) rounds; same binary and machine",
    "runs": [run("h_determ", "f", 500, 8000), run("h_determ", "d", 320, 4000, offset=100000), run("h_determ", "fh", 320, 4000, offset=200000), run("h_determ", "fa", 60, 800, offset=300000)],
    "min_distinct": 1000,
}
PROPS["C27"] = {
    "rule": "hash of everything observable of the world (and of all events so far) after each round of a history",
    "technique": "runtime monitoring: the same random history is executed with and without queries and an offline checker compares the recorded states and events bit for bit; a monitor compares a digest of everything observable before and after each single query, and each query with its immediate repetition",
    "note": "up to 14 (thorough 30) bodies; overlap and collision queries are inserted between consecutive steps in the bit-exact comparison",
    "runs": [run("h_determ", "f", 1200, 20000, mode="queries"), run("h_determ", "d", 700, 8000, mode="queries", offset=100000), run("h_determ", "fa", 120, 1500, mode="queries", offset=200000)],
    "min_distinct": 1000,
}
PROPS["C02"] = {
    "rule": "hash of the request (allocator, size, live blocks), of the world state after each round, or of the memory held after a cycle",
    "technique": "runtime monitoring: a recording allocator with guard zones (or side-by-side placement) judges every call that reaches the user's allocator; interval and content monitors judge every block the internal allocators hand out; footprints of repeated cycles are compared",
    "note": "histories of up to 16 (thorough 40) bodies per world; in the hooked build each object reaches the recording allocator on its own",
    "runs": [run("h_alloc", "f", 40, 1500, mode="drive"), run("h_alloc", "fu", 16, 300, mode="drive", offset=100000), run("h_alloc", "f", 600, 20000), run("h_alloc", "fh", 400, 8000, offset=200000), run("h_alloc", "d", 300, 8000, offset=100000), run("h_alloc", "fu", 160, 3000, offset=300000),
             run("h_alloc", "fh", 48, 600, mode="cycles"), run("h_alloc", "f", 40, 600, mode="cycles", offset=100000)],
    "min_distinct": 1000,
}
PROPS["C04"] = {
    "rule": "hash of everything observable of a thread's world after each round",
    "technique": "runtime monitoring: ThreadSanitizer watches 2-6 threads that each drive their own factory through random histories (with random yields, the first use of the library included); an offline checker compares what each thread got with the same history run alone, and worlds of one factory run alternately with each alone",
    "note": "one process per chunk so that first-use initialisation is raced many times; up to 10 bodies per world",
    "runs": [run("h_threads", "ft", 160, 2400, chunks=16), run("h_threads", "f", 240, 6000), run("h_threads", "fu", 80, 1000, offset=100000)],
    "min_distinct": 500,
}
PROPS["C06"] = {
    "rule": "hash of the shape hit and of the exact hit fraction",
    "technique": "runtime monitoring: every raycast against a collider, body or world of a random scene is judged by an exact double-precision geometry oracle; a protocol monitor follows the callback (stop, ignore, continue, clip), the category filter and the enabled flags; ASan/UBSan and assertions on",
    "note": "scenes of 1-8 (thorough 12) bodies with 1-3 colliders, sizes 0.3 to 10; rays closer than 3e-3 of the size (2e-5 in double precision) to grazing an edge or silhouette are left undecided; positive scales, maximum fractions in (0,1]",
    "runs": [run("h_ray", "f", 10000), run("h_ray", "d", 6000, offset=100000), run("h_ray", "fa", 600, offset=200000)],
    "min_distinct": 2000,
}
PROPS["C07"] = {
    "rule": "hash of the shape and of the local point asked",
    "technique": "runtime monitoring: every point query of a collider or body of a random scene is judged by an exact double-precision geometry oracle; ASan/UBSan and assertions on",
    "note": "points closer to the boundary than 3e-3 of the size (2e-5 in double precision) are left undecided; positive scales",
    "runs": [run("h_ray", "f", 10000, mode="point"), run("h_ray", "d", 6000, mode="point", offset=100000), run("h_ray", "fa", 600, mode="point", offset=200000)],
    "min_distinct": 2000,
}
PROPS["C08"] = {
    "rule": "hash of the two shapes, of their exact gap and of whether they intersect",
    "technique": "runtime monitoring: every overlap and collision query on random scenes is judged by an exact double-precision intersection oracle and by a model of filters, roles and exclusions; all query variants are compared; ASan/UBSan and assertions on",
    "note": "scenes of 2-7 bodies with 1-3 colliders, changed between rounds; pairs closer than 1e-3 (4e-3 in single precision) of the size to just touching are undecided; an answer contradicted by the pair's own neighbourhood (9 displaced copies) counts as rounding, and the cases showing one must stay below 0.2%",
    "runs": [run("h_overlap", "f", 32000), run("h_overlap", "d", 20000, offset=100000), run("h_overlap", "fa", 640, offset=200000), run("h_overlap", "f", 1, 1, mode="known")],
    "min_distinct": 2000,
}
PROPS["C09"] = {
    "rule": "hash of the two shapes and of the exact contact (depth, position)",
    "technique": "runtime monitoring: every contact point delivered by queries and by simulation steps is judged against exact double-precision geometry at the poses of that moment",
    "note": "tolerances of 3e-3 (1.2e-2 in single precision) of the size; contacts that persist over steps are checked for everything but minimality of the depth; a bad contact that 9 displaced copies of the pair do not confirm counts as rounding; together with misplaced points of polyhedra the cases showing one must stay below 0.2%",
    "runs": [run("h_overlap", "f", 32000, mode="contacts"), run("h_overlap", "d", 20000, mode="contacts", offset=100000), run("h_overlap", "fa", 960, mode="contacts", offset=200000)],
    "min_distinct": 2000,
}
PROPS["C10"] = {
    "rule": "hash of the event type, of the shape and of all events of the world so far",
    "technique": "runtime monitoring: an online protocol monitor follows every contact and trigger event of random simulated histories and an exact geometry oracle judges for every pair, before each step, whether it intersects; ASan/UBSan and assertions on",
    "note": "up to 12 (thorough 24) bodies, 15-45 (thorough 120) steps; pairs closer than 1.5e-3 (6e-3 in single precision) of the size to just touching are undecided; a single wrong step of a pair counts as rounding of the detection, three in a row or a share above 0.005% of the judged pairs as a violation",
    "runs": [run("h_events", "f", 5000, 60000), run("h_events", "d", 3000, 30000, offset=100000), run("h_events", "fa", 400, 4000, offset=200000)],
    "min_distinct": 2000,
}
PROPS["C11"] = {
    "rule": "hash of the two colliders' and bodies' settings and of their relative position",
    "technique": "runtime monitoring: two overlapping colliders with random settings (roles, category and mask bits, body types, activity, joints), set and changed in random order; a model of admissibility judges events, velocities and all queries; C10's monitor is run on scenes with changing filters",
    "note": "pairs overlap by at least 0.02 according to an exact geometry oracle; the response is judged when an approach speed above 0.3 m/s meets a contact",
    "runs": [run("h_events", "f", 60000, 900000, mode="filter"), run("h_events", "d", 30000, 400000, mode="filter", offset=1000000), run("h_events", "fa", 4000, 40000, mode="filter", offset=2000000), run("h_events", "f", 2000, 20000, offset=4000000)],
    "min_distinct": 2000,
}
PROPS["C12"] = {
    "rule": "hash of the body's type, locks and new position",
    "technique": "runtime monitoring: before every step of random worlds the allowed motion of each static, kinematic or axis-locked body is computed from what can be read back, and compared with the motion after the step; ASan/UBSan and assertions on",
    "note": "random histories of up to 12 bodies with contacts, joints of every kind, forces, locks and changes of type; dynamic bodies of finite mass",
    "runs": [run("h_dyn", "f", 12000, 160000), run("h_dyn", "d", 8000, 100000, offset=1000000), run("h_dyn", "fa", 400, 6000, offset=2000000)],
    "min_distinct": 2000,
}
PROPS["C13"] = {
    "rule": "hash of the body's state after the step",
    "technique": "runtime monitoring: a one-step reference integrator in double precision predicts every body without contacts and joints from what can be read back and from a shadow of the forces the user applied; compared after every step and every setter; ASan/UBSan and assertions on",
    "note": "dedicated worlds of free bodies with every way of applying forces, and the free bodies of random worlds; tolerance of a few units in the last place of the terms involved",
    "runs": [run("h_dyn", "f", 16000, 240000, mode="free"), run("h_dyn", "d", 16000, 240000, mode="free", offset=1000000), run("h_dyn", "fa", 800, 8000, mode="free", offset=2000000), run("h_dyn", "f", 8000, 100000, mode="world"), run("h_dyn", "d", 6000, 80000, mode="world", offset=1000000)],
    "min_distinct": 2000,
}
PROPS["C14"] = {
    "rule": "total momentum of a group of bodies after a step",
    "technique": "runtime monitoring: the total linear and angular momentum and the common centre of mass of isolated groups of bodies, joined by joints of every kind and colliding, are measured in double precision before and after every step and compared with what the external forces alone account for",
    "note": "groups of 2-6 dynamic bodies without damping; linear momentum and centre of mass to rounding; angular momentum up to the distance of the two contact points or anchors times the impulse",
    "runs": [run("h_joint", "f", 24000, 400000, mode="momentum"), run("h_joint", "d", 16000, 300000, mode="momentum", offset=1000000), run("h_joint", "fa", 600, 8000, mode="momentum", offset=2000000)],
    "min_distinct": 2000,
}
PROPS["C15"] = {
    "rule": "hash of the impulse or of the position after a step",
    "technique": "runtime monitoring: the impulse every contact exerted in a step is recovered from the motion of the bodies and judged against the rules of unilateral contact, restitution and friction; bodies of all convex shapes thrown on floors, boxes on slopes and colliding groups are followed until they rest or slide",
    "note": "spheres (on boxes, meshes and each other) are judged impulse by impulse, steps with several contact points left out; hulls, boxes and capsules by the sum of the impulses and by where they come to rest; a held or sliding box is compared with the closed solution",
    "runs": [run("h_contact", "f", 18000, 160000), run("h_contact", "d", 15000, 120000, offset=1000000), run("h_contact", "fa", 240, 3000, offset=2000000)],
    "min_distinct": 2000,
}
PROPS["C16"] = {
    "rule": "position of a jointed body after a step",
    "technique": "runtime monitoring: after every step of random trees of jointed bodies the anchors, axes and relative orientation of every joint are measured from the body transforms, and the reported reaction force and torque of joints at the end of a tree are balanced against the motion of the body; ASan/UBSan and assertions on",
    "note": "trees of up to 6 (thorough 9) boxes on a static, kinematic or free root; 15-40 velocity and 10-30 position iterations; the tolerance on the joint error is tight for a single joint and wide for trees of joints, whose solver converges slowly; the force and torque balance is held to rounding",
    "runs": [run("h_joint", "f", 14000, 120000), run("h_joint", "d", 12000, 100000, offset=200000), run("h_joint", "fa", 320, 4000, offset=400000)],
    "min_distinct": 2000,
}
PROPS["C17"] = {
    "rule": "position of a jointed body after a step",
    "technique": "runtime monitoring: two jointed bodies with limits and motors that are switched and changed at random; after every step an independent geometric measure of the joint coordinate and rate judges the reported value, the limits and the motor, the reaction is balanced against the motion, and a twin world without limits and motor shadows joints whose limits and motor are off; ASan/UBSan and assertions on",
    "note": "hinge, slider and ball-and-socket joints between a dynamic body and a static, kinematic or dynamic one; limits are judged from 10 steps after a change (60 with Baumgarte correction) with a tolerance of 1.5 steps of the current rate plus 0.01; histories end when a body turns faster than 12 rad/s",
    "runs": [run("h_joint", "f", 16000, 120000, mode="limits"), run("h_joint", "d", 12000, 100000, mode="limits", offset=200000), run("h_joint", "fa", 320, 4000, mode="limits", offset=400000)],
    "min_distinct": 2000,
}
PROPS["C18"] = {
    "rule": "hash of a joint's or body's reported state after an operation of the history",
    "technique": "runtime monitoring: a model of all joints and bodies shadows random histories of creating, configuring and destroying them; getters, wake-ups, motion after destruction and contacts between formerly jointed bodies are judged",
    "note": "up to 10 bodies and all joint types; every settable value is read back after each operation, for all joints of the world",
    "runs": [run("h_joint", "f", 15000, 60000, mode="life"), run("h_joint", "d", 10000, 40000, mode="life", offset=100000), run("h_joint", "fa", 600, 5000, mode="life", offset=200000)],
    "min_distinct": 500,
}
PROPS["C20"] = {
    "rule": "hash of the colliders of a body (shapes, densities, poses) and the operation",
    "technique": "runtime monitoring: closed formulas and sums over the colliders in double precision judge mass, centre of mass and inertia after every operation of random histories; velocities of body points are compared across moves of the centre of mass",
    "note": "spheres, boxes, capsules and convex meshes (volume exact, inertia of a convex mesh that of its bounding box as documented in the code); concave shapes not claimed",
    "runs": [run("h_mass", "f", 30000), run("h_mass", "d", 30000, offset=1000000), run("h_mass", "fa", 1500, offset=3000000)],
    "min_distinct": 500,
}
PROPS["C21"] = {
    "rule": "hash of a hull's vertices and faces",
    "technique": "runtime monitoring: an independent double-precision checker judges every mesh built (closedness, orientation, convexity, containment of the input, volume, bounds) or refused, on random and degenerate clouds and face lists, ASan/UBSan and the library's own assertions included",
    "note": "sizes 0.5 to 10; points equal up to about 4e-6 or at least a hundredth of the size apart; clouds at least 5% thick or exactly flat",
    "runs": [run("h_mesh", "f", 9000), run("h_mesh", "d", 7000, offset=100000), run("h_mesh", "fa", 900, offset=200000), run("h_mesh", "da", 500, offset=300000)],
    "min_distinct": 500,
}
PROPS["C22"] = {
    "rule": "hash of a vertex or height of the user's data and its place in the mesh or height field",
    "technique": "runtime monitoring: after creation every getter of the mesh, height field and their shapes is compared with the user's data, and again after the user's memory is overwritten; messages are compared with the defects planted in the input",
    "note": "float/double vertices and normals, 16/32-bit indices, float/double/int heights, padded strides; heights up to 100; degenerate triangle = exactly zero area or edge",
    "runs": [run("h_mesh", "f", 9000, mode="data"), run("h_mesh", "d", 7000, mode="data", offset=1000000), run("h_mesh", "fa", 1200, mode="data", offset=2000000), run("h_mesh", "da", 500, mode="data", offset=3000000)],
    "min_distinct": 1000,
}
PROPS["C19"] = {
    "rule": "hash of the pose in which a body fell asleep, or of a woken body after a step",
    "technique": "runtime monitoring: a monitor keeps for every body the time it has been slow and for every step the groups connected by the contacts reported and the joints, and judges every falling asleep, staying asleep and waking up of stacks, pendulums and projectiles disturbed in 21 ways; woken bodies are compared with equal bodies that never slept",
    "note": "up to about 20 bodies, 3-7 (thorough 14) simulated seconds; rest times of 4 steps to 1 s; comparison over 10 steps, within 0.05",
    "runs": [run("h_sleep", "f", 6400, 100000), run("h_sleep", "d", 4800, 60000, offset=1000000), run("h_sleep", "fa", 320, 4000, offset=2000000)],
    "min_distinct": 1000,
}
PROPS["C23"] = {
    "rule": "hash of the position of a probe or of a dropped body after a step",
    "technique": "runtime monitoring: overlap, collision and ray queries of random probes against meshes and height fields of up to 1600 cells are judged by an exact double-precision oracle over all triangles; bodies dropped on surfaces are watched until they rest",
    "note": "probes closer than 1e-3 (4e-3 in single precision) of the size to just touching and grazing rays are undecided; a contradiction must be confirmed by displaced copies; contact points of polyhedra off the surface are judged by the share of probes they spoil (0.05%); dropped polyhedra by the share that is pulled through (5%)",
    "runs": [run("h_surface", "f", 9000, 100000), run("h_surface", "d", 6400, 60000, offset=1000000), run("h_surface", "fa", 320, 4000, offset=2000000)],
    "min_distinct": 1000,
}
PROPS["C26"] = {
    "rule": "hash of everything a user can read of the world after an operation",
    "technique": "runtime monitoring: everything that can be read of a world is recorded after every operation of a random user and compared with a model of what was set; boxes and poses are judged by a double-precision oracle of the placed shapes",
    "note": "histories of 50 (thorough 120) operations on up to 14 bodies; values are compared exactly (friction: rounding of its square root)",
    "runs": [run("h_state", "f", 16000, 200000), run("h_state", "d", 8000, 100000, offset=1000000), run("h_state", "fa", 800, 8000, offset=2000000)],
    "min_distinct": 5000,
}
PROPS["C28"] = {
    "rule": "hash of everything a user can read of the world after a step",
    "technique": "runtime monitoring: motion, events, rays and overlap queries are watched for inactive bodies; twin worlds compare a deactivated body with a destroyed one, one activated again with an equal new one, one taken out and put back with one brought to rest",
    "note": "worlds of up to 14 bodies; twins are compared over up to 12 steps within 0.02 (30 steps within 0.1 + 0.01 per step for bodies put back at once, where the warm start is lost) until the scene gets violent; parted twins are judged by share (1%, 3% for put back at once) as the solver need not converge",
    "runs": [run("h_state", "f", 12000, 160000, mode="active"), run("h_state", "d", 8000, 100000, mode="active", offset=1000000), run("h_state", "fa", 800, 8000, mode="active", offset=2000000)],
    "min_distinct": 5000,
}
PROPS["C29"] = {
    "rule": "hash of the pose of a drawn collider and the items enabled, or of the world after a rendered step",
    "technique": "runtime monitoring: after every step the lines and triangles produced are matched one by one with the boxes, shapes and contact points of the world, shapes by a closed-surface and on-the-surface oracle; a twin world that renders nothing is compared with the rendering one",
    "note": "scenes of up to 15 colliders of every shape kind, far apart, and crowded random worlds with contacts; round shapes must enclose 85% to 100.1% of their volume",
    "runs": [run("h_debug", "f", 6400, 100000), run("h_debug", "d", 4800, 60000, offset=1000000), run("h_debug", "fa", 320, 4000, offset=2000000)],
    "min_distinct": 1000,
}
PROPS["C30"] = {
    "rule": "hash of the messages logged in a history, or of the order in which the messages of several threads arrived",
    "technique": "runtime monitoring: every message is recorded at the logger interface and the output of every stream and file destination is compared with the record; in threads mode several threads log through one logger and the output is checked for whole, ordered, complete messages (also under ThreadSanitizer)",
    "note": "up to 10 destinations of both formats and all thresholds added and removed during a history of up to 40 operations; the level set error+information without warning is left out, as its meaning is not documented",
    "runs": [run("h_logger", "f", 8000, 100000), run("h_logger", "fa", 400, 4000, offset=2000000), run("h_logger", "f", 800, 10000, mode="threads", offset=3000000), run("h_logger", "ft", 80, 1000, mode="threads", offset=4000000)],
    "min_distinct": 500,
}
PROPS["C31"] = {
    "rule": "hash of the trajectory of a long simulation",
    "technique": "runtime monitoring: hundreds to thousands of steps of ordinary scenes with monitors on every step for finite state, unit orientations, immobile statics, energy, side of floors and walls, joint error, standing and sleeping stacks",
    "note": "five kinds of scenes; up to 22 bodies in a heap, stacks of up to 5, ball chains of up to 7; limits on energy, joint error and stacks are judged by share (2%) with a hard limit",
    "runs": [run("h_scene", "f", 4000, 100000), run("h_scene", "d", 2400, 40000, offset=1000000), run("h_scene", "fa", 80, 1600, offset=2000000)],
    "min_distinct": 500,
}
PROPS["C33"] = {
    "rule": "hash of the trajectories of the groups of a scene",
    "technique": "runtime monitoring: every group of a common world is compared, after every step, with a twin world holding that group alone, while other groups are added, disturbed, put to sleep or destroyed",
    "note": "groups without contact and with at most one joint must agree to 1e-5; groups with several contacts or joints are judged by share, because the order of solving is not specified",
    "runs": [run("h_scene", "f", 12000, 120000, mode="groups"), run("h_scene", "d", 4800, 60000, mode="groups", offset=1000000), run("h_scene", "fa", 160, 2400, mode="groups", offset=2000000)],
    "min_distinct": 500,
}
PROPS["C34"] = {
    "rule": "hash of the trajectory of a scene and the rigid motion applied",
    "technique": "runtime monitoring: a scene and its moved, turned copy (bodies of joints and pairs exchanged in 40% of them) run in lockstep and every body is compared after every step",
    "note": "9 classes of scenes with a tolerance and a share each: free bodies, first steps and single joints strictly, others by share; convex shapes only",
    "runs": [run("h_scene", "f", 64000, 400000, mode="frames"), run("h_scene", "d", 32000, 200000, mode="frames", offset=1000000), run("h_scene", "fa", 400, 6000, mode="frames", offset=2000000)],
    "min_distinct": 1000,
}
