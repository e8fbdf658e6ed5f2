"""Text of the properties. tools/gen.py writes properties.jsonl and MANIFEST.json from this and props.py."""

def P(title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    return dict(title=title, statement=statement, quantifier={"over": list(over), "text": qtext}, why_tests_cant=why,
                anchors={"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech],
                         "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                         "observe_at": list(observe), "hook_needed": hook})

T = {}
T["C01"] = P("No API history corrupts memory, hits undefined behaviour or aborts",
  "Whatever valid sequence of calls a user makes (create, move, modify, query, step and destroy bodies, colliders, joints, shapes, meshes and worlds, in any order), the library never reads or writes memory it does not own, never uses memory it has freed, never executes undefined behaviour and never fails one of its own internal assertions.",
  ["histories", "inputs", "configurations"], "All finite sequences of valid public API calls with finite arguments, over every shape, joint and body type, single and double precision.",
  "The tests construct isolated objects and never run a world with joints, contacts, destruction in mid-simulation or sleeping; a history of a few hundred random calls reaches states no hand-written test does.",
  ["src/engine/PhysicsWorld.cpp", "src/engine/PhysicsCommon.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/engine/OverlappingPairs.cpp", "src/components/*.cpp", "src/collision/broadphase/DynamicAABBTree.cpp", "include/reactphysics3d/containers/*.h"],
  [("enabled/disabled component partition kept compact on every removal", "src/components/Components.cpp: removeComponent, setIsEntityDisabled"), ("pairs removed with their collider", "src/engine/OverlappingPairs.cpp: removePair"), ("contact data indices rebuilt every step", "src/systems/CollisionDetectionSystem.cpp")],
  observe=["AddressSanitizer/UBSan reports", "internal assertions", "process termination"],
  hook="the pool, heap and frame allocators hand each block to the base allocator so that the sanitizer sees every allocation of the library")
T["C02"] = P("User-supplied memory is conserved: matched sizes, aligned, all returned",
  "With a user-supplied allocator, the library only ever gives back blocks it obtained and has not given back yet, quoting exactly the size it asked for, and everything it obtained has been given back once the physics factory object is destroyed, even when the user destroyed none of the objects. Every block handed out internally is suitably aligned, is disjoint from every other live block and stays intact until released, and repeating the same create/simulate/destroy cycle does not make the memory held grow without bound.",
  ["histories", "configurations"], "All create/simulate/destroy histories, all worlds and shapes, all sequences of allocate/release requests on the pool, heap and single-frame allocators.",
  "The tests never install a recording allocator around a world nor drive the internal allocators through long interleavings of sizes.",
  ["src/memory/PoolAllocator.cpp", "src/memory/HeapAllocator.cpp", "src/memory/SingleFrameAllocator.cpp", "src/memory/MemoryManager.cpp", "src/engine/PhysicsCommon.cpp"],
  [("size-class free lists", "src/memory/PoolAllocator.cpp: allocate/release"), ("block splitting and merging", "src/memory/HeapAllocator.cpp: splitMemoryUnit, mergeUnits"), ("frame reset", "src/memory/SingleFrameAllocator.cpp: reset"), ("teardown of everything still alive", "src/engine/PhysicsCommon.cpp: release")],
  observe=["calls reaching the user's allocator", "pointers returned by the allocators"])
T["C03"] = P("Simulation is deterministic",
  "Performing the same sequence of calls again from scratch gives bit-for-bit the same body states, contacts, events and query answers, whatever allocator is used, whatever the memory it returns contained or wherever it lies, and whatever other worlds were created or simulated before or in between.",
  ["histories", "configurations"], "All finite histories of API calls, replayed under different allocators, memory contents and neighbouring worlds.",
  "No test runs the same simulation twice; dependence on uninitialised memory, addresses or leaked state only shows when two differently perturbed executions are compared.",
  ["src/engine/PhysicsWorld.cpp", "src/systems/*.cpp", "src/engine/OverlappingPairs.cpp", "include/reactphysics3d/containers/Set.h", "include/reactphysics3d/containers/Map.h"],
  [("ordered pairs, entity ids and islands independent of addresses", "src/engine/PhysicsWorld.cpp: createIslands"), ("all component fields initialised on insertion", "src/components/*.cpp: addComponent")],
  observe=["body transforms and velocities", "contact and event streams", "query answers"])
T["C04"] = P("Worlds of different factories can be used from different threads",
  "Programs that use separate physics factory objects in separate threads have no data race and obtain in each thread exactly the result they would obtain alone; worlds of the same factory used one after the other do not influence each other either.",
  ["schedules", "histories"], "All thread schedules of independent factory objects being created, used and destroyed concurrently; all interleavings of several worlds of one factory.",
  "The tests are single threaded and use one world at a time.",
  ["src/engine/PhysicsCommon.cpp", "src/engine/PhysicsWorld.cpp", "src/memory/PoolAllocator.cpp"],
  [("no mutable state shared between factories", "src/memory/PoolAllocator.cpp, src/engine/PhysicsWorld.cpp (static members)")],
  observe=["ThreadSanitizer reports", "results of each thread"])
T["C05"] = P("The broad-phase tree reports exactly what a brute-force search reports",
  "After any sequence of insertions, moves and removals, querying the dynamic bounding-volume tree with a box reports every stored object whose stored (enlarged) box overlaps it and no other, a ray query visits every stored object whose box the ray crosses with a callback that shortens the ray only pruning what lies beyond, and the stored box of an object always contains the box it was last given. Removing or moving one object never loses, duplicates or changes another, and the tree stays balanced.",
  ["histories", "inputs"], "All sequences of add/update/remove with arbitrary boxes, and all query boxes and rays.",
  "The tests insert four boxes and query a few positions; rotations, rebalancing and reuse of freed nodes need long random histories.",
  ["src/collision/broadphase/DynamicAABBTree.cpp", "include/reactphysics3d/collision/broadphase/DynamicAABBTree.h", "src/systems/BroadPhaseSystem.cpp"],
  [("insertion by best sibling, balancing rotations", "DynamicAABBTree.cpp: insertLeafNode, balanceSubTreeAtNode"), ("fat boxes", "DynamicAABBTree.cpp: addObjectInternal, updateObject")],
  observe=["DynamicAABBTree query results"])
T["C06"] = P("Raycasts report exactly the surfaces the ray crosses",
  "A ray against a shape, body or world reports a hit exactly when the segment enters the solid (or crosses a triangle of a mesh or height field from a side that is enabled), and each hit carries the right point, fraction, unit outward surface normal, body and collider, under every pose, scale and maximum fraction. A world raycast reports each enabled matching collider once, honours the category filter and the enabled flags, and obeys the value returned by the callback: stop, ignore, continue, or clip.",
  ["inputs", "configurations"], "All rays, shapes (sphere, capsule, box, convex hull, triangle mesh, height field), poses, positive scales, maximum fractions up to one and callbacks, away from grazing configurations.",
  "The tests shoot a few axis-aligned rays at one shape of each kind at one pose.",
  ["src/collision/shapes/*.cpp", "src/collision/Collider.cpp", "src/body/Body.cpp", "src/engine/PhysicsWorld.cpp", "src/systems/BroadPhaseSystem.cpp", "src/collision/HeightField.cpp"],
  [("per-shape ray tests in local space", "src/collision/shapes/*Shape.cpp: raycast"), ("world to local transform of the ray and back", "src/collision/Collider.cpp: raycast"), ("fraction protocol", "src/collision/RaycastInfo.cpp, src/systems/BroadPhaseSystem.cpp")],
  observe=["RaycastInfo from Collider/Body/PhysicsWorld raycast"])
T["C07"] = P("Point containment matches the geometry",
  "Asking whether a world-space point is inside a collider or body answers yes exactly when the point lies in the placed (posed and scaled) solid shape; it is never inside a mesh or height field surface, and a body contains a point exactly when one of its colliders does.",
  ["inputs", "configurations"], "All points, convex shapes, poses and positive scales, away from the boundary by a small tolerance.",
  "The tests try a handful of points on unscaled shapes at one pose.",
  ["src/collision/shapes/*.cpp", "src/collision/Collider.cpp", "src/body/Body.cpp"],
  [("per-shape containment", "src/collision/shapes/*Shape.cpp: testPointInside"), ("world to local", "src/collision/Collider.cpp: testPointInside")], observe=["Collider/Body::testPointInside"])
T["C08"] = P("Overlap and collision queries agree with the true geometry",
  "Two query-enabled colliders of active bodies that pass the collision filter are reported as overlapping or colliding exactly when their placed solid shapes (or a convex shape and a mesh or height-field surface) truly intersect, whatever the shapes, scale and pose, and whichever of the two bodies is named first. All variants of the query (pair, one body against the world, whole world, overlap only, with contacts) give consistent answers and report each intersecting collider pair exactly once; triggers take part in overlap queries only.",
  ["inputs", "configurations"], "All pairs of shapes with at least one convex one, sizes from half a unit to ten units, all poses and scales, not within a small tolerance of just touching; bodies placed directly or moved there, at least one of the two awake and not static.",
  "The tests place a few pairs at axis-aligned poses; most of the separating-axis, support-function and clipping code is only reached by generic poses.",
  ["src/systems/CollisionDetectionSystem.cpp", "src/collision/narrowphase/**", "src/collision/shapes/*.cpp"],
  [("GJK distance", "src/collision/narrowphase/GJK/GJKAlgorithm.cpp"), ("separating axis test", "src/collision/narrowphase/SAT/SATAlgorithm.cpp"), ("special-case sphere/capsule tests", "src/collision/narrowphase/*.cpp"), ("mid-phase triangle selection", "src/systems/CollisionDetectionSystem.cpp: computeConvexVsConcaveMiddlePhase")],
  observe=["PhysicsWorld::testOverlap / testCollision callbacks"])
T["C09"] = P("Reported contact points are geometrically valid",
  "Every contact point reported by a query or an event has a finite unit normal pointing from the first collider to the second, a non-negative penetration depth, and one point on (or in) each collider at that pose such that the two differ by the depth along the normal (against a mesh or height field the normal may be smoothed, the point on the surface stays on it and the other one is within the depth of its body). For two convex shapes newly in contact or asked about in a query, the largest depth reported does not exceed the true minimum translation distance and moving the second shape out by it along its normal separates them (polyhedra that penetrate by more than a quarter of their inner radius may need up to twice as much), and at most sixteen points per convex pair are reported. Two polyhedra resting face to face get contact points that span more than half of the touching area, and a capsule lying on a face or along another capsule touches it over the whole common length.",
  ["inputs", "histories"], "All colliding pairs of shapes and poses, in snapshot queries and during simulation, within a few thousandths of the size of the shapes; single points of penetrating polyhedra may be misplaced (less than one pair in ten thousand).",
  "Tests check contact positions for a few axis-aligned configurations.",
  ["src/systems/CollisionDetectionSystem.cpp", "src/collision/narrowphase/**", "src/collision/ContactManifold.cpp", "src/constraint/ContactPoint.cpp"],
  [("contact generation", "src/collision/narrowphase/SAT/SATAlgorithm.cpp, GJK/GJKAlgorithm.cpp"), ("manifold reduction", "src/systems/CollisionDetectionSystem.cpp: reducePotentialContactManifolds")], observe=["CollisionCallback::ContactPoint"])
T["C10"] = P("Contact and trigger events follow the start, stay, exit protocol",
  "For each pair of colliders, the events delivered during successive simulation steps form the sequence start, stay..., exit: a start exactly when they begin to intersect, a stay at each further step of intersection, one exit when they stop, nothing otherwise, at most one event per pair and step (a pair is left alone while both bodies are static, asleep or inactive). Contact events carry at least one contact point unless they are exits, pairs involving a trigger are delivered through the trigger callback only and never move a body, and every event names live bodies and colliders.",
  ["histories", "schedules"], "All simulations with bodies that move, sleep, are teleported, created and destroyed, colliders added or removed, turned into triggers and back.",
  "Tests check no event stream over time at all (the listener tests sample only static overlap queries).",
  ["src/systems/CollisionDetectionSystem.cpp", "src/collision/CollisionCallback.cpp", "src/collision/OverlapCallback.cpp", "src/engine/PhysicsWorld.cpp"],
  [("current/previous contact pair comparison", "src/systems/CollisionDetectionSystem.cpp: computeLostContactPairs, reportContacts"), ("event type from collidingInPrevious/CurrentFrame", "src/collision/OverlapCallback.cpp, CollisionCallback.cpp")], observe=["EventListener::onContact/onTrigger"])
T["C11"] = P("Only admissible pairs ever interact",
  "Two colliders interact (contact, event, physical response) only if each one's category is in the other's mask, they belong to different bodies, each is a simulation collider or a trigger, neither body is inactive, no joint that disables collision connects the bodies, and at least one of the bodies is not static; every admissible overlapping pair does interact, whatever the order in which these settings were made and changed. Colliders meant for queries only never affect the simulation, and colliders excluded from queries are never reported by queries.",
  ["configurations", "histories"], "All category/mask assignments, collider roles, body types and joints, made and changed in any order before and while the shapes overlap.",
  "The tests cover bits only for static queries between four shapes.",
  ["src/systems/BroadPhaseSystem.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/engine/PhysicsWorld.cpp", "src/collision/Collider.cpp"],
  [("filter when a broad-phase pair is added", "src/systems/CollisionDetectionSystem.cpp: updateOverlappingPairs"), ("no-collision pair set", "src/systems/CollisionDetectionSystem.h: addNoCollisionPair")], observe=["events, queries, motion"])
T["C12"] = P("Static, kinematic and axis-locked bodies move only as allowed",
  "A static body never moves by simulation and an awake kinematic body moves exactly with the velocity the user gave it (slowed only by its own damping), whatever collides with, pushes, pulls or is jointed to them. Along a locked translation axis a dynamic body's centre of mass moves only by the velocity the user gave it there, and about a locked rotation axis it never gains angular velocity, under any forces, contacts and joints.",
  ["histories", "inputs"], "All scenes mixing body types, locks, forces, contacts and joints.",
  "No test steps a world with static, kinematic or locked bodies in contact.",
  ["src/body/RigidBody.cpp", "src/systems/DynamicsSystem.cpp", "src/systems/ContactSolverSystem.cpp", "src/systems/Solve*JointSystem.cpp"],
  [("zero inverse mass for non dynamic bodies", "src/body/RigidBody.cpp: setType"), ("lock-axis factors", "src/systems/*: linearLockAxisFactors, angularLockAxisFactors")], observe=["transforms and velocities"])
T["C13"] = P("Unconstrained motion follows the documented integration scheme",
  "A body free of contacts and joints moves, each step, by the semi-implicit scheme: forces, torques, gravity and damping change its velocity once, the new velocity moves its centre of mass and orientation, and the orientation stays normalised. Forces and torques add up whichever way they are applied (local or world force, at the centre, at a local or world point), act for exactly one step, ignore static and kinematic bodies, can be read back and reset, and gravity acts exactly on bodies that enable it. Placing a body elsewhere or moving its centre of mass does not otherwise change its motion.",
  ["inputs", "histories"], "All initial states, masses, inertias, damping, forces applied in any combination, time steps and numbers of steps.",
  "Tests check a few force accumulations but never the resulting motion.",
  ["src/systems/DynamicsSystem.cpp", "src/body/RigidBody.cpp", "src/engine/PhysicsWorld.cpp"],
  [("velocity integration", "src/systems/DynamicsSystem.cpp: integrateRigidBodiesVelocities"), ("position integration", "DynamicsSystem.cpp: integrateRigidBodiesPositions, updateBodiesState"), ("accumulators", "src/body/RigidBody.cpp: applyWorldForceAtLocalPosition etc.")], observe=["RigidBody getters"])
T["C14"] = P("Contacts and joints conserve momentum",
  "Contacts and joints between dynamic bodies act equally and oppositely: in a group without damping the total linear momentum changes in a step only by the external forces and gravity, and the common centre of mass moves with it even when positions are corrected. The total angular momentum is kept too, up to the impulses times the distance of the two points of a contact, or of the two anchors of a joint, through which they act.",
  ["histories", "inputs"], "All isolated groups of dynamic bodies of finite mass, colliding and connected by every type of joint, with any materials, centres of mass and solver iterations.",
  "No test simulates colliding or jointed bodies.",
  ["src/systems/ContactSolverSystem.cpp", "src/systems/SolveBallAndSocketJointSystem.cpp", "src/systems/SolveFixedJointSystem.cpp", "src/systems/SolveHingeJointSystem.cpp", "src/systems/SolveSliderJointSystem.cpp"],
  [("equal and opposite impulses", "src/systems/ContactSolverSystem.cpp: solve; src/systems/Solve*JointSystem.cpp: warmstart, solveVelocityConstraint")], observe=["velocities and masses"])
T["C15"] = P("Contact response: no sinking, bounded friction, correct restitution",
  "A contact never pulls; a sphere, or a box landing flat, that meets a surface faster than the restitution threshold leaves it with its approach speed times the larger of the two bounciness values, and a slower one does not bounce; friction never accelerates sliding, never exceeds the geometric mean of the coefficients times the normal impulse (in each of two directions), and reaches it while sliding goes on, so that a box on a plane slope stays, starts to slide or accelerates as the friction demands. Convex bodies thrown on a box, mesh or height field (not thinner than 0.4 on the latter two) neither sink in, beyond a small slop once at rest, nor hover, and piles of boxes or prisms at rest neither creep nor sink. Contacts without bounce do not add kinetic energy beyond a small solver error.",
  ["inputs", "configurations", "histories"], "All shapes, masses, materials, slopes, gravities and time steps up to 1/60 s in ordinary ranges (sizes around 0.3 to 3), with the default correction of positions or the Baumgarte one.",
  "No test runs a contact through the solver.",
  ["src/systems/ContactSolverSystem.cpp", "src/engine/Material.cpp", "src/collision/ContactManifold.cpp"],
  [("non-negative accumulated normal impulse", "ContactSolverSystem.cpp: solve"), ("friction clamped by the normal impulse", "ContactSolverSystem.cpp: solve"), ("material mixing", "ContactSolverSystem.h: computeMixedRestitutionFactor, computeMixedFrictionCoefficient")], observe=["trajectories"])
T["C16"] = P("Joints keep their constraints",
  "During simulation a ball-and-socket or hinge joint keeps its two anchor points together, a hinge additionally keeps its axes aligned, a slider keeps the relative motion on its axis with no relative rotation, and a fixed joint keeps the relative pose, all within a small tolerance under moderate loads (a tight one for bodies hanging at rest) and whatever the two bodies' types, masses and the way the joint was described (world or local anchor). The reaction force and torque a joint reports account for the motion of the second body in that step.",
  ["inputs", "histories"], "All joint types, anchors, axes, body types, masses and initial velocities of moderate size.",
  "No test simulates a joint.",
  ["src/systems/SolveBallAndSocketJointSystem.cpp", "src/systems/SolveHingeJointSystem.cpp", "src/systems/SolveSliderJointSystem.cpp", "src/systems/SolveFixedJointSystem.cpp", "src/constraint/*.cpp"],
  [("velocity constraint with Baumgarte bias or position solver", "src/systems/Solve*JointSystem.cpp: initBeforeSolve, solveVelocityConstraint, solvePositionConstraint")], observe=["body transforms"])
T["C17"] = P("Joint limits and motors do what they promise",
  "With limits enabled a hinge angle, slider translation or ball-and-socket cone angle stays within its limits up to a small tolerance, and the angle and translation reported are the true geometric ones; a motor drives the joint towards its target speed with a force or torque never above its maximum, and a disabled limit or motor has no effect; reaching a limit stops the motion and does not throw it back. Limits, speeds and maxima can be changed at any time and take effect on the next step.",
  ["inputs", "histories"], "All limits, motor speeds, maximum forces and changes during simulation.",
  "No test exercises limits or motors.",
  ["src/constraint/HingeJoint.cpp", "src/constraint/SliderJoint.cpp", "src/constraint/BallAndSocketJoint.cpp", "src/systems/Solve*JointSystem.cpp"],
  [("inequality impulses clamped", "src/systems/SolveHingeJointSystem.cpp, SolveSliderJointSystem.cpp, SolveBallAndSocketJointSystem.cpp"), ("motor impulse clamped to maxForce*dt", "same files: solveVelocityConstraint")], observe=["joint getters and body velocities"])
T["C18"] = P("Joint creation, configuration and destruction are consistent",
  "A joint reports back the bodies, type, collision flag, limits and motor settings it was given, and destroying a body destroys the joints attached to it and no other joint; after a joint is destroyed the bodies move, and collide, as if it had never existed. Changing a setting or destroying a joint wakes the attached bodies, and settings read back as written.",
  ["histories", "inputs"], "All sequences of creating, configuring and destroying joints and bodies.",
  "No test creates a joint in a simulated world.",
  ["src/engine/PhysicsWorld.cpp", "src/constraint/*.cpp", "src/components/*JointComponents.cpp", "src/components/RigidBodyComponents.cpp"],
  [("joint lists per body", "src/components/RigidBodyComponents.h: addJointToBody, removeJointFromBody"), ("component storage", "src/components/JointComponents.cpp")], observe=["joint getters, motion"])
T["C19"] = P("Sleeping is only ever an optimisation of bodies at rest",
  "A group of bodies connected by contacts or joints falls asleep when, and only when, sleeping is enabled, all of them are allowed to sleep and all have stayed below the speed thresholds for the configured time; while asleep they do not move. A sleeping body is woken when a moving or newly awake body touches it or is joined to it, when the user moves it, sets its velocity, applies a force, changes its type, its joints or its permission to sleep, or when a body it touched is destroyed or deactivated. Woken, it moves on like an equal body that never slept.",
  ["histories", "configurations"], "All stacks, pendulums and bodies at rest, thresholds of at least a few steps, and all disturbances.",
  "No test lets a body fall asleep.",
  ["src/engine/PhysicsWorld.cpp", "src/body/RigidBody.cpp", "src/constraint/Joint.cpp", "src/systems/DynamicsSystem.cpp"],
  [("island-wide sleep timer", "src/engine/PhysicsWorld.cpp: updateSleepingBodies"), ("wake-up", "src/body/RigidBody.cpp: setIsSleeping; src/engine/PhysicsWorld.cpp: createIslands")], observe=["isSleeping, transforms, velocities and contact events after each step and each call"])
T["C20"] = P("Mass, centre of mass and inertia follow from the attached colliders",
  "Updating a body's mass properties gives the sum over its colliders of density times volume, the mass-weighted mean of the colliders' origins, and the diagonal of the inertia tensor that results from each shape's inertia rotated and shifted to the common centre; volumes of convex shapes match their geometry and scale, inertias those of the sphere, box and capsule, or of the bounding box of a convex mesh. User-set values are used as given, invalid values are refused, and moving the centre of mass does not move the body and keeps the velocity field of a dynamic body unchanged.",
  ["inputs", "histories"], "All sets of colliders with convex shapes, densities and local poses; all orders of adding and removing colliders.",
  "The tests check mass properties of a few axis-aligned box/sphere compounds.",
  ["src/body/RigidBody.cpp", "src/collision/shapes/*.cpp", "src/collision/ConvexMesh.cpp"],
  [("parallel axis theorem", "src/body/RigidBody.cpp: computeMassAndInertiaTensorLocal"), ("shape volume and inertia", "src/collision/shapes/*.cpp: getLocalInertiaTensor, getVolume")], observe=["getMass, getLocalCenterOfMass, getLocalInertiaTensor"])
T["C21"] = P("Convex hull construction yields the true convex hull",
  "Building a convex mesh from a set of points gives a closed, consistently oriented convex polyhedron whose vertices are input points and which contains every input point within tolerance; building it from user-given faces keeps vertices and faces; its half-edge structure is a closed 2-manifold, its face normals are unit and outward, its centroid (the mean of its vertices), bounds and volume are right. Point sets in a plane and face lists that are not a closed, consistently oriented surface are refused with an error message, never with a crash or endless loop.",
  ["inputs"], "All point sets (random, clustered, coplanar, duplicated, degenerate, few points) of ordinary size, either exactly flat or at least 5% as thick as wide, whose distinct points are clearly apart, and all convex polyhedra.",
  "Tests build a cube, a tetrahedron and a few small sets.",
  ["src/utils/quickhull/*.cpp", "src/collision/ConvexMesh.cpp", "src/collision/HalfEdgeStructure.cpp", "src/collision/PolygonVertexArray.cpp"],
  [("quickhull with face merging", "src/utils/quickhull/QuickHull.cpp"), ("half-edge construction", "src/collision/HalfEdgeStructure.cpp: computeHalfEdges")], observe=["ConvexMesh getters, messages"])
T["C22"] = P("Mesh and height-field data is validated and kept faithfully",
  "Triangle meshes and height fields created from user arrays (any stride, index type and value type) hold their own faithful copy: the same triangles in order, the same heights and unit normals, independent of later changes to the user's memory. Invalid input (indices out of range, no vertices, no valid triangle, grid below two by two) is refused with an error message, triangles of zero area or with an edge of zero length are dropped with a warning and nothing else is lost.",
  ["inputs", "configurations"], "All vertex, normal, index and height layouts, and invalid inputs; values of ordinary size, no nearly degenerate triangles.",
  "Tests use one or two array layouts and one or two invalid inputs.",
  ["src/collision/TriangleMesh.cpp", "src/collision/TriangleVertexArray.cpp", "src/collision/HeightField.cpp", "src/collision/VertexArray.cpp", "src/engine/PhysicsCommon.cpp"],
  [("copy and clean up", "src/collision/TriangleMesh.cpp: copyData"), ("height copy and range", "src/collision/HeightField.cpp: init")], observe=["TriangleMesh/HeightField getters, messages"])
T["C23"] = P("A mesh or height field behaves as the union of its triangles",
  "A convex body overlaps or collides with a mesh or height field exactly when it intersects one of its triangles, each contact lies on the surface with the normal of the triangle it is inside of (or, on an edge, one interpolated between the corners), the deepest triangle is among those a sphere is reported to touch, a ray hits at the first triangle it crosses from an enabled side, and the world box encloses the whole surface, under every scale and pose and however many triangles there are and in whatever order. A ball or capsule dropped on a gently curved surface stays on the side it came from.",
  ["inputs", "configurations"], "All meshes, height fields, scales, poses and probing shapes, away from grazing configurations.",
  "Tests probe one small mesh and one height field at one pose.",
  ["src/collision/shapes/ConcaveMeshShape.cpp", "src/collision/shapes/HeightFieldShape.cpp", "src/collision/TriangleMesh.cpp", "src/collision/HeightField.cpp", "src/systems/CollisionDetectionSystem.cpp"],
  [("triangle tree", "src/collision/TriangleMesh.cpp: initBVHTree"), ("grid cell range", "src/collision/HeightField.cpp: computeMinMaxGridCoordinates")], observe=["overlap, collision and ray queries; positions of dropped bodies"])
T["C24"] = P("The internal containers behave as their mathematical models",
  "After any sequence of operations the growable array, double-ended queue, stack, linked list, hash set, hash map and pair types hold exactly the elements their model holds, in the model's order where there is one; copies are equal and independent, lookups find exactly what was inserted, capacity operations do not change the content, and every element is constructed and destroyed exactly once.",
  ["histories"], "All sequences of valid container operations (arguments that are not elements of the container itself) with colliding hashes and non-trivial element types.",
  "The tests run fixed scripts of a few dozen operations.",
  ["include/reactphysics3d/containers/*.h"], [("reserve and rehash", "include/reactphysics3d/containers/Map.h, Set.h: reserve"), ("ring buffer of chunks", "include/reactphysics3d/containers/Deque.h")], observe=["container API, element life-cycle counters"])
T["C25"] = P("Mathematical identities hold",
  "Vectors, quaternions, 2x2 and 3x3 matrices, transforms, boxes and the geometric helper functions satisfy their defining identities within rounding: rotations preserve length and compose, inverse and transpose are right, quaternion, matrix and Euler conversions agree, interpolation goes from one end to the other at constant rate, projections, clipping, barycentric coordinates and closest points are right, and box merging, containment and overlap are exact.",
  ["inputs"], "All finite operands in ordinary ranges.",
  "Tests check fixed values only.",
  ["src/mathematics/*.cpp", "include/reactphysics3d/mathematics/*.h", "src/collision/shapes/AABB.cpp", "include/reactphysics3d/collision/shapes/AABB.h"],
  [("closed formulas", "src/mathematics/*.cpp")], observe=["function results"])
T["C26"] = P("Bodies and colliders report a consistent state",
  "What a user sets on a body or collider (transform, velocities, damping, locks, mass data, type, flags, user data, material, category, mask, local pose, scale, shape parameters) is what is read back, changes nothing else, and survives the addition and removal of other bodies; world and local coordinates convert consistently. The world box of a collider or body always encloses its placed shape and changes as soon as the body, its local pose or its shape does.",
  ["histories", "inputs"], "All sequences of setters over many bodies and colliders with creations and removals in between.",
  "Tests check single bodies right after creation.",
  ["src/body/Body.cpp", "src/body/RigidBody.cpp", "src/collision/Collider.cpp", "src/components/*.cpp", "src/collision/shapes/*.cpp"],
  [("component arrays indexed by entity", "src/components/Components.cpp"), ("broad-phase update on change", "src/collision/Collider.cpp, src/body/RigidBody.cpp")], observe=["getters"])
T["C27"] = P("Queries do not change the world",
  "Raycasts, point tests, overlap and collision queries, box queries and all getters change nothing that can be observed of the world, raise no event, and give the same answer when repeated at once. A simulation with raycasts, point tests, box queries and getters inserted anywhere, or with overlap and collision queries inserted between two consecutive steps, is bit-for-bit the same as without them.",
  ["histories"], "All histories of modifications, steps and queries (overlap and collision queries asked after a modification and before the next step may reorder the pairs, hence only the first sentence applies to them).",
  "No test compares a simulation with and without queries.",
  ["src/engine/PhysicsWorld.cpp", "src/systems/CollisionDetectionSystem.cpp"], [("queries use their own temporary contact and pair data", "src/systems/CollisionDetectionSystem.cpp: testCollision, testOverlap")], observe=["states, events, answers"])
T["C28"] = P("Inactive bodies are out of the world, and come back intact",
  "A body that is set inactive does not move, collide, give events, answer world queries or hold others through joints: the others move as if it had been destroyed. Activating it again brings it back where it is, at rest and awake, with its settings, colliders and joints and no force left over from before, and it then behaves as an equal body placed there. Enabling and disabling any number of times never duplicates or loses anything.",
  ["histories"], "All sequences of activation and deactivation mixed with steps, joints and contacts.",
  "One test toggles the flag without simulating.",
  ["src/body/Body.cpp", "src/body/RigidBody.cpp", "src/engine/PhysicsWorld.cpp"], [("removal from broad phase and disabling of components", "src/body/RigidBody.cpp: setIsActive")], observe=["motion, events, queries"])
T["C29"] = P("Debug rendering shows exactly the enabled items of the current state",
  "When debug rendering is enabled, after each step the primitives produced are exactly those of the enabled item kinds: the twelve edges of each collider or broad-phase box, one closed surface per collision shape placed at its current pose and size, one sphere and one segment of the right length and direction per contact point, normals standing on the faces of their shape, each kind in its own colour. Disabled kinds, bodies not selected for debugging and disabled rendering produce nothing, and rendering never changes the simulation.",
  ["histories", "configurations"], "All scenes, item selections and steps.",
  "There is no test of the debug renderer.",
  ["src/utils/DebugRenderer.cpp", "include/reactphysics3d/utils/DebugRenderer.h"], [("primitive generation", "src/utils/DebugRenderer.cpp: computeDebugRenderingPrimitives, onContact")], observe=["DebugRenderer arrays"])
T["C30"] = P("Log messages reach exactly the destinations that ask for them",
  "Every message logged reaches each registered destination whose level admits it, once, in order, in that destination's format with its world, category and text, and no other; errors in user input are reported through the message list or log and never silently change anything.",
  ["histories", "configurations"], "All sets of destinations, levels and message sequences.",
  "There is no test of the logger.",
  ["include/reactphysics3d/utils/DefaultLogger.h", "src/utils/DefaultLogger.cpp"], [("level comparison per destination", "DefaultLogger.h: StreamDestination::write, FileDestination::write")], observe=["streams and files"])
T["C31"] = P("Long simulations stay finite and bounded; bodies do not pass through floors",
  "Over hundreds to thousands of steps from ordinary scenes (heaps in a container, box stacks, short hanging chains, jointed bodies falling on a floor, fast bodies in a box) every position and velocity stays finite, orientations stay unit and static bodies do not move. The total energy does not rise beyond what the scene started with, stacks stay standing and fall asleep, joints hold together, and no body passes through a floor or wall.",
  ["histories", "inputs"], "All such scenes with positive masses, moderate sizes, speeds (a body crosses less than its own thickness per step) and step sizes up to 1/55 s, enough solver iterations for the scene.",
  "No test runs more than a few steps; slow drift, energy gain or sinking only shows over long histories.",
  ["src/systems/*.cpp", "src/engine/PhysicsWorld.cpp"], [("iterative impulse solver with warm starting", "src/systems/ContactSolverSystem.cpp, ConstraintSolverSystem.cpp")], observe=["trajectories"])
T["C33"] = P("Unconnected groups of bodies do not influence each other",
  "A group of bodies with no contact or joint to any other dynamic body moves as it would in a world of its own, however many other groups there are, wherever they are, and whether they sleep, wake, are disturbed or destroyed; static bodies do not connect groups. A group whose contacts and joints leave the solver no order to choose moves identically, any other within what the order of solving allows.",
  ["histories", "configurations"], "All scenes composed of several far-apart groups, sharing a static floor or none, compared with each group alone, body for body, in position, velocity and sleep state.",
  "No test compares a simulation with another.",
  ["src/engine/PhysicsWorld.cpp", "src/engine/Islands.h", "src/systems/ContactSolverSystem.cpp"], [("island decomposition", "src/engine/PhysicsWorld.cpp: createIslands")], observe=["trajectories"])
T["C34"] = P("Physics does not depend on the choice of frame",
  "Moving and turning a whole scene, together with gravity and all forces, and running the same steps gives the correspondingly moved and turned scene within rounding and what the order of solving allows. Exchanging the roles of the two bodies of a joint, or the order in which the two bodies of a pair are created, leads to the same motion.",
  ["inputs", "histories"], "All scenes of convex bodies, contacts and joints and all rigid motions of moderate size, compared before chaotic divergence can set in.",
  "No test relates two executions; a formula that uses a world axis or the wrong body's frame passes tests set up at the origin.",
  ["src/systems/*.cpp", "src/collision/narrowphase/**"], [("frame-independent formulas", "src/systems/*.cpp")], observe=["trajectories"])
