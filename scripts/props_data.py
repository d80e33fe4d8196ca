"""texts of the properties and of the registered checks"""
F = {
 "W": "src/Simu/physics/World.cpp", "WH": "include/Simu/physics/World.hpp", "PO": "include/Simu/physics/PhysicsObject.hpp",
 "B": "src/Simu/physics/Body.cpp", "BH": "include/Simu/physics/Body.hpp", "CO": "include/Simu/physics/Collider.hpp",
 "CN": "include/Simu/physics/Constraint.hpp", "I": "include/Simu/physics/Island.hpp", "C": "include/Simu/physics/Constraint.hpp",
 "RT": "include/Simu/physics/RTree.hpp", "BO": "include/Simu/physics/Bodies.hpp",
}
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note, level="other", state=None, thorough=True):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, level=level, state=state))


P("C01", "Dead objects leave the world through an ordered two-phase removal",
  "When a step begins, every body, constraint, contact and force field that was killed or whose own death condition holds (a constraint dies with any of its bodies) is removed before any other work of the step, and nothing else is removed by the step. All dead objects of all kinds are determined, unlinked from the bodies that list them, and told of their destruction before the first of them is destroyed. Killing an object is never undone and an object that is neither killed nor dying is never reported dead.",
  ["histories", "inputs"], "every sequence of creations, kills and steps, every mixture of dead objects of the four kinds and every death condition",
  "The tests kill single objects in small worlds; the order between the four kinds and partial sweeps only show with mixed simultaneous deaths.",
  ["src/Simu/physics/World.cpp", "include/Simu/physics/PhysicsObject.hpp", "include/Simu/physics/Constraint.hpp"],
  [("sweep at the start of a step", "World::cleanup, World::Cleaner"), ("death condition", "PhysicsObject::isDead, Constraint::shouldDie"), ("kill", "PhysicsObject::kill")],
  "interprocedural typestate dataflow with quantified loop facts over the inlined step",
  "Decides the protocol for every path of the step on the resolved program; assumes user overrides of the hooks call their base and do not modify the containers.")
P("C02", "Registered objects are owned once, linked to their bodies, and told so",
  "Creating a body, constraint, contact or force field puts exactly one owned object in the world, lets a body know its world before its construction hook, runs the construction hook exactly once, and lists a new constraint or contact in every one of its bodies, waking them. Contacts that are discarded while their bodies live are first taken out of the lists of those bodies, and destroying a world never lets a body be destroyed after the structures its destruction uses.",
  ["histories", "inputs"], "every creation call, every constraint over one or two bodies (structural or not), every order of clear, factory change and destruction",
  "The tests create a few objects of the stock kinds; partial linking only shows for unusual bodies or later steps and a destruction-order fault only as undefined behaviour.",
  ["include/Simu/physics/World.hpp", "src/Simu/physics/World.cpp", "include/Simu/physics/Constraint.hpp"],
  [("creation", "World::makeBody, makeConstraint, makeForceField, makeContactConstraint"), ("bulk removal", "World::clear, World::setContactFactory, World::~World")],
  "interprocedural typestate dataflow over every creating and discarding function, member destruction order query",
  "Decides registration, linking, waking and discarding on every path; the member order of the world decides its destruction order.")
P("C03", "Broad-phase index and world-space geometry always match the bodies",
  "A collider is in the world's spatial index from the moment it is added to a body until it is removed or its body is destroyed, and enters with an up-to-date bounding box; one whose description is refused leaves nothing in the body. Whenever a body's pose or centre of mass changes, the transformed vertices and bounding boxes of all its colliders are recomputed from the new pose before the change returns and before any collision pass. Removing a collider kills every contact that involves it.",
  ["histories", "inputs"], "every sequence of adding and removing colliders, destroying bodies and stepping, for bodies with any number of colliders in any contact",
  "The tests look at single-collider bodies; a stale box of a second collider or a missed contact needs a specific multi-collider history.",
  ["src/Simu/physics/Body.cpp", "include/Simu/physics/Body.hpp", "include/Simu/physics/Collider.hpp", "src/Simu/physics/World.cpp", "include/Simu/physics/Island.hpp"],
  [("collider list and index", "Body::addCollider, Body::removeCollider, ~Body, World::addCollider, World::removeCollider"), ("refresh", "Body::update, Colliders::update, Collider::update"), ("write back", "Island::endSolve")],
  "typestate dataflow (stale/fresh geometry, indexed/unindexed collider) over every mutating entry point",
  "Decides membership and freshness on every path; the index itself is covered by the tree properties.")
P("C04", "A step runs every hook once and works only between them",
  "Each step calls the pre-step hook once on every object present after the removal of dead ones, before any force is applied, constraint solved, pose or velocity written or collision sought, and calls the post-step hook once on every object after all of that. When the time step is not positive, none of that work happens; when it is positive, forces are applied before constraints are solved, exactly one collision pass runs, and forces, solver and sleeping bookkeeping all receive the given time step unchanged.",
  ["inputs", "histories"], "every world content and every time step value including zero, negative and tiny ones",
  "The tests use positive steps and objects whose hooks do nothing.",
  ["src/Simu/physics/World.cpp", "include/Simu/physics/World.hpp", "include/Simu/physics/Island.hpp"],
  [("phases", "World::step"), ("work", "World::applyForces, solveIslands, World::updateBodies")],
  "interprocedural dataflow with quantified loop facts and guard facts on the time step",
  "Decides the phase protocol on every path of the inlined step; hooks of the user are opaque.")

P("C05", "Contacts mirror the overlapping pairs the index reports",
  "During the collision pass a reported pair of colliders is ignored exactly when both belong to the same body, both bodies are structural, or a constraint naming both bodies disables contacts; every other reported pair ends the pass with exactly one registered contact, whichever order the pair is reported in. After the pass every contact whose pair was not reported is killed and no contact whose pair was reported is. No report is remembered for the next pass.",
  ["histories", "inputs"], "every sequence of reported pairs in either order, every set of existing contacts and of constraints between the two bodies",
  "The tests report a pair in one order for a few steps; flipped orders, several constraints and stale marks only show over specific histories.",
  ["src/Simu/physics/World.cpp", "include/Simu/physics/World.hpp"],
  [("collision pass", "World::detectContacts, World::updateBodies"), ("registry", "World::inContacts, World::contacts_")],
  "path-sensitive dataflow over the collision callback and quantified sweep facts over the contact registry",
  "Decides pairing, creation and killing on every path of the pass; whether the index reports every overlap is a separate property.")
P("C06", "Each group is solved in one fixed order and written back completely",
  "For every group of bodies solved together in a step: all its constraints and contacts are initialised once before any is warm-started; each is warm-started once exactly when warm starting is enabled, before velocities are solved; velocities are then solved the configured number of iterations over all of them. Every body of the group then moves exactly once, by its own solved velocity times the time step, before the configured number of position iterations over all constraints and contacts. Finally every body of the group gets its own solved velocity and pose back, after which no constraint of the group is solved or keeps access to the group's state.",
  ["inputs", "histories"], "every world content, any number of groups, iteration counts including zero, warm starting on or off",
  "The tests run default settings on small worlds; an omitted list, an off-by-one iteration count or a stale reference survives because solving still converges.",
  ["include/Simu/physics/Island.hpp", "src/Simu/physics/World.cpp", "include/Simu/physics/Bodies.hpp"],
  [("solving", "solveIslands, Island::refreshProxies, applyVelocityConstraints, integrateBodies, applyPositionConstraints, endSolve"), ("solver state", "Bodies::startSolve, Bodies::endSolve")],
  "interprocedural typestate dataflow with quantified loop facts, iteration-bound provenance and pairing queries",
  "Decides the order, coverage and counts of callbacks on every path; what a callback computes is covered elsewhere.")
P("C07", "Groups hold each body and every active constraint of moving bodies once",
  "Every body of the world is put in a group in every step with a positive time step. Each body of a group that is not structural has all of its constraints and contacts considered; each joins the group once exactly when it is active, together with both of its bodies, and one that does not join leaves no trace in the group or on its bodies. A body joins a group at most once, starting from its own pose and velocity, and is not solved again once its group is finished unless another group's constraint names it.",
  ["inputs", "histories"], "every graph of bodies and constraints, every mixture of active and inactive constraints and of structural bodies",
  "The island tests cover a few hand-built graphs; leftovers of inactive constraints need a particular graph and order to matter.",
  ["include/Simu/physics/Island.hpp", "include/Simu/physics/Bodies.hpp", "src/Simu/physics/Body.cpp"],
  [("search", "Island::init, Island::addConstraint, Island::addBody"), ("worklist", "solveIslands")],
  "path-sensitive balance dataflow over the joining of a constraint, quantified facts over the search and the worklist",
  "Decides membership on every path of the search; the answer of each constraint about being active is its own.")
P("C08", "Nothing is used after its removal or changed while it is walked",
  "Removing a body, collider, contact, constraint or force, or an entry of any container, leaves no iterator, reference, pointer or running loop that is still used although the removal or growth made it invalid, whether the change is made directly, by a called function or by a callback. No container is grown or shrunk by the traversal that is walking over it, and no function hands out a reference to its own local.",
  ["histories", "inputs"], "every function of the library and every order of additions and removals",
  "A freed list node usually still holds its old bytes, so the tests pass on it; the failing orders of removal and reallocation are rare.",
  ["include/Simu/physics/Body.hpp", "include/Simu/physics/Collider.hpp", "include/Simu/physics/World.hpp", "src/Simu/physics/World.cpp", "include/Simu/physics/Island.hpp", "include/Simu/physics/RTree.hpp"],
  [("removal", "World::cleanup, World::removeCollider, Body::removeCollider, Colliders::remove, ~Body"), ("walks", "the loops and callbacks of the world, its islands and the tree")],
  "iterator and reference invalidation dataflow with interprocedural container effects",
  "Decides every path of every function; containers are told apart by field, objects only by this object and the parameters.")
P("C09", "Each force field acts once per step on exactly the colliders it should",
  "In every step with a positive time step, each force field of the world is applied exactly once, with that time step, to every collider of its domain whose body is neither asleep nor structural, and to no other collider: a global field reaches every collider of the world, another one those the index reports for the field's own region. All of this happens before constraints are solved. The supplied fields change nothing of a body but its velocity and wakefulness.",
  ["inputs", "histories"], "every set of force fields, domains, bodies asleep, structural or not, and bodies with several colliders",
  "The tests apply one global field to a few awake single-collider bodies.",
  ["src/Simu/physics/World.cpp", "include/Simu/physics/ForceField.hpp"],
  [("application", "World::applyForces, ForceField::domain, ForceField::apply"), ("supplied fields", "LinearField::apply, Gravity::apply")],
  "interprocedural dataflow with quantified loop facts over fields and colliders, transitive effect analysis of the supplied fields",
  "Decides who receives each field on every path; which colliders the index reports for a region is a separate property.")
P("C10", "Bodies fall asleep only when due and wake whenever they must",
  "Only a step can put a body to sleep: it does so exactly when sleeping is enabled and the magnitudes of both its velocity and its rotation speed stayed below their thresholds for the configured delay, a clock that advances once per step by the time step while both are below and restarts otherwise. Every change of a body's velocity and every loss of a constraint or contact wakes it. If any body of a group that is solved together is awake, all bodies of the group are woken before the group is solved.",
  ["histories", "inputs"], "every sequence of steps, impulses and removals, both rotation directions, every sleeping configuration and group",
  "The tests let a few bodies come to rest; opposite rotations, resets of the clock and mixed groups need specific histories.",
  ["src/Simu/physics/World.cpp", "src/Simu/physics/Body.cpp", "include/Simu/physics/Body.hpp", "include/Simu/physics/Island.hpp", "include/Simu/physics/Constraint.hpp"],
  [("sleeping", "World::updateBodies, Body::isImmobile, Body::updateTimeImmobile, Body::canSleep"), ("waking", "Body::wake, Body::applyImpulse, Body::setVelocity, Island::wake, Island::isAwake")],
  "path-sensitive dataflow over threshold guards and the sleep clock, group wake typestate, write inventory",
  "Decides the guards and the waking on every path of the step and of the body's own methods.")

LAW = "value-numbering abstract interpretation of the repository's functions in a polynomial normal-form domain, comparing both sides of each law"
LAWNOTE = " Arithmetic is taken as exact; laws the domain cannot decide are listed in the evidence and never alarmed on."
P("C11", "Vector and matrix operations compute their textbook definitions",
  "For every size and value type, elementwise and scalar arithmetic, matrix products, transposes, rows, columns, filled, identity, diagonal and constructed matrices have exactly the entries their definitions give, and compound assignments leave the same value as the plain operation even when an operand is the object itself. Dot and cross products, norms, normalisation, perpendiculars and projections satisfy their defining identities, and comparisons, minima and maxima act entry by entry.",
  ["inputs"], "every entry value, every shape and value-type combination the law file instantiates",
  "The tests check a handful of literal matrices; aliasing, non-square shapes and particular entries escape them.",
  ["include/Simu/math/Matrix.hpp", "include/Simu/math/Matrix.inl.hpp"],
  [("matrices and vectors", "Matrix, MatrixData, Vector, dot, cross, norm, normalized, perp, projection")], LAW,
  "Decides each law for all values as an identity of normal forms." + LAWNOTE)
P("C12", "Linear and complementarity solvers return what solves the problem",
  "Solving a regular system of size one or two directly, or inverting the matrix, gives a solution whose product with the matrix is the right-hand side; a singular matrix of that size is reported as such. The factors of a decomposition are orthogonal and triangular, back substitution inverts the triangular factor. One sweep of the inequality solver updates each unknown in turn from the current others, clamped by the given projection, and a complementarity solution it reports as valid has non-negative unknowns and residuals that are orthogonal.",
  ["inputs"], "every matrix and right-hand side of the sizes instantiated, every projection function",
  "The tests solve a few literal well-conditioned systems; an index that only matters off the diagonal, or an active-set case never reached, escapes them.",
  ["include/Simu/math/Matrix.hpp", "include/Simu/math/Matrix.inl.hpp"],
  [("solvers", "solve, invert, Solver, LcpSolver, solveInequalities")], LAW,
  "Decides the identities for sizes one to three; accuracy in floating point and convergence of the sweeps are out of reach." + LAWNOTE)
P("C13", "Rigid transforms preserve shape, compose and invert",
  "A rotation keeps lengths, angles and orientation, a translation shifts every point by its offset, and a transform applies rotation before translation. Applying a composed transform equals applying its parts in order, and applying a transform then its inverse gives back every point.",
  ["inputs"], "every angle, offset and point, every composition of two transforms",
  "The tests use a few right angles, where a swapped sine or a wrong order can cancel.",
  ["include/Simu/physics/Transform.hpp"],
  [("transforms", "Rotation, Transform, Transform::inverse, operator*")], LAW,
  "Decides each law for every angle, using only that sine and cosine are on the unit circle." + LAWNOTE)
P("C14", "Constraint rates match their errors, and impulses conserve momentum",
  "For the hinge, weld, rotation and distance constraints, the velocity the constraint measures is the time derivative of the error it measures. The impulse pair it applies conserves momentum for any multiplier, and impulses and corrections act on the proxies exactly through the inverse masses and inertias, leaving everything else unchanged. A new constraint is satisfied where it was made, takes the inverse masses its dominances ask for, and several stacked in one keep each its own rows.",
  ["inputs"], "every pose, velocity, anchor, mass and multiplier of two bodies",
  "The tests watch whole scenes settle; a wrong sign or lever arm in one column only shows for particular poses and still settles.",
  ["include/Simu/physics/ConstraintFunction.hpp", "include/Simu/physics/Bodies.hpp", "include/Simu/physics/Bodies.inl.hpp"],
  [("rates", "HingeConstraintFunction, WeldConstraintFunction, RotationConstraintFunction, DistanceConstraintFunction"), ("impulses", "Proxies::applyImpulse, applyPositionCorrection"), ("construction", "HingeConstraintFunction, DistanceConstraint, WeldConstraint, Bodies, ConstraintFunctions")], LAW,
  "Derives the rate of each error by formal differentiation along the motion and compares it with the Jacobian product." + LAWNOTE)
P("C15", "Constraint solvers apply what they accumulate, within bounds and limits",
  "After each velocity solve of an equality constraint its residual, with bias, damping and restitution, is zero, and the impulse it applied is exactly the change of its accumulated multiplier, which stays inside the function's bounds. A limited constraint acts only at or beyond a limit, pushes only back from it, corrects positions exactly to it, and is active exactly when it can act. Warm starting re-applies the scaled former multiplier once, and only if the same limit acts.",
  ["inputs", "histories"], "every error, Jacobian, bias, bound, limit, damping, restitution, mass and sequence of solves",
  "The tests run stock constraints in a scene; accumulated clamping, limits that swap between steps and warm starts only differ over particular histories.",
  ["include/Simu/physics/ConstraintSolver.hpp"],
  [("solvers", "EqualitySolver, InequalitySolver, LimitsSolver, ConstraintSolverBase")], LAW,
  "The solvers are instantiated with an arbitrary constraint function and decided for all of its values." + LAWNOTE)
P("C16", "Invalid input is refused before use and valid input is accepted",
  "Making a constraint throws exactly when a body is missing, both bodies are structural, a distance limit is not positive or no limit is given; a lower limit above the upper one, a mass, inertia or density that is not positive, a shape without surface, fewer than three vertices, a zero direction and a wrong number of coefficients or bodies throw likewise, before any of it is used. Solving with a singular matrix or a constraint that cannot move its bodies throws. Anything else is accepted.",
  ["inputs"], "every value of every argument, each absent or present",
  "The tests try a few invalid arguments; a bound off by one, an absent optional or a check after the first use needs the exact input.",
  ["include/Simu/physics/ConstraintInterfaces.hpp", "include/Simu/physics/Bodies.inl.hpp", "include/Simu/physics/DistanceConstraint.hpp", "include/Simu/physics/ConstraintSolver.hpp", "include/Simu/physics/Collider.hpp", "include/Simu/math/Polygon.inl.hpp", "include/Simu/math/Matrix.inl.hpp"],
  [("preconditions", "constructors of Constraint, Bodies, DistanceConstraint, Polygon, MassProperties, Mass; setters of LimitsSolver; Solver")], LAW,
  "Decides the exact condition of every listed refusal." + LAWNOTE)
P("C17", "Nothing is read or left behind without a value",
  "Whatever way an object of the library is made, every number, flag and pointer it holds has a value as soon as it can be used: constructors leave nothing unset on any path, and what a constraint leaves for later is set by its initialisation before it is ever solved. No function reads a variable on a path on which nothing was stored in it, and no initialiser reads a part that is initialised after it.",
  ["inputs", "histories"], "every constructor of every class and every path of every function, including those only unusual input takes (empty ranges, default and moved-from objects)",
  "An indeterminate value is often zero by luck in the tests, and the paths that leave one are those for empty or moved-from objects.",
  ["include/Simu/physics/BoundingBox.hpp", "include/Simu/physics/RTree.hpp", "include/Simu/physics/Body.hpp", "include/Simu/physics/ConstraintSolver.hpp", "include/Simu/math/Matrix.inl.hpp"],
  [("constructors", "every constructor of include/Simu and src/Simu"), ("preparation", "initSolve of the solvers and contacts")],
  "definite-assignment dataflow over every function, constructors completed through the functions of the class they call",
  "Decides every path of every function; arrays and records count as written once an element or part of them was.")
P("C18", "Motors drive towards their target within their force limits",
  "A motor measures the velocity of its body minus its target velocity along its direction, never corrects positions, and its impulse over a step only pushes along its direction, by at most its throttled force or torque limit times the duration, and is left alone when inside. The throttle always lies between zero and one and starts at one, directions are unit vectors or zero, and each way of specifying a motor yields the stated speed and force.",
  ["inputs"], "every velocity, throttle, direction, limit and time step, every way of specifying a motor",
  "The tests run one motor of each kind forward; negative directions, throttles outside the range and per-axis clamps escape them.",
  ["include/Simu/physics/Motors.hpp"],
  [("motors", "RotationMotorFunction, TranslationMotorFunction, RotationMotor, TranslationMotor")], LAW,
  "Decides bounds and targets for every value." + LAWNOTE)
P("C19", "Intervals, boxes, edges and polygons measure what they claim",
  "Overlap, containment, combination, centre and scaling of boxes and intervals agree with the point sets they stand for, an invalid box behaving as empty. The side, normal, distance, closest point and clipping of edges and segments, and the closest point of a triangle with its coordinates, satisfy their defining conditions. Area, centroid and moment of a polygon equal the integrals over it, whichever way its vertices turn; edge iteration and support points visit and select the right vertices.",
  ["inputs"], "every coordinate, touching and degenerate cases included, for the shapes the law file instantiates",
  "The tests use unit squares and triangles near the origin, for which many wrong formulas agree.",
  ["include/Simu/math/Geometry.hpp", "include/Simu/math/Geometry.inl.hpp", "include/Simu/math/Interval.hpp", "include/Simu/math/Edges.hpp", "src/Simu/math/Geometry.cpp", "src/Simu/math/BarycentricCoordinates.cpp", "src/Simu/physics/BoundingBox.cpp"],
  [("measures", "BoundingBox, Interval, Edges, GeometricProperties, BarycentricCoordinates, furthestVertexInDirection")], LAW,
  "Decides the laws for all coordinates of triangles and quadrilaterals; longer polygons are covered through the same loop body only." + LAWNOTE)
P("C20", "Contacts push bodies apart along the contact and rub within friction",
  "The rate a contact measures at each point is the relative velocity of the bodies there along the contact's normal or tangent, its normal impulses only push, its friction lies within the friction coefficient times the normal impulse, and what it applies is what it accumulates, equal and opposite. It bounces only above the threshold speed, corrects positions only for penetration beyond the tolerance and only apart, and a warm start repeats the former impulses. Contact points lie on the clipped incident face inside the reference face, and a renewed contact keeps an impulse only where its point persists.",
  ["inputs"], "every pose, velocity, mass, material and contact frame of two bodies, one or two contact points, either body holding the reference face",
  "The tests watch stacks settle; a sign, a swapped point or an unclamped tangent still settles in the symmetric scenes they use.",
  ["include/Simu/physics/ContactManifold.hpp", "include/Simu/physics/Constraint.hpp", "include/Simu/physics/Constraint.inl.hpp"],
  [("manifold", "ContactManifold, ContactConstraint")], LAW,
  "The two-point complementarity solver is left uninterpreted; the choice of the collision normal is out of reach." + LAWNOTE)
P("C21", "The collision search finds the origin and answers the nearest feature",
  "Two convex shapes are reported to collide exactly when the search found a triangle of their difference that holds the origin, and not to only after no furthest point lay past the origin or no new point was found. Every search point is the difference of both shapes' furthest points in opposite directions, and each further search looks from the simplex towards the origin. The penetration answered points to the nearest edge of the grown polytope, the separation to the nearest point of the simplex, and both are zero in the opposite case.",
  ["inputs"], "every pair of shapes through their support points, every order in which points are found",
  "The tests query a few boxes; degenerate simplices, clockwise triangles and repeated support points only arise for particular shapes and directions.",
  ["include/Simu/math/Gjk.hpp", "include/Simu/math/Gjk.inl.hpp"],
  [("search", "Gjk, priv::Simplex"), ("answers", "Gjk::penetration, Gjk::separation, priv::Polytope")], LAW + "; path-sensitive dataflow over the search loop",
  "Decides single rounds of the search and its verdict on every path; termination and minimality over the whole search are out of reach." + LAWNOTE)
P("C22", "A body's mass, pose and velocity follow from its colliders and impulses",
  "The mass of a body is the sum over its colliders of density times area, its centroid their weighted mean, its inertia taken about that centroid, whatever colliders are added or removed in whatever order. An impulse changes momentum by exactly its value and spin by exactly its moment and moves nothing; a force acts as its impulse over the time step. Local and world coordinates are inverse rigid maps, moving about keeps the centroid consistent, and adding or removing a collider keeps the velocity of the material.",
  ["inputs", "histories"], "every pose, velocity, impulse, density and set of colliders",
  "The tests use one centred box; offsets, several colliders and removal of one of them escape them.",
  ["include/Simu/physics/Body.hpp", "src/Simu/physics/Body.cpp", "include/Simu/physics/Collider.hpp"],
  [("mass", "MassProperties, BodyColliders, Body::mass, Body::inertia"), ("pose", "Position, Body::toWorldSpace"), ("impulses", "Body::applyImpulse, Body::applyForce")], LAW,
  "Decides each law for all values; several colliders are two or three of arbitrary shape." + LAWNOTE)
P("C23", "Materials combine by the stronger mode, fields act as specified",
  "The combined value of two material properties follows the stronger of their two modes and does not depend on their order, and a contact uses those combinations of its own two colliders. A polygon keeps its vertices in counterclockwise order whichever way they are given, a box has the stated size and centre, and a collider starts with the polygon and material it was given. A linear field gives each collider its share, by mass, of the stated force on the body, gravity pulls each collider at its own centroid with its mass times the stated acceleration, and each reports its own domain.",
  ["inputs"], "every property value and pair of modes, every triangle, box, position, mass and time step",
  "The tests combine a few values and use fields in a scene; a swapped mode, order or sign escapes them.",
  ["include/Simu/physics/CombinableProperty.hpp", "include/Simu/physics/Material.hpp", "include/Simu/math/Polygon.hpp", "include/Simu/math/Polygon.inl.hpp", "include/Simu/physics/ForceField.hpp"],
  [("materials", "CombinableProperty, Material"), ("polygons", "Polygon, Collider"), ("fields", "LinearField, Gravity, ForceField::domain")], LAW,
  "Decides each law for all values of triangles and boxes." + LAWNOTE)
P("C24", "Assertions and profiling never change what the library does",
  "Compiling the library without its profiler, without its assertions, or without both leaves everything else it does unchanged: no assertion's condition has an effect, and nothing but measures is written by measuring code. No measure is ever read by the simulation. A measure that was begun is recorded once, even when its timer is moved.",
  ["configurations", "inputs"], "every function of the library in each of the four build configurations",
  "The tests are built in one configuration only, so a side effect inside an assertion or a statement that exists only while profiling is never noticed.",
  ["include/Simu/config.hpp", "include/Simu/physics/Profiler.hpp", "include/Simu/physics/World.hpp", "src/Simu/physics/World.cpp", "include/Simu/physics/Island.hpp"],
  [("assertions", "SIMU_ASSERT"), ("measures", "Profiler, TimeEntry, SIMU_PROFILE_ENTRY")],
  "structural comparison of the resolved program across build configurations, interprocedural write-effect analysis of assertion conditions",
  "Decides every function the library and its templates resolve to in the four configurations; assumes const members of the standard library write nothing.")
P("C25", "The spatial index keeps its leaves and answers with exactly those asked for",
  "Adding, removing, moving and rotating leaves keeps every other leaf in the index, links every node to its parent, and leaves every inner box the union of the boxes below it, all the way up. A region or point query visits exactly the leaves whose boxes meet it, each once, and a leaf's own query visits every other leaf it overlaps. Refreshing all leaves reports each pair of leaves whose new boxes overlap exactly once, and iteration visits each leaf once.",
  ["inputs", "histories"], "every box, every shape of the subtrees around the leaf that is added, removed, moved or asked about",
  "The tests insert a few random boxes; a lost leaf, a stale box above or a pair reported twice needs a particular shape of tree.",
  ["include/Simu/physics/RTree.hpp", "include/Simu/physics/RTree.inl.hpp", "include/Simu/physics/BoundingBox.hpp"],
  [("structure", "RTree::Node, RTree::addLeafTo, RTree::extract, RTree::refit, RTree::checkRotation"), ("answers", "RTree::forEachIn, forEachAt, forEachOverlapping"), ("moves", "RTree::update, RTree::updateAndCollide")], LAW,
  "Decides single operations on trees of up to four leaves around the changed place, with all boxes free or free along one axis; whole insertion histories follow only by repetition of the same step." + LAWNOTE)
P("C26", "The same calls on a world give the same results, wherever its objects lie",
  "What a step does follows from the calls made on the world and the numbers given: it reads no clock, measured time, random source, thread or process surroundings, and nothing that changes outlives or is shared by worlds. No decision is made by the order or value of the addresses of objects. Wherever contacts are visited in the order of a table keyed by addresses, each is treated alone, so the order cannot be seen in the bodies.",
  ["histories", "configurations"], "every history of calls, every placement of objects in memory, every load of the machine, any number of worlds in one process",
  "A test runs in one process with one layout of memory; a result that depends on addresses, time or another world is the same there every time.",
  ["src/Simu/physics/World.cpp", "include/Simu/physics/World.hpp", "include/Simu/physics/Island.hpp", "include/Simu/physics/RTree.hpp", "include/Simu/physics/Profiler.hpp"],
  [("table keyed by addresses", "World::contacts_, World::step, World::updateBodies, World::cleanup"), ("order of solving", "Island::init, solveIslands")],
  "effect analysis of the loops over address-ordered containers, and a search of every resolved call, comparison and static variable for influences from outside",
  "Every function of the library is searched; hooks of the user called for several contacts in one step may see them in any order, and where an allocator places storage is not counted as a result.")
