"""Writes /verif/properties.jsonl (kept as a generator so that the JSON stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    assert len(title) <= 80, (id, len(title))
    P.append(d)

B, C, K, E, W, U, F = ("lcp_physics/physics/bodies.py", "lcp_physics/physics/constraints.py",
    "lcp_physics/physics/contacts.py", "lcp_physics/physics/engines.py", "lcp_physics/physics/world.py",
    "lcp_physics/physics/utils.py", "lcp_physics/physics/forces.py")
L, PD, LU = "lcp_physics/lcp/lcp.py", "lcp_physics/lcp/solvers/pdipm.py", "lcp_physics/lcp/util.py"

prop("C01", "A body's mass matrix is that of a uniform solid of its shape and mass",
 "For every circle, rectangle and convex hull, whatever its size and mass, the generalised mass matrix is block diagonal with the moment of inertia first and the mass twice, with zeros elsewhere. The moment of inertia is that of the uniform solid about its centroid (half m r squared; m(w squared + h squared)/12; the polygon formula over the hull's edges), linear in the mass.",
 ["inputs"], "all radii, extents, vertex lists (any count), masses and velocities",
 "One hull test compares two inertias (one-sidedly, without abs); the mass matrix and its off-diagonal blocks are never read.",
 [B], [("mass matrix assembly", "Body.__init__"), ("per-shape inertia", "_get_ang_inertia of Circle, Rect, Hull")])
prop("C02", "A body sits where its constructor arguments put it",
 "A hull's position is its reference point plus the area centroid of its vertices, and position plus stored vertex gives back every vertex that was passed in; a rectangle's four corners are at plus and minus half its dimensions around its position, in the orientation that makes edge normals point outward, turned by the initial angle when a three-component position is given. Positions and velocities of two components get a zero angle and zero angular velocity in front. Hulls with fewer than three vertices, or with the opposite winding, are rejected.",
 ["inputs"], "all positions (2 or 3 components), dims, reference points and vertex lists",
 "testCentroid checks one symmetric hull; rectangle corners, winding and initial rotation are not asserted.",
 [B], [("centroid shift", "Hull.__init__/_get_centroid"), ("winding check", "Hull._is_clockwise"), ("corner table", "Rect.__init__")])
prop("C03", "Pose, vertices and collision geometry always agree",
 "After any change of pose (construction, setting a pose, or moving for a time step) the body's angle and position, the positions of its vertices, the position of its collision geometry, and for rectangles the orientation of that geometry, all correspond to the one current pose. Vertices turn by exactly the change of angle, rigidly.",
 ["inputs", "histories"], "every sequence of pose changes, every body class, any old and new pose",
 "Tests call set_p/move once per class and assert nothing about geometry or vertices.",
 [B], [("pose update", "Body.set_p and overrides"), ("vertex rotation", "Hull.rotate_verts, Rect.rotate_verts"), ("rotation matrix", "utils.rotation_matrix")],
 [("p/rot/pos", "generalised pose and its two slices", "Body"), ("verts", "vertices in the body frame orientation", "Hull"), ("geom", "ODE geometry used by the broadphase", "Body")])
prop("C04", "Moving a body advances its pose by velocity times time, and nothing else",
 "Moving any body for a time dt adds dt times its generalised velocity (angular and linear alike) to its pose, for every body class and any dt. Its velocity, mass properties, material and applied forces are left unchanged.",
 ["inputs"], "all poses, velocities and dt; all body classes", "testCircle/testRect call move once without asserting anything.",
 [B], [("integration", "Body.move and overrides")])
prop("C05", "The net force on a body is the sum of the forces attached to it",
 "The force applied to a body at time t is the sum of all its attached forces at t, and zero when there are none; gravity is mass times g pointing down, constant in time; an external force is the force function at t times its multiplier, and the built-in impulses act only before t = 0.1. The world's force vector lists the bodies' forces in body order.",
 ["inputs"], "any number of forces and bodies, any t, mass, g and multiplier",
 "Tests attach forces but never check the resulting vector.",
 [F, B, W], [("summation", "Body.apply_forces"), ("force objects", "forces.ExternalForce, Gravity, *_impulse"), ("world vector", "World.apply_forces")])
prop("C06", "Each joint's Jacobian is the derivative of the constraint it declares",
 "A revolute joint constrains exactly the relative velocity of its anchor on the two bodies (or of the anchor itself, with one body), a fixed joint additionally the relative angular velocity, and the axis, rotation and total constraints exactly the named components of one body's velocity. The number of rows returned always equals the number of constraints the joint declares.",
 ["inputs"], "all anchor offsets and bodies, one- and two-body joints, all six joint classes",
 "No test reads a joint Jacobian; the demos only run it.",
 [C], [("J()", "every class in constraints.py"), ("declared size", "num_constraints")])
prop("C07", "Joints follow their bodies",
 "When a joint advances by dt its anchor turns about the first body by that body's angular velocity times dt, keeps its distance from it, and is re-attached to the body's current position; for a two-body joint the offset from the second body is recomputed from that same anchor. Construction leaves the same relations in place with the anchor at the position given.",
 ["inputs", "histories"], "all bodies, anchors, velocities and dt, every joint class", "No test checks anchors after a step.",
 [C, U], [("anchor update", "move/update_pos of the joint classes"), ("polar form", "utils.cart_to_polar/polar_to_cart")])
prop("C08", "Every joint acts on its own bodies, in the world's equality system",
 "The world's equality Jacobian holds, for each joint in turn, that joint's rows in the columns of its first body and, for a two-body joint, of its second body, and zeros elsewhere; rows of different joints never overlap and their number is the sum of the declared constraint counts. The world mass matrix is block diagonal with each body's own mass matrix, and velocity vectors are split and joined in body order.",
 ["configurations", "inputs"], "any number and mix of bodies and joints",
 "Only whole-simulation smoke tests build a world; matrices are never inspected.",
 [W], [("assembly", "World.__init__, World.Je, World.M"), ("velocity vector", "World.set_v/set_p")])
prop("C09", "Contact and friction rows obey action and reaction",
 "Each contact contributes one normal row and one pair of opposite tangential friction rows, which map velocities to the relative velocity of the two bodies' contact points along the contact normal (body one minus body two) and along the perpendicular directions. The linear parts on the two bodies are equal and opposite and the angular parts are the moments of the same line of force about each body's centre, so contact impulses never create net linear momentum; all other columns are zero.",
 ["inputs", "configurations"], "any number of bodies and contacts, any normals and contact points",
 "No test reads these matrices, and the contact solve cannot even run on the installed torch.",
 [W, U], [("Jc", "World.Jc"), ("Jf", "World.Jf"), ("perpendicular", "utils.left_orthogonal, cross_2d")])
prop("C10", "Contact material depends symmetrically on both bodies",
 "The restitution and the friction coefficient used for a contact are the averages of the two touching bodies' coefficients, one value per contact in contact order, and swapping the two bodies changes nothing. The friction coupling matrix ties every friction direction of a contact to that contact alone.",
 ["inputs", "configurations"], "any contacts, bodies and coefficients", "No test asserts restitution or friction values.",
 [W], [("restitutions", "World.restitutions"), ("friction", "World.mu/_memoized_mu"), ("coupling", "World.E/_memoized_E")])
prop("C11", "A step without contacts solves the constrained equations of motion",
 "With no contacts, the new velocity satisfies M v' = M v + dt f up to constraint forces J^T lambda, together with J v' = 0 for all joints, and without joints it is exactly v + dt M^-1 f. The forces are those at the current time and each force is counted once.",
 ["inputs", "configurations"], "any masses, velocities, forces, dt and any number of joints",
 "Tests run this branch in demos but assert no velocity.",
 [E], [("KKT system", "PdipmEngine.solve_dynamics, no-contact branch")])
prop("C12", "A step with contacts poses the contact problem to the LCP solver faithfully",
 "With contacts, the solver is given the mass matrix, the momentum plus impulse, the joint rows with zero right-hand side, inequality rows for normal, friction and friction-cone variables in that order with restitution times the approach velocity on the normal rows only, and a coupling matrix whose only blocks are the friction coupling, the friction coefficients and its negative transpose. The new velocity is the negated solution.",
 ["inputs", "configurations"], "any number of bodies, joints, contacts and friction directions",
 "On the installed torch this branch raises before solving, so every test that reaches it fails either way.",
 [E, W], [("LCP assembly", "PdipmEngine.solve_dynamics, contact branch")])
prop("C13", "A cached system inverse is never stale",
 "The engine reuses a factorised system only when nothing it was built from can change: every joint marked static has a Jacobian that does not depend on anything that moves, one non-static joint in a world disables the reuse, and nothing changes the mass matrix after construction. A velocity computed with the cache therefore always equals the one computed without it.",
 ["histories", "configurations"], "all step sequences, all mixes of joints", "Needs a multi-step history with asserts; tests have none.",
 [E, W, C], [("cache", "PdipmEngine.cached_inverse"), ("static flags", "World.static_inverse, joint.static")])
prop("C14", "No step is accepted with penetration beyond tolerance",
 "In strict mode a world refuses to start with any contact penetrating more than the tolerance, and every step ends only in a configuration in which all contacts, recomputed at the final positions, penetrate at most the tolerance; otherwise the step is retried with half the time. In non-strict mode the only other way out is that the time tried has fallen below a quarter of the nominal step.",
 ["inputs", "histories"], "all worlds, velocities and step sizes; before any optional post-stabilisation correction",
 "Depends on every retry path of the step loop; no test asserts penetration after a step.",
 [W], [("acceptance loop", "World.step_dt"), ("initial check", "World.__init__"), ("contact refresh", "World.find_contacts")])
prop("C15", "A retried step leaves no trace of the rejected attempts",
 "Whatever number of attempts were rejected, an accepted step leaves every body and joint exactly where one motion of the accepted duration, with the velocities solved at the start of the step, takes it from the state at the start of the step. Simulated time advances by exactly that duration.",
 ["histories", "inputs"], "any number of halvings, all body and joint classes, with post-stabilisation off",
 "Needs a step that rejects at least one attempt and a comparison of the whole state; no test does that.",
 [W, C], [("rollback", "World.step_dt"), ("time", "World.t")])
prop("C16", "Post-stabilisation corrects positions and keeps velocities",
 "When post-stabilisation is on, it moves bodies and joints once more by a separately solved correction over the accepted duration, with half weight, and afterwards all velocities are those of the dynamics solve, and contacts are recomputed at the corrected positions. When it is off nothing of this happens, and simulated time never counts the correction.",
 ["histories", "inputs"], "all worlds and steps", "testDemo and others never enable it; nothing asserts velocities.",
 [W, E], [("correction", "World.step_dt, PdipmEngine.post_stabilization")])
prop("C17", "Contacts are geometrically consistent for every pair of shapes",
 "Every reported contact consists of a unit normal pointing from the second body to the first, two offsets from the bodies' own centres that denote one and the same world point, and a penetration depth that is the negated signed distance along that normal. Between two hulls the point lies on an edge of one of them, between its ends. This holds for circle-circle, circle-hull and hull-hull pairs and whichever of the two is listed first.",
 ["inputs", "configurations"], "all shapes, poses and pair orders, every branch of the narrow phase",
 "Contact tuples are not read by any test; most branches need specific poses.",
 [K], [("narrow phase", "DiffContactHandler.__call__ and its helpers")])
prop("C18", "Pairs excluded from contact never collide",
 "Declaring two bodies as not in contact is symmetric, and no contact handler ever reports a contact for such a pair, in either order. Excluding one pair excludes no other.",
 ["inputs", "configurations"], "all pairs, both handlers, both orders", "Tests call add_no_contact once and check nothing.",
 [B, K], [("registration", "Body.add_no_contact"), ("filter", "OdeContactHandler, DiffContactHandler")])
prop("C19", "Contacts are reported exactly within the detection margin",
 "The collision geometry of every body contains the body's shape enlarged by its margin on every side, so that no pair closer than the margin is missed by the broadphase. For a circle with a circle or a hull, the narrow phase reports one contact when their separation does not exceed the margin and none when it does. Two hulls get no contact when an edge of either separates them by more than the margin, every contact they get has a separation of at most the margin, and a pair that no edge separates is refused only when the part of the facing edge beside the reference edge is empty or lies beyond the margin.",
 ["inputs"], "all shapes, sizes, margins and distances", "No test probes distances around the margin.",
 [B, K], [("broadphase bounds", "_create_geom of each body class"), ("margin tests", "DiffContactHandler")])
prop("C20", "Simulation results stay differentiable in every physical parameter",
 "Positions, velocities, forces, system matrices and contact data remain connected in the autograd graph to the tensors they are computed from: initial poses and velocities, masses, radii, dimensions, vertices, restitution and friction coefficients, force multipliers and forces. No step of the simulation detaches, copies out or converts to plain numbers a value that flows into the state.",
 ["inputs", "configurations"], "every path from a differentiable argument to a simulated quantity",
 "No test calls backward(); a cut in the graph changes no forward value.",
 [B, C, K, E, W, F, U], [("tensor plumbing", "all tensor expressions from constructors to World.step")])
prop("C21", "Looking at a simulation does not change it",
 "Drawing bodies and joints, recording frames, and reading Jacobians, mass, friction, restitution or applied forces never modify positions, velocities, joints, contacts or any other simulation state.",
 ["inputs", "histories"], "all observers, body and joint classes, any state", "All tests run with the screen off, so drawing code is never executed.",
 [B, C, W, U], [("draw methods", "bodies.py, constraints.py"), ("accessors", "World.Je/Jc/Jf/mu/E/restitutions/apply_forces"), ("Recorder", "utils.Recorder")])
prop("C22", "Constructor options take effect",
 "Every option accepted by a body, world or force constructor reaches the attribute or behaviour it names, for every body class, with numbers, lists and tensors treated alike; the named default engine and contact handler exist and implement the interface the world calls. Everything exported by the physics package exists.",
 ["configurations"], "all constructors and options", "Tests use few options and read none of them back.",
 [B, W, F, U, "lcp_physics/physics/__init__.py"], [("argument forwarding", "constructors"), ("class lookup by name", "utils.get_instance, Defaults")])
prop("C23", "Simulations do not interfere with each other",
 "Creating or running one world never changes another world, the defaults, the shared force constants, or default argument values. No simulation step writes module-level or class-level state that influences later results.",
 ["histories", "configurations"], "any number of worlds in one process, any interleaving of steps", "Tests never compare a world run alone with one run next to others.",
 [W, B, F, E, U, PD], [("per-world state", "instance attributes only"), ("shared constants", "ExternalForce.DOWN etc., Defaults")])
prop("C24", "A simulation is reproducible",
 "The trajectory of a simulation is a function of the world it starts from: nothing that stepping executes consults random numbers, clocks, object identities or the environment.",
 ["inputs", "histories"], "all code reachable from stepping a world", "Reproducibility needs repeated runs over many configurations; no test runs twice.",
 [W, K, E], [("no hidden inputs", "call graph from World.step")])
prop("C25", "The KKT solver solves the KKT system",
 "The factorisation and back-substitution routines of the solver return, for any right-hand side, exact-arithmetic solutions of the block system formed from the (symmetric) quadratic term, the equality and inequality rows, the coupling matrix and the current diagonal, with and without equality constraints, and repeated refactorisation with a new diagonal replaces the old one completely.",
 ["inputs", "histories"], "all problem sizes and data for which the factors exist, any sequence of diagonals",
 "The solver cannot run on the installed torch; no test checks a residual.",
 [PD, LU], [("block elimination", "pdipm.solve_kkt"), ("block LU", "pdipm.pre_factor_kkt/factor_kkt")])
prop("C26", "Gradients through the LCP solver are those of the optimality conditions",
 "The backward pass returns, for each of the seven inputs in order, the derivative obtained by implicit differentiation of the complementarity and stationarity conditions at the solution, for every problem with a symmetric quadratic term, including ones with a non-symmetric coupling matrix, and no gradient for absent equality constraints.",
 ["inputs"], "all problems with a strictly complementary solution", "No test calls backward, and the solver cannot run on the installed torch.",
 [L, PD], [("adjoint solve", "LCPFunction.backward"), ("saved state", "LCPFunction.forward")])
prop("C27", "The LCP solver returns its best iterate",
 "The interior point iteration measures, at every iterate, the residuals of the actual optimality conditions, and returns the primal, equality, inequality and slack parts belonging together to the iterate with the smallest residual seen for each problem of the batch; on every way out the four parts come from the same iterate and in the same order. Iterates start with positive slacks and multipliers and each step is limited to keep them positive.",
 ["inputs", "histories"], "all problems and iteration counts, every exit of the iteration", "The iteration cannot run on the installed torch and has no test.",
 [PD], [("best tracking", "pdipm.forward"), ("step length", "pdipm.get_step")])
prop("C28", "Asking for a duration simulates that duration",
 "A fixed-duration step advances simulated time to exactly the requested end, in as many sub-steps as needed, never past it, and an ordinary step attempts the world's time step once; running a world steps it until the requested run time is reached, independent of whether it is drawn or recorded.",
 ["histories", "inputs"], "all dt, sub-step histories and run times", "Demos run a world but never assert the final time.",
 [W], [("stepping", "World.step"), ("driver", "run_world")])
prop("C29", "Breakout state vectors are read the way they are written",
 "In the Breakout experiment, packing paddle, block and ball parameters into a state vector and unpacking it gives the same parameters back for any number of blocks, the simulated next state uses the same layout, commanded paddle velocities go to the paddle's own velocity components, leaving all other bodies' velocities unchanged, a world built from the parameters holds the paddle, ball and blocks they describe at the indices it names, and the control cost compares the horizontal positions of ball and paddle.",
 ["inputs"], "any number of blocks and any values", "The experiments have no tests and cannot be run here (gym, mpc missing).",
 ["experiments/breakout/run_breakout.py", "experiments/breakout/encoder.py"], [("layout", "to_vector/from_vector/simulate_breakout"), ("command", "step_breakout")])
prop("C30", "Simulations keep the precision and device of the user's tensors",
 "When any constructor argument of a body is a tensor, all quantities of that body, and all system matrices and contact data built from bodies, have that tensor's type; without tensors they have the package default. Intermediate constants never change the type of a result.",
 ["inputs", "configurations"], "float32 and float64, any argument being the tensor", "Tests use only the default double type.",
 [B, C, K, E, W, F, U], [("base tensor", "Body._set_base_tensor, utils.get_tensor")])
prop("C31", "Planar geometry helpers satisfy their identities",
 "The rotation matrix of an angle is orthogonal with unit determinant and turns by that angle; polar conversion gives the length and the angle and its inverse gives the vector back; the 2D cross product is antisymmetric, bilinear and one for the x and y axes; the perpendicular of a vector has the same length, is at right angles to it and always on the same side.",
 ["inputs"], "all angles and vectors", "No test calls the helpers directly.",
 [U], [("helpers", "utils.rotation_matrix, cart_to_polar, polar_to_cart, cross_2d, left_orthogonal")])
prop("C32", "Closest-point queries find the closest point and the vertices spanning it",
 "The closest-point query on one to three vertices returns the point of the simplex closest to the query point together with exactly the indices of the vertices spanning it: a vertex, the projection onto an edge between its ends, or the query point itself with all three indices when it lies inside the triangle. Barycentric coordinates sum to one and reproduce the point (its projection, on a segment). Clipping a segment keeps its end points in front of the line, cuts it where it crosses the line, and returns nothing when it lies behind; support queries return the vertex furthest in the given direction with its own index.",
 ["inputs"], "all points, simplices, directions and hulls", "No unit test exercises the narrow-phase helpers.",
 [K], [("simplex cases", "DiffContactHandler.get_closest/get_barycentric_coords"), ("clipping", "clip_segment_to_line"), ("support", "get_support")])
prop("C33", "The code only uses library operations that exist",
 "Every function, method and attribute of the numerical, geometry and standard libraries that the package calls on any path exists in the installed versions, and so does every name imported between its own modules.",
 ["configurations"], "every call site of the package, including paths no test runs", "Tests execute few paths; a missing operation shows only when its path runs.",
 [L, PD, LU, "lcp_physics/lcp/solvers/dev_pdipm.py", W, E, K, B], [("library calls", "all modules")])
prop("C34", "Frames are recorded at the requested interval, numbered consecutively",
 "The recorder saves a frame only when at least its interval has passed since the last one, numbers frames consecutively from zero without gaps or overwriting, and advances its reference time by exactly one interval per frame.",
 ["histories"], "all sequences of times", "Recording needs a screen; tests never record.",
 [U], [("recording", "utils.Recorder.record")])
# --- properties that this family cannot decide
prop("C35", "Drawings show bodies and joints where they are",
 "Whatever its pose and the scale, a circle is drawn as a circle at its position with its radius and with a line from its centre at its angle, a hull or rectangle as the polygon of its vertices around its position, a revolute joint at its anchor, a fixed joint as a line between its two bodies and the other constraints at their body's position, all multiplied by the pixels per meter (up to a pixel); everything goes to the surface given, and exactly the regions drawn are returned. A recorded run draws every body and joint once per frame before the frame is saved.",
 ["inputs"], "all poses, sizes and scales", "No test draws anything.",
 [B, K, W], [("draw methods", "bodies.py, constraints.py"), ("frame loop", "world.run_world")])
prop("C50", "The interior point method converges to the LCP solution",
 "For every solvable contact problem the solver's returned point satisfies the optimality conditions to within the requested tolerance in the allowed number of iterations.",
 ["inputs"], "all contact problems", "Convergence depends on the numerical data.", [PD], [("iteration", "pdipm.forward")])
prop("C51", "The circle-hull closest point search terminates at the true closest point",
 "For every convex hull and circle the iterative closest-point search ends and the point found is the closest point of the hull.",
 ["inputs"], "all hulls and circles, in floating point", "A loop over floating-point geometry; no test covers it.", [K], [("GJK loop", "DiffContactHandler.__call__")])
prop("C52", "Energy and momentum behave physically over long runs",
 "Without external forces total momentum is conserved over any number of steps and energy never grows beyond rounding when restitution is at most one.",
 ["histories"], "all runs", "A statement about numeric trajectories.", [W, E], [("stepping", "World.step")])
prop("C53", "Every step terminates",
 "Every step of a strict world ends after finitely many halvings, also after a post-stabilisation correction.",
 ["histories", "inputs"], "all states reachable by stepping", "Termination depends on contact geometry along the motion.", [W], [("halving loop", "World.step_dt")])
prop("C54", "Learning and inference examples converge",
 "Gradient-based inference of masses, forces and paddle velocities reduces its loss to the stopping threshold.",
 ["inputs"], "all initial values", "Optimisation outcome; also needs packages that are absent here.", ["experiments/inference.py", "demos/grad_demo.py"], [("optimisation loop", "main")])
prop("C55", "Animation keeps real time",
 "A displayed simulation runs at wall-clock speed when the machine is fast enough.",
 ["schedules"], "all machines and frame rates", "Timing.", [W], [("pacing", "run_world")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
