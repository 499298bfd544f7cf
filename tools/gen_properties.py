#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source so the list stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every time step solves the discretised equations of motion",
 "For any tree of bodies and joints, any state, and any strictly increasing timeline (regular, jittered, stalled or jumping), each step produces generalized velocities satisfying (M/dt + N + B - Z) v+ = (M/dt) v + F, where M, B and N are the mass, viscosity and Coriolis/centrifugal terms of the Newton-Euler equations of the bodies at the start of the step, and F, Z the sum of all controller and constraint forces and controller impedances. "
 "Each joint position then advances by exactly the motion of that new velocity over dt, and the clock by dt. "
 "This keeps holding after steps that were aborted by an exception and retried, and after model edits between steps.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "all joint trees, masses, viscosities, states, timelines and step histories, including aborted-and-retried steps and clock stalls/jumps",
 "test_update_dynamic checks one arm in one state; no test checks the step equation, non-uniform timelines, viscosity, branching trees, or a step after an abort.",
 ["arboris/core.py", "arboris/joints.py", "arboris/twistvector.py", "arboris/massmatrix.py"],
 [("World.update_dynamic / update_controllers / integrate", "arboris/core.py"), ("Body.update_dynamic nleffects", "arboris/core.py"), ("Joint.integrate", "arboris/joints.py"), ("exp of a twist", "arboris/twistvector.py")],
 [("gpos, gvel", "joint state", "arboris/core.py:Joint"), ("mass, viscosity, nleffects", "world model", "arboris/core.py:World")],
 ["World.mass", "World.viscosity", "World.nleffects", "World.gvel", "Joint.gpos", "World.current_time"])

prop("C02", "Poses, twists and Jacobians always agree with the joint tree",
 "Whenever the model has been updated, the pose of every body and frame is the composition of the joint motions and frame offsets on its path to the ground; its twist is the body velocity that the current generalized velocities give it, its Jacobian maps generalized velocities to that twist, and its Jacobian derivative is the time derivative of that Jacobian along the motion. "
 "The same holds between a joint's own pose, inverse pose, twist, Jacobian, Jacobian derivative and adjoints, and it keeps holding over any history of steps, state overwrites, frame moves, joint replacements, added links and aborted updates.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "all trees over all joint types, all states and all histories of steps, edits and aborted updates",
 "unit tests compare one joint type with its serial equivalent and one arm in one configuration; the Jacobian derivatives of most joints and every multi-step/edited history are untested.",
 ["arboris/core.py", "arboris/joints.py", "arboris/rigidmotion.py", "arboris/homogeneousmatrix.py"],
 [("Body.update_geometric / update_dynamic recursion", "arboris/core.py"), ("_SubFrame properties", "arboris/core.py"), ("joint pose/jacobian/djacobian", "arboris/joints.py")],
 [("pose, twist, jacobian, djacobian", "per-frame kinematic model", "arboris/core.py:Body")],
 ["Frame.pose", "Frame.twist", "Frame.jacobian", "Frame.djacobian", "Joint.pose"])

prop("C03", "Weight and PD controllers deliver exactly their documented actuation",
 "The weight controller applies to the generalized coordinates exactly the generalized force of a uniform gravity field of the requested magnitude along the world's up axis acting on every body with mass, and a proportional-derivative controller applies exactly Kp (q_des - q(t+dt)) + Kd (v_des - v(t+dt)) on its own joints and nothing elsewhere, with the end-of-step position and velocity. "
 "Every registered controller acts exactly once per step, with its current targets and gains even when they change between steps or the model is edited and re-initialised, and the result does not depend on the order in which controllers were registered.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "all models, joint subsets (contiguous or not), gain matrices, target-change histories and registration orders, with aborted-and-retried steps",
 "the controller tests run one arm in one state and check no force balance; retargeting, non-contiguous joints, several controllers and dof renumbering are untested.",
 ["arboris/controllers.py", "arboris/core.py"],
 [("WeightController.update", "arboris/controllers.py"), ("ProportionalDerivativeController.init/update", "arboris/controllers.py"), ("World.update_controllers", "arboris/core.py")],
 [("gpos_des, gvel_des, kp, kd", "controller targets and gains", "arboris/controllers.py")],
 ["World.gforce", "World.gvel", "Joint.gpos"])

prop("C04", "Joint limits hold and push only inwards",
 "A joint that starts a step within the proximity band of one of its limits, or beyond it, ends the step between its limits on every degree of freedom, up to solver tolerance, whatever other forces, limits and constraints act, as long as the active constraints do not contradict one another; the limit force is zero on a coordinate that would stay strictly inside by itself, and otherwise pushes only back inwards. "
 "A disabled limit, or one that is nowhere near, exerts no force.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "all linear joint types (one or several dofs), limits, states, couplings, enable/disable histories and timelines",
 "two tests press one 1-dof joint of a 3-hinge arm against one limit; multi-dof joints, simultaneous limits, coupled constraints and repeated enable/disable are untested.",
 ["arboris/constraints.py", "arboris/core.py"],
 [("JointLimits.update/is_active/solve", "arboris/constraints.py"), ("World.update_constraints", "arboris/core.py")],
 [("limit force", "generalized force of the limit", "arboris/constraints.py")],
 ["Joint.gpos", "Constraint.gforce"])

prop("C05", "Ball-and-socket constraints keep the two centres together",
 "For every enabled ball-and-socket constraint, the end-of-step velocities close the gap between the two frame origins to first order (p + dt * dp/dt = 0, with dp/dt the velocity of the two bodies' material points at the common point, up to solver tolerance whenever the mechanism can do so), so over a run the gap stays of second order in the step and does not accumulate. "
 "The constraint acts as a pure force through the common point, equal and opposite on the two bodies, leaves relative rotation free, and resumes correctly after being disabled and re-enabled.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "all frame pairs on closable mechanisms, states, timelines, enable/disable histories and aborted steps",
 "one test closes one chain in a single configuration with a fixed step.",
 ["arboris/constraints.py", "arboris/core.py"],
 [("BallAndSocketConstraint.update/jacobian/solve", "arboris/constraints.py"), ("World.update_constraints", "arboris/core.py")],
 [("constraint force (kept between steps)", "warm start", "arboris/constraints.py")],
 ["Frame.pose", "Constraint.gforce", "World.gvel"])

prop("C06", "Contacts never pull and never let shapes sink into each other",
 "For every enabled soft-finger contact between two supported shapes which are, or at their current approach speed come, within its proximity band, the normal force on the bodies is never adhesive, is zero whenever the shapes would stay apart over the step by themselves, and otherwise makes the first-order end-of-step gap exactly zero or leaves it open, never negative (up to solver tolerance). "
 "Over a run, bodies that start apart stay apart or touch within the discretisation error, and a disabled contact exerts no force.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "all supported shape pairs, frame placements, states, timelines, simultaneous contacts and enable/disable histories",
 "no test in the suite runs a contact: only the geometry of two collision solvers is doctested at single points.",
 ["arboris/constraints.py", "arboris/collisions.py", "arboris/core.py"],
 [("PointContact.update", "arboris/constraints.py"), ("SoftFingerContact.solve", "arboris/constraints.py"), ("World.update_constraints", "arboris/core.py")],
 [("signed distance, contact force", "per-contact state", "arboris/constraints.py")],
 ["Constraint.gforce", "Shape frames' poses", "World.gvel"])

prop("C07", "Contact friction stays in its cone, sticks or opposes sliding",
 "At the end of every constraint resolution, each active soft-finger contact's tangential force and pivoting torque satisfy the elliptic Coulomb bound mu^2 fz^2. "
 "Strictly inside the bound the contact does not slide or pivot; when it slides or pivots the force is on the bound and opposes the sliding velocity, as long as some force can satisfy this law (a mechanism can impose a motion which no friction can stop).",
 ["inputs", "histories", "configurations"],
 "all friction coefficients including zero, states, geometries, mass couplings, timelines and simultaneous contacts",
 "no test exercises friction; the law must hold for every coupling between normal and tangential directions.",
 ["arboris/constraints.py"],
 [("SoftFingerContact.solve static and sliding branches", "arboris/constraints.py")],
 [("contact force", "(mz, fx, fy, fz)", "arboris/constraints.py")],
 ["RecordConstForce", "Constraint.jacobian", "World.gvel"])

prop("C08", "Every active constraint acts exactly once, inactive ones not at all",
 "In each step every enabled constraint is updated exactly once, only those that then report themselves active are solved, each sees its true current velocity and admittance (including the effect of every other constraint's force so far), and the generalized force used for the step is the controllers' force plus exactly one J^T f per active constraint. "
 "Disabled or inactive constraints contribute nothing, results do not depend, beyond the solver tolerance, on leftovers from earlier steps or aborted ones, and the resolution always ends within the iteration budget and stops early only once converged.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "all sets of constraints (built-in or user-defined), activation/enable histories, aborted resolutions, iteration budgets and tolerances",
 "existing tests register one constraint at a time and never disable, mix or abort them.",
 ["arboris/core.py", "arboris/constraints.py"],
 [("World.update_constraints", "arboris/core.py"), ("Constraint.enable/disable", "arboris/core.py")],
 [("world generalized force", "sum of forces", "arboris/core.py")],
 ["Constraint.update/is_active/solve call sequence", "World.gforce", "World.gvel"])

prop("C09", "An interrupted step loses nothing and the run can be resumed",
 "If a step is interrupted by any exception (user controller, constraint or observer failing, Ctrl-C, memory or numerical failure) before the new state is committed, joint positions, velocities and the clock are those of the last completed step. "
 "Resuming with the rest of the timeline, splitting a run into several simulate calls, or rebuilding the world in a new process from the saved joint state, continues the very trajectory the uninterrupted run would have followed.",
 ["crash_points", "fault_sequences", "histories", "configurations"],
 "all interruption points inside a step, all steps, all models with controllers and constraints, all split points",
 "no test interrupts or resumes a simulation.",
 ["arboris/core.py", "arboris/constraints.py", "arboris/controllers.py"],
 [("simulate step order: model, controllers, constraints, observers, then integrate", "arboris/core.py"), ("World.init re-entrancy", "arboris/core.py")],
 [("gpos, gvel, current_time", "committed state", "arboris/core.py")],
 ["Joint.gpos", "Joint.gvel", "World.gvel", "World.current_time"])

prop("C10", "Independent worlds never influence one another",
 "Simulating several independent worlds in one process, interleaved step by step or preempted at arbitrary points by a thread scheduler, one of them failing or being rebuilt, gives each world exactly the trajectory and records it has when simulated alone. "
 "The same model and timeline always give bit-identical results, in any process and whatever ran before, and arrays handed in by or out to the user are never a back door to simulation state that the documentation does not give.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of several simulations at line granularity, failures of neighbours, and repeated or re-ordered runs",
 "tests simulate a single world per process run and never compare trajectories across interleavings.",
 ["arboris/core.py", "arboris/constraints.py", "arboris/controllers.py", "arboris/observers.py"],
 [("all state held on instances", "arboris/*.py"), ("accessors returning copies", "arboris/core.py")],
 [("world/joint/constraint/observer attributes", "per-instance state", "arboris/core.py")],
 ["Joint.gpos", "World.gvel", "observer records"])

prop("C11", "simulate drives observers by a fixed protocol on the given timeline",
 "A run over a timeline t0..tn initialises every observer exactly once, before the first step and after the world is initialised; then for each interval, in registration order, updates every observer exactly once, after the model, controller and constraint computations and before the state advances, with dt = t(k+1) - t(k) and the world clock at t(k); and finally finishes every observer exactly once after the last step. "
 "During an update the poses, velocities, model matrices and joint state an observer can read all belong to that same instant t(k), and after the run the clock is at tn.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "all timelines, observer collections (lists, tuples, dicts; empty; duplicated kinds), nested use of observers, and repeated runs on the same world",
 "the suite only smoke-runs one observer on [0,1,2].",
 ["arboris/core.py"],
 [("simulate", "arboris/core.py")],
 [("current_time", "simulation clock", "arboris/core.py")],
 ["Observer.init/update/finish call sequence", "World.current_time"])

prop("C12", "Recorders return exactly the values that held at each step",
 "After a run, each recording observer holds one entry per step, in order, equal to the quantity it documents at that step (joint positions and velocities, frame poses and twists, constraint force, shape distance, centre of mass, centre-of-mass Jacobians, kinetic, potential and mechanical energy with time), for every model the simulator accepts, including massless bodies. "
 "Later steps never alter earlier entries, and reusing an observer for another run, even after an aborted one, yields only the new run's data.",
 ["inputs", "histories", "fault_sequences"],
 "all models, run lengths, observer reuse patterns and aborts",
 "only the energy monitor is smoke-tested, without looking at its values.",
 ["arboris/observers.py"],
 [("EnergyMonitor, CoMObserver, _Recorder and subclasses", "arboris/observers.py")],
 [("records", "per-step data", "arboris/observers.py")],
 ["get_record", "get_CoMPosition/Jacobian/dJacobian", "EnergyMonitor lists"])

prop("C13", "Saved logs are complete and faithful, and failures are never silent",
 "When a logged simulation returns normally, the pickle or HDF5 file holds exactly, for every step, the time and every quantity selected (joint positions and velocities, transforms flat or hierarchical, model matrices), bit for bit as they were at that step and with the documented layout, readable by a new process; data already in other groups of the same HDF5 file is unchanged. "
 "If opening, writing or closing the file fails, or the run is killed, the caller is told or no complete log appears in the fresh file or group being written: a partial or different history is never passed off as a complete one.",
 ["inputs", "crash_points", "fault_sequences", "histories"],
 "all models and option combinations, disk-full and I/O error points, kill points, pre-existing file contents and repeated runs",
 "logging of state and model is not tested at all and no test injects an I/O error; a transforms-only file is compared in tests that are not in the stable set.",
 ["arboris/observers.py"],
 [("SaveLogger.init/update", "arboris/observers.py"), ("PickleLogger.finish", "arboris/observers.py"), ("Hdf5Logger.__init__/finish", "arboris/observers.py")],
 [("log buffers", "per-step data", "arboris/observers.py")],
 ["file contents", "exceptions from simulate"])

prop("C14", "A failing viewer link never disturbs or outlives the simulation",
 "Whatever a socket peer does (never connects, connects late, stalls, accepts partial data, resets at any message, or all ports are taken), a simulation with a socket observer runs every step with the trajectory it has without the viewer and returns normally, and its listening and connected sockets are closed at the end. "
 "A connected viewer receives, for every step and in order, complete messages with the current transforms of every element, followed by the end-of-connection message.",
 ["fault_sequences", "schedules", "histories"],
 "all peer behaviours and failure points over connection, every message and shutdown",
 "no test opens a socket; the viewer modules are not even imported by the stable tests.",
 ["arboris/observers.py", "arboris/visu/visu_collada.py"],
 [("SocketCom", "arboris/observers.py"), ("DaenimCom", "arboris/visu/visu_collada.py")],
 [("listening socket, connection", "link state", "arboris/observers.py")],
 ["bytes seen by the peer", "open sockets after the run", "trajectory"])

prop("C15", "Model edits keep a valid joint tree, and refused edits change nothing",
 "After any sequence of add_link, replace_joint, register and init calls, the bodies form a tree rooted at the ground, each joint is listed once under its parent body and is its child's parent joint, body and joint iterators visit everything exactly once in depth-first order, the joints' dof ranges partition the world's dofs in that order, the generalized velocity is carried over joint by joint, and registering twice changes nothing; parse presents every body, joint, frame, shape, constraint and controller exactly once. "
 "A call that is refused (kinematic loop, joint already in use, unknown type, malformed chain) raises and leaves the world, its joints and bodies as they were.",
 ["histories", "inputs", "fault_sequences"],
 "all sequences of valid and invalid edits on all trees",
 "tests make one valid replacement on one arm; refused edits and sequences are untested.",
 ["arboris/core.py"],
 [("World.add_link/replace_joint/register/init/parse", "arboris/core.py")],
 [("parentjoint/childrenjoints, dof", "joint tree", "arboris/core.py")],
 ["World iterators", "Joint.dof", "World.gvel", "parse call sequence"])

prop("C16", "Performance figures follow elapsed time whatever the wall clock does",
 "The performance monitor reports, for each run, one non-negative duration per step, equal to the time that elapsed from the monitor's previous observation (for the first step, from its initialisation) to its observation of that step, so that they add up to the time elapsed from the start of the run to the last observation, even if the system's wall clock is stepped or slewed during the run. "
 "A second run with the same monitor, also after an aborted one, reports only that run's steps, and the summary's total, minimum, mean and maximum are those of these durations.",
 ["schedules", "fault_sequences", "histories"],
 "all step durations, clock adjustments (forward and backward jumps) and monitor reuse histories",
 "the one doctest for it is Python-2 only and not in the stable set; clocks are never controlled.",
 ["arboris/observers.py"],
 [("PerfMonitor", "arboris/observers.py")],
 [("durations", "per-step computation times", "arboris/observers.py")],
 ["PerfMonitor.get_summary", "plotted series"])

prop("C17", "Internal interactions never change the total momentum",
 "Whatever internal interactions act between the bodies of a floating system (joints, PD control, joint limits, ball-and-socket links, contacts with friction between its bodies), in any combination and at any step, the total linear and angular momentum about the world origin changes only by the impulse of weight and viscosity, up to the discretisation error of the step. "
 "In particular an impact, however violent, exchanges equal and opposite linear and angular impulse between the bodies.",
 ["inputs", "histories", "configurations"],
 "all floating systems, internal interactions, impact sequences and timelines",
 "no test computes momentum; an interaction with a missing or misplaced reaction still gives plausible-looking motion.",
 ["arboris/core.py", "arboris/constraints.py", "arboris/joints.py", "arboris/controllers.py"],
 [("constraint Jacobians as differences of body Jacobians", "arboris/constraints.py"), ("World.integrate", "arboris/core.py")],
 [("gvel", "generalized velocity", "arboris/core.py")],
 ["Body.twist", "Body.pose", "Body.mass"])

prop("C18", "Contact frames track the closest points of moving shapes",
 "At every step of a run, the two frames a contact maintains lie on the surfaces of their shapes at the points of minimal signed distance, fixed to the shapes' bodies, with the common normal along their z axes pointing from the first shape to the second and the signed distance between them along it, and the distance recorded for the pair is that signed distance (negative by the penetration depth when they overlap). "
 "This holds wherever the shapes' frames are placed and however they are rotated, and does not depend on the order in which the two shapes were given. Asking for all contacts of a world gives exactly one for each supported pair of shapes that are on different bodies.",
 ["inputs", "histories", "configurations"],
 "all supported shape pairs (sphere/sphere, sphere/point, plane/sphere, plane/point, box/sphere), frame placements and motion histories, outside the degenerate coincident-centre cases",
 "doctests fix the box or plane frame at the identity, so frame-dependence is invisible to them.",
 ["arboris/collisions.py", "arboris/constraints.py", "arboris/shapes.py"],
 [("collision solvers", "arboris/collisions.py"), ("PointContact.update", "arboris/constraints.py"), ("choose_solver", "arboris/collisions.py")],
 [("contact frames", "moving subframes", "arboris/constraints.py")],
 ["contact subframes' poses", "RecordDistance"])

prop("C19", "Exported scenes and animations show the simulated world, whole or not at all",
 "At any moment of a run, exporting a world gives a complete collada document, for either viewer and flat or hierarchical, in which every frame, shape, link line and inertia is drawn at the pose and size it has in the world, and the export leaves the run untouched; combining a scene with a pickle or HDF5 log gives an animation that moves every element through its recorded poses at the recorded times, and merging shapes from other collada files adds exactly those, at the requested places. "
 "If an input is missing or damaged, the output cannot be written or the viewer cannot be run, the caller is told, no partial document passes for a complete one, and no file handle or temporary file is left behind. "
 "A failed or killed export leaves the files it was reading as they were, including a scene that is updated in place, so that it can be retried.",
 ["inputs", "histories", "fault_sequences", "crash_points"],
 "all models, states, moments of export, exporters and options, logs, merges, and all I/O failures and kills at any byte of the output or any line of the exporters",
 "the visu tests only check that one robot is exported without an exception and do not look into the documents; failing disks are never simulated.",
 ["arboris/visu/dae_writer.py", "arboris/visu/visu_collada.py", "arboris/visu/world_drawer.py", "arboris/visu/__init__.py"],
 [("Drawer", "arboris/visu/world_drawer.py"), ("write_collada_animation", "arboris/visu/dae_writer.py"), ("add_shapes_to_dae", "arboris/visu/dae_writer.py")],
 [("document", "the pycollada document being built", "arboris/visu/dae_writer.py")],
 ["write_collada_scene", "write_collada_animation", "add_shapes_to_dae", "view", "the documents"])

prop("C20", "Errors, memory and cost do not build up over long runs",
 "However long a run is and however its bodies turn, errors do not build up until the simulation breaks: at every step the pose of every body and frame is a rigid placement to rounding, each joint stands where the accumulation of its per-step motions puts it, a body resting on contacts within its friction cones stays there, one rolling on a plane stays on it, the clock of the world is the one of the timeline, "
 "and no step fails, becomes slower or keeps more memory because of the steps before it (the records of observers excepted), whatever steps failed and were made again.",
 ["histories", "inputs", "fault_sequences"],
 "all mechanisms, velocities, time steps and lengths of run, away from singular positions of the joints",
 "the tests make at most a few hundred steps of small rotations; a drift of one rounding error per step needs thousands of steps, and a particular range of rotations per step, to reach a threshold.",
 ["arboris/core.py", "arboris/joints.py", "arboris/twistvector.py", "arboris/homogeneousmatrix.py", "arboris/constraints.py", "arboris/collisions.py"],
 [("FreeJoint.integrate", "arboris/joints.py"), ("twistvector.exp", "arboris/twistvector.py"), ("simulate", "arboris/core.py"), ("World.integrate", "arboris/core.py")],
 [("gpos", "generalized positions", "arboris/joints.py"), ("_force", "warm start of the constraints", "arboris/constraints.py")],
 ["simulate", "World.integrate", "Body.pose", "Frame.pose", "Joint.gpos"])

prop("C30", "Rigid-motion algebra identities",
 "Homogeneous matrices, adjoints, twists and their exponentials satisfy the group identities (inverse, composition, adjoint of product, derivative of adjoint) for every valid argument.",
 ["inputs"], "all homogeneous matrices and twists",
 "doctests sample single values.",
 ["arboris/homogeneousmatrix.py", "arboris/adjointmatrix.py", "arboris/twistvector.py"],
 [("closed-form formulas", "arboris/homogeneousmatrix.py")])
prop("C31", "Mass-matrix construction and transport",
 "The mass matrix constructors give the inertia of the documented solids, transport is the congruence by the adjoint, and the principal frame diagonalises the matrix.",
 ["inputs"], "all solids, masses and frames",
 "doctests sample single values.",
 ["arboris/massmatrix.py"], [("closed-form formulas", "arboris/massmatrix.py")])
prop("C32", "Robot builders create the documented models",
 "The simple arm, snake, simple shapes, human36 and iCub builders add exactly the documented bodies, joints, frames and shapes with the documented lengths and masses, scaled by the given parameters.",
 ["inputs", "configurations"], "all builder parameters",
 "only default sizes are checked, against stored values.",
 ["arboris/robots/simplearm.py", "arboris/robots/snake.py", "arboris/robots/human36.py", "arboris/robots/icub.py", "arboris/robots/simpleshapes.py"],
 [("builder functions", "arboris/robots")])
prop("C33", "Lookup by name",
 "A named list returns the first object with a name, find returns all of them, conversion to a dictionary refuses duplicates, and automatic naming gives distinct names.",
 ["inputs"], "all lists of named and unnamed objects",
 "one doctest sample.",
 ["arboris/core.py"], [("NamedObjectsList, name_all_elements", "arboris/core.py")])
prop("C34", "URDF import preserves the robot description",
 "Importing a URDF file yields a world with the same kinematic tree, joint axes, limits, inertias and shapes.",
 ["inputs", "programs"], "all URDF files",
 "not tested.",
 ["arboris/robots/urdf/__init__.py"], [("URDF converter", "arboris/robots/urdf")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
