NA = {}
SI = "solver/src/solver/interface/"
SO = "solver/src/solver/optimizer/"


def more(prop):
    prop("P05", "The conic solver's verdicts on linear and quadratic programs are true",
         "For every linear or convex quadratic program written through the modelling interface, whatever the form in which its "
         "expressions are written and whether the model is fresh or was cleaned and reused: a point reported optimal satisfies every constraint and attains the "
         "minimum up to the solver's tolerances; a problem reported primal infeasible has no feasible point; a problem reported dual infeasible "
         "has a direction that keeps every constraint and lowers the cost forever. A problem with strictly feasible inequalities, independent equalities and a stable bounded optimum is solved.",
         ["inputs", "histories"], "all linear and convex quadratic programs, in every syntactic form",
         "the existing conic tests are not even built here and check a handful of fixed problems; wrong infeasibility or unboundedness verdicts, dropped rows and "
         "memory errors need particular constraint geometries",
         [SO + "IPSolver.cpp", SO + "LinSolver.cpp", SO + "BnBSolver.cpp", SI + "ConicProblem.cpp", SI + "Exprs.cpp", "solver/include/solver/interface/OptVar.hpp"],
         [("predictor corrector interior point iterations and stopping tests", SO + "IPSolver.cpp computeResiduals/convergenceCheck"),
          ("model to cone program", SI + "ConicProblem.cpp addLinConstr/optimize")])
    prop("P06", "The conic solver's verdicts with second-order cone constraints are true",
         "For every convex program with quadratic and second-order cone constraints next to linear rows, in whatever form its expressions are written and on "
         "fresh or reused models: a point reported optimal satisfies every constraint, cones included, and attains the minimum up to the solver's tolerances; "
         "problems reported primal or dual infeasible really have no feasible point or no bounded optimum; strictly feasible problems with a stable bounded optimum are solved.",
         ["inputs", "histories"], "all convex programs with quadratic and second-order cone constraints",
         "no test that is built here contains a cone; errors in one cone's scaling, offset or row order only show when that cone is active, and interact with the number, size and order of cones",
         [SO + "IPSolver.cpp", SI + "Cone.cpp", SO + "LinSolver.cpp", SO + "EqRoutine.cpp", "solver/include/solver/interface/OptVar.hpp", SI + "ConicProblem.cpp"],
         [("Nesterov-Todd scalings and step lengths per cone", SI + "Cone.cpp"), ("cone rows of quadratic and norm constraints", SI + "ConicProblem.cpp addQuaConstr/addSocConstr")])
    prop("P07", "Branch and bound returns the mixed-integer optimum or says infeasible",
         "For every mixed-integer convex program with binary variables that branch and bound reports optimal, the binaries are integral, every constraint "
         "holds and the cost is the least over all binary assignments up to the configured gaps; a program reported infeasible has no feasible assignment; with a sufficient "
         "node budget, programs whose relaxations are well posed get one of these answers.",
         ["inputs", "histories"], "all mixed-integer linear, quadratic and conic programs",
         "no mixed-integer test is built here; wrong pruning, stale bounds and lost nodes depend on the order of the search tree, on ties, and on infeasible or unsolved nodes",
         [SO + "BnBSolver.cpp", "solver/include/solver/optimizer/BnBSolver.hpp", SI + "ConicProblem.cpp"],
         [("search tree of fixed binaries with lower and upper bounds", SO + "BnBSolver.cpp")])
    prop("P08", "Non-convex quadratic constraints are met by the answers the heuristics return",
         "When a problem with non-convex quadratic constraints is reported solved, the answer satisfies all convex constraints, and each trust-region constraint "
         "q(x) <= 0 split as convex minus concave holds within the threshold that the requested number of refinements stands for; "
         "the answer is that of the successive convexification from the given guess (convex warm start when requested), for trust-region and soft-constraint heuristics alike. "
         "The answer depends only on the problem and the guess, not on how expressions are written or on earlier use of the model.",
         ["inputs", "histories"], "all programs with non-convex quadratic constraints, guesses and refinement settings",
         "no test of the non-convex heuristics is built here; errors in the linearisation point, the thresholds of later refinements or the mix of several heuristics show only in the final answers",
         [SO + "NcvxBnBSolver.cpp", SI + "ConicProblem.cpp", "solver/include/solver/interface/OptVar.hpp"],
         [("convexification around the last solution, threshold shrinking by refinement", SI + "ConicProblem.cpp addQuaConstr/optimize")])
    prop("P09", "Linear and quadratic expressions denote what was written",
         "Every program of additions, subtractions, scalings and in-place updates over linear expressions, variables and numbers builds the expression that algebra says: its value at every point "
         "and its coefficient of every variable are those of the written formula; operands not assigned to keep their value; and quadratic expressions "
         "evaluate to the sum of their weighted squares.",
         ["programs", "inputs"], "all expression programs over the overloaded operators",
         "operators are many and overloaded over numbers, variables and expressions; sign and aliasing errors need particular combinations that no test tries",
         [SI + "Exprs.cpp", SI + "Var.cpp", "solver/include/solver/interface/Exprs.hpp"],
         [("term lists of linear and quadratic expressions", SI + "Exprs.cpp")])
    prop("P10", "Every solve answers the problem that the model's history denotes",
         "Whatever sequence of adding constraints, setting objectives, solving, cleaning and rebuilding a model went through, and whatever another model did in between, each solve answers exactly "
         "the problem that has been written since the last clean: nothing of earlier problems survives and nothing of other models leaks in.",
         ["histories"], "all histories of operations on one or several models",
         "tests build one model and solve it once",
         [SI + "ConicProblem.cpp", SI + "Var.cpp", "solver/include/solver/interface/Cone.hpp", SO + "IPSolver.cpp"],
         [("per-model storage of constraints, cones and extra variables, clean", SI + "ConicProblem.cpp")])
    prop("P12", "L-BFGS runs are descent runs whose outcome is what it reports",
         "For every smooth function, start and parameter set, each accepted L-BFGS iterate satisfies the configured line search conditions along the quasi-Newton direction "
         "of the last m pairs, the run stops at the first stopping test met and returns that test's code, the returned point is the last accepted one (or, after a failed line search, a better trial point) with its own value (never worse than the start), "
         "a claimed convergence meets the gradient test, invalid parameters are rejected untouched, and the penalised nonlinear problems solved through LbfgsSolver are minimised independently "
         "of other solver objects, copies and reuse.",
         ["inputs", "histories"], "all functions, starting points, parameter sets and histories of solver objects",
         "three tests minimise three functions with default parameters; line search variants, stopping tests, failures and copies are not run",
         [SO + "LbfgsSolver.cpp", "solver/include/solver/optimizer/LbfgsSolver.hpp"],
         [("two loop recursion, line searches and stopping tests", SO + "LbfgsSolver.cpp lbfgs"), ("penalty objective and difference quotients", SO + "LbfgsSolver.cpp evaluate")])
    prop("P11", "Settings, variables and variable blocks hold exactly what was stored",
         "Every solver setting returns the value last stored in it (by setter or settings file) whatever other settings were stored in between, missing keys and parameters that are no settings are "
         "refused; every model variable keeps its column number, bounds, guess (clamped into its bounds) and value, and inconsistent bounds or unknown constraint senses are refused "
         "without changing the problem; blocks of optimization variables occupy consecutive disjoint index ranges and hold the bounds, guesses and pinned columns given.",
         ["inputs", "histories"], "all sequences of stores",
         "no test reads settings back or builds variable blocks; a swapped pair of fields or overlapping ranges changes results without failing anything",
         [SI + "SolverSetting.cpp", SI + "Var.cpp", SI + "OptVar.cpp", SI + "ConicProblem.cpp", "solver/include/solver/interface/OptVar.hpp"],
         [("parameter table", SI + "SolverSetting.cpp"), ("column numbers and clamped guesses", SI + "ConicProblem.cpp addVar"), ("block ids", "solver/include/solver/interface/OptVar.hpp id")])
    MD = "momentumopt/src/momentumopt/dynopt/"; MC = "momentumopt/src/momentumopt/cntopt/"
    prop("P13", "A planned motion obeys physics, its limits and its objective",
         "Every plan of DynamicsOptimizer that is reported solved is physically consistent: from the initial state on, center of mass, linear and angular momentum of every step follow from gravity, "
         "the planned contact forces, torques and centers of pressure (and the external force in the first step); effectors carry forces only while in contact; forces, torques, centers of "
         "pressure, lengths and height stay in their limits (friction cones in the contact frame, linear or second order); where the relaxation is exact no better plan exists for the configured objective; "
         "time optimization keeps step lengths in range (and the horizon if fixed) and is consistent within its residual tolerance; a reused planner plans as a fresh one; the saved file holds the plan; and a horizon "
         "of n time steps gives n steps.",
         ["inputs", "histories"], "all contact schedules, robot states, limits and weights",
         "the tests of the planner are not built here, and compare eight stored plans; a wrong sign in one tilted contact, lift-off or limit needs the schedule that exercises it",
         [MD + "DynamicsOptimizer.cpp", MC + "ContactPlanInterface.cpp", "momentumopt/src/momentumopt/setting/PlannerSetting.cpp"],
         [("constraints and objective of the plan", MD + "DynamicsOptimizer.cpp internalOptimize"), ("stored plan", MD + "DynamicsOptimizer.cpp storeSolution"),
          ("activation of contacts over time", MC + "ContactPlanInterface.cpp fillDynamicsSequence")])
    prop("P14", "Contact plans are read as written and act exactly when scheduled",
         "Contacts, viapoints and the initial robot state read from a configuration file are exactly those in the file, numbered consecutively over all effectors, whatever was read before; "
         "contact placements convert to matrices and back; and after filling a (new or reused) dynamics sequence, effector e is active at step t exactly if one of its selected contacts [start, end) holds at time (t+1)*dt, "
         "with that contact's id and pose, at rest, with consecutive activation numbers and the right number of active steps, and without forces of an earlier plan elsewhere.",
         ["inputs", "histories"], "all plans and horizons",
         "no test reads contact plans other than through the unbuilt planner tests; boundary times, deselected contacts and reuse are never tried",
         [MC + "ContactState.cpp", MC + "ContactPlanFromFile.cpp", MC + "ContactPlanInterface.cpp", MD + "DynamicsState.cpp"],
         [("contact lists", MC + "ContactState.cpp loadFromFile"), ("activation per step", MC + "ContactPlanInterface.cpp fillDynamicsSequence")])
    prop("P15", "Swing motions connect the scheduled contacts smoothly",
         "For every contact pattern, an effector out of contact moves from its last contact (or initial) pose to its next contact pose (or its displaced initial pose at the end of the horizon) along the polynomial that "
         "starts and ends at rest without acceleration and passes the viapoint of that contact half way (the midpoint if none), turning along the shortest arc; positions, velocities and accelerations agree with each other, are finite, "
         "and effectors in contact, without contacts, or without kinematics are left alone. Interpolated curves meet their waypoints at any time offset and rest outside.",
         ["inputs"], "all contact patterns, step lengths, viapoints and start times",
         "no test generates swing motions; missing viapoints, contacts beyond the horizon and late start times need particular plans",
         [MC + "ContactPlanInterface.cpp", "momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp"],
         [("flight phases", MC + "ContactPlanInterface.cpp updateEndeffectorTrajectories"), ("polynomials", "momentumopt/src/momentumopt/utilities/TrajectoryGenerator.cpp")])
    LQ = "solver_lqr/src/solver_lqr/"
    prop("P16", "The LQR solver returns optimal controls, gains and consistent trajectories",
         "For linear dynamics with convex quadratic cost, whatever the dimensions, horizon, start and first guess (the optimum included), and on new or reused solvers and problems, the solver returns the optimal controls and the "
         "feedback gains of the Riccati recursion; with control limits the controls stay within them and are optimal among those that do, and limits that do not bind change nothing. For every problem the returned states "
         "are those of the returned controls under the chosen integration, the cost is never worse than that of the first guess, smooth problems end at a stationary point, and a first guess that diverges at every scale leaves the "
         "problem as given. Finite differences are the derivatives of the model; settings are those in the file (a horizon of n steps gives n); stored solutions are the solution, and load again.",
         ["inputs", "histories"], "all optimal control problems, guesses and settings",
         "the tests of the solver are not built here and compare one arm motion within a tolerance of 2; limits, reuse, time variation and optimal first guesses are never tried",
         [LQ + "SolverLqr.cpp", LQ + "BackwardPass.cpp", LQ + "ForwardPass.cpp", LQ + "FiniteDifferences.cpp", LQ + "OcpDescription.cpp", LQ + "SolverLqrSetting.cpp"],
         [("iterations and regularization", LQ + "SolverLqr.cpp optimize"), ("Riccati recursion", LQ + "BackwardPass.cpp optimizeController"), ("rollout", LQ + "ForwardPass.cpp applyController")])
    prop("P17", "Momentum feedback gains belong to the planned motion's own physics",
         "For every planned dynamics sequence (any contacts, forces, step lengths and tracking weights), and on new or reused controllers, the momentum feedback starts from the planned initial state and forces; the states it "
         "returns follow from gravity and the forces of the end-effectors in contact (with the end-effector positions, mass and step lengths of the plan); its controls minimise the configured running and final tracking costs "
         "around the planned center of mass and momenta and never cost more than the planned forces; the force gains are those of the Riccati recursion around that motion, zero for end-effectors out of contact, and are "
         "returned for the nearest step outside the horizon; plans of another length are refused.",
         ["inputs", "histories"], "all plans, weights and step lengths",
         "no test touches the momentum feedback; its gains depend on the pattern of contacts over the whole horizon",
         [MD + "DynamicsFeedback.cpp", "momentumopt/include/momentumopt/dynopt/DynamicsFeedback.hpp", LQ + "SolverLqr.cpp"],
         [("momentum dynamics", MD + "DynamicsFeedback.cpp dynamics"), ("tracking cost", MD + "DynamicsFeedback.cpp objective"), ("initial forces", MD + "DynamicsFeedback.cpp setStatesAndControls")])
    PK = "momentumopt/python/momentumopt/kinoptpy/"
    prop("P18", "The centroidal regulator's gains are optimal for the rigid body dynamics",
         "For every motion file set whose orientations are rotations, the centroidal regulator rolls the planned controls out with the rigid body dynamics of the robot (forces and moments act only while a contact is active, gyroscopic "
         "term included, orientation integrated on the manifold), its derivatives of dynamics and cost are the derivatives, and the gains it computes and writes are those of the Riccati recursion along that motion, "
         "zero in flight; plans whose orientations are no rotations are refused.",
         ["inputs"], "all plans, contact patterns, orientations and weights",
         "the tests of the regulator check that functions agree on one random state within wide tolerances; frames, signs, large rotations and flight phases are never tried together",
         [PK + "lqr_gain_manifold.py"],
         [("manifold operations", PK + "lqr_gain_manifold.py increment_x/diff_x"), ("backward pass", PK + "lqr_gain_manifold.py compute_gains")])
    PB = "momentumopt/srcpy/momentumopt/"
    prop("P19", "The Python interface reads and writes what the planner holds",
         "Every attribute of the dynamics, kinematics, posture, velocity, acceleration and contact classes reads back from Python exactly as it was written and changes nothing else, on stand-alone objects, on elements of containers and "
         "on elements of sequences held by other objects (assigning a container copies it); enumerations have the planner's numbers; every setting is that of its key in the file, can be changed alone, and all settings "
         "the package uses exist; a plan made through the interface reads the contacts and references given and returns the states, forces, activations and step lengths of the plan the planner stores.",
         ["inputs", "histories"], "all sequences of accesses",
         "the bindings are not built by the tests; a wrong member pointer or a copy in place of a reference shows only when values are read back through another path",
         [PB + "dynopt/PyDynamics.cpp", PB + "kinopt/PyKinematics.cpp", PB + "cntopt/PyContacts.cpp", PB + "setting/PySetting.cpp", "momentumopt/include/momentumopt/kinopt/KinematicsState.hpp"],
         [("dynamics state", PB + "dynopt/PyDynamics.cpp init_dynamics"), ("postures", "momentumopt/include/momentumopt/kinopt/KinematicsState.hpp RobotPosture"), ("settings", PB + "setting/PySetting.cpp")])
    prop("P20", "Settings are those of the file last read, and each can be changed alone",
         "After any sequence of setting files read into one settings object, every setting that the last file holds and its options call for has the value of its own key in that file (viapoints in order, none left from before; the number "
         "of steps is the horizon over the step length however it rounds; active, extended and total degrees of freedom agree), and every setting that can be read can be changed and then reads as changed, while all others stay.",
         ["inputs", "histories"], "all files and reading orders",
         "the tests read one fixed file per planner and never look at the settings; crossed keys of rarely used options change nothing they compare",
         ["momentumopt/src/momentumopt/setting/PlannerSetting.cpp", "momentumopt/include/momentumopt/setting/PlannerSetting.hpp"],
         [("reading", "momentumopt/src/momentumopt/setting/PlannerSetting.cpp initialize"), ("access", "momentumopt/src/momentumopt/setting/PlannerSetting.cpp get")])
    prop("P21", "Foot and posture references rest at contacts and are smooth in between",
         "For every contact pattern and plan length, the reference of an end-effector is its contact position at rest while it is in contact (also the first and the last contact of a plan), and between two contacts the "
         "polynomial that leaves and arrives without velocity and acceleration and passes the middle raised by the configured offset over the lift-off height, with the velocity that belongs to it, however late in the plan; end-effectors "
         "never in contact stay; posture references meet every viapoint at its time at rest, starting and ending at the given postures.",
         ["inputs"], "all contact patterns, plan lengths and viapoints",
         "no test generates references; contacts that last to the end, late steps of long plans and end-effectors that are always or never in contact are not in the examples",
         [PK + "min_jerk_traj.py", PK + "momentum_kinematics_optimizer.py"],
         [("swing", PK + "momentum_kinematics_optimizer.py EndeffectorTrajectoryGenerator"), ("polynomials", PK + "min_jerk_traj.py poly_points"), ("viapoints", PK + "momentum_kinematics_optimizer.py TrajectoryInterpolator")])
    prop("P22", "Whole-body motions are the best fit to the plan and consistent in themselves",
         "For every contact pattern, posture, weights and earlier use, the velocities (accelerations) computed by the inverse kinematics are the weighted least squares fit to the momentum, com, end-effector and posture references, in flight "
         "subject to the momentum (kept, but for gravity); the states of a computed motion agree with its postures and velocities, follow from each other with the step length, start at the starting posture (feet and com where "
         "the plan starts, base level) and do not depend on earlier motions; the plan is not altered; each setting reaches the gain it names; whole plans keep planned contacts in place.",
         ["inputs", "histories"], "all contact patterns, postures, references, weights and earlier calls",
         "no test runs the kinematics; stale robot data, flight phases and rarely used gains give plausible motions that are merely wrong",
         [PK + "inverse_kinematics.py", PK + "second_order_ik.py", PK + "momentum_kinematics_optimizer.py", PK + "qp.py", "momentumopt/python/momentumopt/motion_planner.py"],
         [("velocities", PK + "inverse_kinematics.py compute"), ("accelerations", PK + "second_order_ik.py step/solve"), ("motion", PK + "momentum_kinematics_optimizer.py optimize"), ("settings", "momentumopt/python/momentumopt/motion_planner.py init_from_settings")])
    MX = "momentumopt/python/momentumopt/motion_execution.py"
    prop("P23", "Exported motion files hold the motion at every millisecond",
         "For every motion, each line of the files written for execution holds the time in milliseconds and the quantity its name says, interpolated between the two states of the plan around that time (the last state is held), with "
         "forces in newtons, legs in the order of the robot's controller, contacts active exactly where the leg's vertical force is positive, one line per millisecond of the motion (whole seconds for the whole-body and regulator files).",
         ["inputs"], "all plan lengths, step lengths, contact patterns and robot sizes",
         "no test exports a motion; swapped legs, a wrong scale or the last step of a long plan go unnoticed until the motion runs on a robot",
         [PK + "create_data_file.py", MX, "momentumopt/python/momentumopt/motion_planner.py"],
         [("interpolation", MX + " desired_state/interpolate"), ("files", PK + "create_data_file.py create_file/create_qp_files/create_lqr_files"), ("times", "momentumopt/python/momentumopt/motion_planner.py create_time_vector/save_files")])
    KO = "momentumopt/src/momentumopt/kinopt/KinematicsOptimizer.cpp"
    prop("P24", "Optimized robot motions minimise their objective within limits",
         "For every robot interface, set of active joints, contact pattern, weights and settings, each step of a computed motion is the minimiser of the configured objective (tracking of com, momenta, rates, end-effectors, default "
         "posture, velocity and acceleration costs, slack penalty) subject to joint limits, the floor and the interface's constraints; inactive joints stay; the returned states (postures, velocities, com, momenta, "
         "end-effectors) belong to the returned motion; results are the same on a reused optimizer; the reference plan is not altered; an optimizer that was not used is destroyed safely.",
         ["inputs", "histories"], "all robots, active joints, contact patterns, weights and earlier uses",
         "no test runs the kinematics optimizer (it needs a robot interface); wrong joint maps and stale values give plausible motions that are merely worse",
         [KO, "momentumopt/src/momentumopt/kinopt/KinematicsState.cpp", "momentumopt/src/momentumopt/kinopt/KinematicsInterface.cpp"],
         [("posture", KO + " optimizePosture"), ("trajectory", KO + " optimizeTrajectory"), ("optimize", KO + " optimize"), ("storage", KO + " storeSolution/initialize/destructor")])
    OU = "momentumopt/src/momentumopt/utilities/OrientationUtils.cpp"; TD = "momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp"
    prop("P25", "Orientation utilities and terrain regions are true to the geometry given",
         "For all orientations (quaternions of either sign and any length), the orientation error is the rotation that leads from the current to the desired one, the required angular velocity is that of this rotation in the asked "
         "coordinates, and integrating a velocity turns by velocity times duration, ending in a unit quaternion, so that the required velocity reaches the desired orientation; for every convex polygon the region's center, normal, "
         "half-spaces (their intersection is exactly the polygon), rotation and number are those of the polygon, and a description holds exactly the regions added to it or read from files so far, in order.",
         ["inputs", "histories"], "all orientations, polygons and sequences of additions and files",
         "no test calls them; coordinate mix-ups vanish when axes agree, half-space and center mistakes when regions are rectangles",
         [OU, TD], [("orientation", OU + " orientationError/requiredAngularVelocity/integrateAngularVelocity"), ("region", TD + " TerrainRegion::initialize"), ("description", TD + " addTerrainRegion/loadFromFile")])
    RW = "momentumopt/python/momentumopt/robots/blmc_robot_wrapper.py"
    prop("P26", "The robot wrapper answers for the configuration and velocity set last",
         "For every robot and sequence of configuration, velocity and increment updates, every function handed out by the wrapper (Jacobians of frames and center of mass, of the current or a given configuration, frame placements, velocities "
         "towards a goal, momentum matrices), whenever it was obtained, returns the quantity at the configuration and velocity set last, whatever was evaluated in between; robots start in the documented crouch of every leg; names that are no frames are refused.",
         ["histories"], "all update and reading sequences",
         "no test constructs a robot; values left over from an earlier evaluation look plausible",
         [RW], [("updates", RW + " set_configuration/update_configuration"), ("quantities", RW + " get_jacobian/get_transformation/get_centroidal_momentum"), ("start", RW + " set_init_config")])
    RM = "solver/include/solver/rt_optimizer/RtMatrix.hpp"
    prop("P27", "Fixed-capacity matrices always hold what the operations on them say",
         "After every sequence of operations within the capacity (appending rows, also at a column, resizing with the contents kept, filling, removing zero rows, substituting variables, adding norms and weighted norms), matrices, vectors, "
         "affine maps and quadratic forms hold exactly the rows, offsets and coefficients these operations denote, whatever was in their storage before, and no memory is allocated; selector matrices, nullspace maps, ranks, inverse singular values and condition numbers are those of the matrix given.",
         ["histories"], "all operation sequences",
         "the tests reach the containers through one hierarchy of fixed sizes; stale storage, the first or last row and pruning of several rows are not in it",
         [RM], [("matrices", RM + " RtMatrixUtils"), ("affine maps", RM + " RtAffineUtils"), ("quadratic forms", RM + " RtQuadraticUtils")])
    OPT = "solver/src/solver/optimizer/"; CC = "solver/src/solver/interface/Cone.cpp"
    prop("P28", "Sparse factorizations, cone operations and equilibration are exact",
         "For every sparsity pattern and pivot signs, factorizing and solving (again with new values, or a new pattern) gives the solution of the system, pivots too small or of the wrong sign being replaced as configured; for every layout of cones, "
         "sizes, offsets and views are consistent, products, divisions, projections and residuals are those of the cone algebra, scalings of interior points map the dual to the primal point (points outside are reported), and the KKT "
         "systems are solved to the accuracy the regularization permits; equilibration scales matrices, vectors and solutions consistently, rows of one cone alike, and is undone exactly.",
         ["inputs"], "all patterns, cone layouts and points",
         "the tests solve a handful of whole programs; an inexact step only costs iterations there",
         [OPT + "SparseCholesky.cpp", OPT + "LinSolver.cpp", OPT + "EqRoutine.cpp", CC],
         [("factorization", OPT + "SparseCholesky.cpp analyzePattern/factorize/solve"), ("cones", CC + " Cone"), ("systems", OPT + "LinSolver.cpp solve/updateMatrix"), ("equilibration", OPT + "EqRoutine.cpp")])
    SP = "momentumopt/srcpy/momentumopt/"; LP = "solver_lqr/srcpy/solver_lqr/"; KI = "momentumopt/include/momentumopt/kinopt/"
    prop("P29", "Robots, feedback gains and LQR settings behave in Python as in C++",
         "For every robot implemented as a Python class (whether it changes the states it is given or returns new ones), the kinematics optimizer calls its methods in the same order and with the same states and durations, uses the matrices it sets, shows the same "
         "postures and returns the same motion as for the same robot implemented in C++; matrices and Jacobians written from Python, in any order and of any size, are what is read back; the gains of the feedback controller and every setting and parameter name "
         "of the linear-quadratic solver have in Python the values they have in C++ and in the configuration file.",
         ["inputs", "histories"], "all robots, configurations and sequences of accesses",
         "no test implements a robot in Python or builds these bindings; crossed arguments and stale matrices still give plausible motions",
         [SP + "kinopt/PyKinematics.cpp", KI + "PyKinematicsInterface.hpp", KI + "KinematicsInterface.hpp", SP + "dynopt/PyDynamics.cpp", LP + "PySettingLqr.cpp", LP + "PyParamsLqr.cpp"],
         [("robot", KI + "PyKinematicsInterface.hpp"), ("matrices", KI + "KinematicsInterface.hpp"), ("gains", SP + "dynopt/PyDynamics.cpp DynamicsFeedback"), ("settings", LP + "PySettingLqr.cpp, PyParamsLqr.cpp")])

    prop("P30", "States, motions and control sequences behave as values",
         "Every field of a dynamics or kinematics state reads what was last written to it, in whatever way it was written, and no write changes another field; generalized positions, velocities and accelerations are made of their parts. "
         "Copies (also of a sequence to itself or of an empty one) equal the original and are independent of it; resizing gives the requested number of new states or controls in their initial condition, whatever was there before. "
         "States and controls of the linear-quadratic solver add, subtract and scale entry by entry; scaling a control scales its feedforward only, a sum of controls takes the gains of the added one, and the relative size of one "
         "control sequence to another is the mean over time of the largest ratio.",
         ["histories"], "all histories of writes, copies, sums, scalings and resizings",
         "no test writes these containers more than once or copies them; stale states after resizing or shared data only show in later iterations of the planner",
         ["momentumopt/src/momentumopt/dynopt/DynamicsState.cpp", "momentumopt/include/momentumopt/dynopt/DynamicsState.hpp", "momentumopt/src/momentumopt/kinopt/KinematicsState.cpp", "momentumopt/include/momentumopt/kinopt/KinematicsState.hpp", "solver_lqr/src/solver_lqr/OcpDescription.cpp", "solver_lqr/include/solver_lqr/OcpDescription.hpp"],
         [("fields", "momentumopt/include/momentumopt/dynopt/DynamicsState.hpp, kinopt/KinematicsState.hpp"), ("sequences", "momentumopt/src/momentumopt/dynopt/DynamicsState.cpp resize"), ("arithmetic", "solver_lqr/src/solver_lqr/OcpDescription.cpp")])