"""One entry per property: how its harnesses are built and run."""
import os
from runner import *

H = lambda f: os.path.join(VERIF, "harness", f)
SPECS = {}


def spec(pid, level, rule, technique, note, assumptions=(), **kw):
    def deco(fn):
        SPECS[pid] = dict(cmds=fn, level=level, rule=rule, technique=technique, note=note, assumptions=assumptions, **kw)
        return fn
    return deco


@spec("P01", "model_checking",
      "Every sequence of initialise / reset / solve-task calls up to the stated depth is run on the real solver under a "
      "controlled scheduler; all interleavings of its synchronisation operations within the preemption and spurious wake-up "
      "bounds are enumerated. Non-trivial: the history has more than one schedule.",
      "stateless model checking of the real two-thread solver (interposed pthreads, bounded-preemption DFS, happens-before race detection)",
      "Exhaustive over interleavings of synchronisation operations within the preemption / spurious wake-up bounds; a happens-before "
      "detector over the solver object on every schedule justifies exploring at synchronisation points only.",
      ("code inside libboost_thread is trusted and not a source of scheduling choices",
       "threads are interleaved under sequential consistency; racing accesses are reported, not explored"))
def p01(tier):
    def pf(s, f):
        return f if s.endswith("/sched.cpp") else f + ["-fsanitize=thread"]
    exe = build("p01", ["p01_schedules.cpp", "sched.cpp"], (), ["-O1"], per_file=pf)
    return [("p01", [exe])]


@spec("P02", "exploration",
      "All hierarchies of the listed shapes (two and three variables, up to ten levels, rows from a grid of integer "
      "directions and offsets, equalities and inequalities, empty levels) are solved by the real solver on one reused instance "
      "and compared with lexicographic least squares by active-set enumeration. Non-trivial: some level cannot be met exactly.",
      "bounded-exhaustive exploration of task hierarchies on the real solver against an active-set-enumeration reference",
      "Exhaustive within the enumerated grid of hierarchies; tolerance 2e-4 on residuals.")
def p02(tier):
    return [("p02", [build("p02", ["p02_hqp.cpp"], flags=["-O1", "-fsanitize=bounds", "-fno-sanitize-recover=all"])])]


@spec("P03", "exploration",
      "All strictly convex quadratic programs of one to three variables with up to two equalities and four inequalities from an "
      "integer grid, solved on one reused instance and compared with active-set enumeration. Non-trivial: infeasible, or some "
      "inequality changes the minimiser.",
      "bounded-exhaustive exploration of small quadratic programs on the real solver against an active-set-enumeration reference",
      "Exhaustive within the enumerated grid; equality rows of one problem are linearly independent (the solver's precondition).")
def p03(tier):
    return [("p03", [build("p03", ["p03_rtqp.cpp"], flags=["-O1", "-fsanitize=bounds", "-fno-sanitize-recover=all"])])]


@spec("P04", "model_checking",
      "All build/solve programs of the listed shape (three constraints from a catalogue in four syntactic forms, ranks 0..2 with "
      "gaps; solve, solve again, clean and rebuild in another order, replace, extend; matrix cost composers; variables taken "
      "out; non-finite rows) are executed and after every solve the result is compared with the hierarchy the program denotes. "
      "Non-trivial: every program passed all its comparison points.",
      "explicit exploration of model-building operation sequences on the real front-end against a denotational reference",
      "Exhaustive within the enumerated programs; tolerance 2e-4 on residuals.")
def p04(tier):
    return [("p04", [build("p04", ["p04_rtmodel.cpp"], ["solver/src/solver/interface/Exprs.cpp", "solver/src/solver/interface/Var.cpp"], ["-O1", "-DNDEBUG"])])]


CONIC = ["solver/src/solver/interface/*.cpp", "solver/src/solver/optimizer/[!L]*.cpp", "solver/src/solver/optimizer/Lin*.cpp"]


@spec("P05", "exploration",
      "All linear and convex quadratic programs of two and three variables with up to four rows from an integer grid (plus rows "
      "without variables, rescaled rows, variables and costs), written through the modelling interface in nine syntactic forms, "
      "on fresh and reused models; every exit code and solution is compared with face enumeration. Non-trivial: the solver "
      "answered (solved with constraints, infeasible or unbounded).",
      "bounded-exhaustive exploration of small convex programs on the real conic solver against a face-enumeration reference",
      "Exhaustive within the enumerated grid; tolerances 1e-5 (full precision) and 5e-3 (reduced precision verdicts).")
def p05(tier):
    return [("p05", [build("p05", ["p05_lp.cpp"], CONIC, ["-O1", "-fsanitize=bounds", "-fno-sanitize-recover=all"], ["-lyaml-cpp"])])]


@spec("P06", "exploration",
      "All problems of the listed shapes: one to three constraints from a catalogue of convex quadratic and second-order cone "
      "constraints (one to three terms each), up to two linear rows, linear and quadratic costs, in nine syntactic forms, on fresh and "
      "reused models; every exit code and solution is compared with a cutting-plane reference. Non-trivial: a cone constraint is active at the "
      "solution, or the problem was found infeasible or unbounded.",
      "bounded-exhaustive exploration of small conic programs on the real solver against a cutting-plane reference",
      "Exhaustive within the enumerated catalogue; tolerances 1e-5 (full precision) and 5e-3 (reduced precision verdicts).")
def p06(tier):
    return [("p06", [build("p06", ["p06_soc.cpp"], CONIC, ["-O1", "-fsanitize=bounds", "-fno-sanitize-recover=all"], ["-lyaml-cpp"])])]


@spec("P07", "exploration",
      "All mixed-integer programs of the listed shapes (one to four binaries, up to two continuous variables, one or two rows or "
      "a quadratic / second-order cone constraint, big-M switching, knapsacks; linear and quadratic costs; generous and exhausted node "
      "budgets; fresh and reused models) are solved by branch and bound and compared with enumeration of the binaries. "
      "Non-trivial: the continuous relaxation is cheaper than the mixed-integer optimum, or the problem was found infeasible.",
      "bounded-exhaustive exploration of small mixed-integer programs on the real branch and bound against enumeration of all assignments",
      "Exhaustive within the enumerated catalogue; tolerance 2e-3 on the cost (the configured gaps).")
def p07(tier):
    return [("p07", [build("p07", ["p07_mip.cpp"], CONIC, ["-O1", "-fsanitize=bounds", "-fno-sanitize-recover=all"], ["-lyaml-cpp"])])]


@spec("P08", "exploration",
      "All problems of the listed shapes with one or two non-convex quadratic constraints (trust region and soft-constraint "
      "heuristics, mixed with convex quadratic and second-order cone constraints and linear rows), five initial guesses, with and "
      "without warm start, zero to two refinements, nine syntactic forms, fresh and reused models; the chain of convexified problems is solved by "
      "the reference and the final answer compared; answers with binary variables are checked for soundness. Non-trivial: the final answer "
      "was compared with the chain's.",
      "bounded-exhaustive exploration of non-convex programs on the real solver against a reference successive convexification",
      "Exhaustive within the enumerated catalogue; tolerance 1e-5 on constraints and 1e-2 on the solution.")
def p08(tier):
    return [("p08", [build("p08", ["p08_ncvx.cpp"], CONIC, ["-O1", "-fsanitize=bounds", "-fno-sanitize-recover=all"], ["-lyaml-cpp"])])]


@spec("P09", "exploration",
      "All expression programs of operator depth up to two over 18 base expressions (every overload of +, -, *, / and their in-place "
      "forms), all chains of five in-place updates, and quadratic expressions over all pairs; coefficients, values and operands are compared with "
      "coefficient vectors. Non-trivial: the result has more than one variable.",
      "exhaustive enumeration of expression programs on the real classes against coefficient vectors",
      "Exhaustive to the stated depth; tolerance 1e-12.")
def p09(tier):
    return [("p09", [build("p09", ["p09_exprs.cpp"], CONIC, ["-O1"], ["-lyaml-cpp"])])]


@spec("P10", "model_checking",
      "All histories of up to four operations (thorough: five) and a fixed stride of those one longer, from {solve, clean and rebuild, four linear rows, ball, cone, three objectives, switch to the "
      "second model, overwrite variable values}, followed by a solve of both models; after every solve the answer is compared with the "
      "reference for the problem the history denotes. Non-trivial: all comparisons of the history passed.",
      "explicit exploration of operation histories on two real models against a denotational reference",
      "Exhaustive to the stated depth; histories one longer are explored with a fixed stride; tolerances 1e-5 and 1e-4.")
def p10(tier):
    return [("p10", [build("p10", ["p10_histories.cpp"], CONIC, ["-O1", "-fsanitize=bounds", "-fno-sanitize-recover=all"], ["-lyaml-cpp"])])]


@spec("P11", "model_checking",
      "All ordered pairs (thorough: triples) of stores over the 32 settings; all settings files with one key left out, in all rotations of the keys; all "
      "sequences of up to four (thorough: five) variable additions from eight kinds with stores in between; every refused constraint at every place of a "
      "problem; all sequences of up to two (thorough: three) variable blocks of 35 kinds with guesses set and columns pinned. Non-trivial: more than one store.",
      "explicit exploration of store sequences on the real containers against a map of what was stored",
      "Exhaustive to the stated depths.")
def p11(tier):
    return [("p11", [build("p11", ["p11_store.cpp"], CONIC, ["-O1", "-fsanitize=bounds", "-fno-sanitize-recover=all"], ["-lyaml-cpp"])])]


@spec("P12", "exploration",
      "All runs of lbfgs() over 17 functions (convex, non-convex, unbounded, with restricted domains), starting points, the four line searches and grids of "
      "memory sizes, stopping tests, budgets and step limits; invalid parameters one by one; penalised problems through the solver class with several "
      "solver objects. Non-trivial: at least one iteration was made.",
      "exhaustive enumeration of runs over functions, starts and parameters, each trace checked step by step against the algorithm's contract",
      "Exhaustive within the enumerated grid; traces are checked against dense BFGS directions and the line search conditions.")
def p12(tier):
    return [("p12", [build("p12", ["p12_lbfgs.cpp"], ["solver/src/solver/optimizer/LbfgsSolver.cpp"], ["-O1", "-fsanitize=bounds", "-fno-sanitize-recover=all"])])]


DYN = CONIC + ["momentumopt/src/momentumopt/cntopt/*.cpp", "momentumopt/src/momentumopt/kinopt/KinematicsState.cpp",
               "momentumopt/src/momentumopt/setting/*.cpp", "momentumopt/src/momentumopt/utilities/*.cpp", "momentumopt/src/momentumopt/dynopt/Dynamics[!F]*.cpp"]
CFGSRC = '-DCFG_SRC_PATH="' + os.path.join(REPO, "momentumopt/config/") + '"'
DYNFLAGS = ["-O1", "-fsanitize=bounds", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", CFGSRC]


@spec("P13", "exploration",
      "All plans over enumerated contact schedules (every effector subset, gaps, splits, tilted surfaces, flat/free/full contacts), heuristics (trust region, soft "
      "constraint, time optimization), friction models, objectives one and several at a time, tight limits, and reuse of one planner across schedules; every step of every plan is checked. "
      "Non-trivial: a plan was returned and checked.",
      "exhaustive enumeration of contact schedules and settings; every planned state checked against independently integrated physics, the limits and a reference optimum",
      "Exhaustive within the enumerated grid (quick thins the largest sections by a fixed hash); the reference optimum is a dense dual QP with cutting planes.")
def p13(tier):
    return [("p13", [build("p13", ["p13_plan.cpp"], DYN, DYNFLAGS, ["-lyaml-cpp"])])]


MOM = ["momentumopt/src/momentumopt/cntopt/*.cpp", "momentumopt/src/momentumopt/setting/*.cpp", "momentumopt/src/momentumopt/utilities/*.cpp",
       "momentumopt/src/momentumopt/dynopt/DynamicsState.cpp"]


@spec("P14", "exploration",
      "All sets of contact and viapoint lists of up to three entries per effector, initial states, and all schedules of up to two (thorough: three) contacts on a half-step grid over "
      "up to six steps (with deselected contacts and decimal contact times), read from files and applied to fresh and reused sequences. Non-trivial: contacts were read or steps checked.",
      "exhaustive enumeration of plan files and contact schedules against a direct evaluation of the schedule",
      "Exhaustive within the grid; entries have distinct values so exchanged fields show.")
def p14(tier):
    return [("p14", [build("p14", ["p14_contacts.cpp"], MOM, DYNFLAGS, ["-lyaml-cpp"])])]


@spec("P15", "exploration",
      "All contact patterns of an effector over up to seven (thorough: eight) steps, with runs split in two contacts, contacts outside the horizon, every set of viapoints, initial contact states and step lengths, "
      "and interpolated curves over start times, durations and end points. Non-trivial: a motion was generated and compared.",
      "exhaustive enumeration of contact patterns and curves, every generated pose compared with the closed form of the swing polynomial",
      "Exhaustive over activation patterns within the bound; the closed form is evaluated independently of the interpolator.")
def p15(tier):
    return [("p15", [build("p15", ["p15_swing.cpp"], MOM, DYNFLAGS, ["-lyaml-cpp"])])]


LQRS = CONIC + ["solver_lqr/src/solver_lqr/*.cpp"]
LQRFLAGS = ["-O1", "-include", "iomanip", "-fsanitize=bounds", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", '-DCFG_PATH="' + os.path.join(REPO, "solver_lqr/config/") + '"']


@spec("P16", "exploration",
      "All scalar linear-quadratic problems on a grid of dynamics, costs, horizons, starts and first guesses; problems of up to three states and controls with coupled, time varying and affine terms; "
      "one solver used for several problems; control limits. Non-trivial: the solver ran and its result was compared.",
      "exhaustive enumeration of optimal control problems against a dense optimum and the Riccati recursion",
      "Exhaustive within the grid; multi-dimensional coefficients are drawn from a fixed grid by a fixed hash.")
def p16(tier):
    return [("p16", [build("p16", ["p16_lqr.cpp"], LQRS, LQRFLAGS, ["-lyaml-cpp"])])]


@spec("P17", "exploration",
      "All contact patterns of one to four end-effectors over one to three steps (large ones thinned by a fixed hash) and longer ones, with four sets of tracking weights, plans that do or do not obey physics, "
      "fixed and varying time steps, on fresh and reused controllers; every returned state, the gradient and every gain are compared. Non-trivial: gains were computed and compared.",
      "exhaustive enumeration of contact patterns, the returned motion and gains compared with an independent Riccati recursion on the momentum dynamics",
      "Exhaustive over activation patterns within the bound; plans are drawn from a fixed grid by a fixed hash.")
def p17(tier):
    return [("p17", [build("p17", ["p17_feedback.cpp"], MOM + LQRS + ["momentumopt/src/momentumopt/dynopt/Dynamics*.cpp", "momentumopt/src/momentumopt/kinopt/KinematicsState.cpp"], DYNFLAGS + LQRFLAGS, ["-lyaml-cpp"])])]


@spec("P18", "exploration",
      "Rotations of 14 sizes about 6 axes from 25 orientations; states, controls, contact and step lengths for one integration step with its derivatives; costs and their derivatives at several distances and weights; "
      "all contact patterns over one to four (five) steps and longer ones with the gains and values of every step. Non-trivial: a comparison with the oracle was made.",
      "exhaustive enumeration of plans and contact patterns, executing the real regulator and comparing with an independent rigid body model and Riccati recursion",
      "Exhaustive over contact patterns within the bound; states and weights come from a fixed grid by a fixed hash.")
def p18(tier):
    return [("p18", [PY, os.path.join(VERIF, "harness/p18_manifold.py")])]


@spec("P20", "model_checking",
      "All sequences of up to two (thorough: three) of 48 setting files (heuristics, kinematics, kind of inverse kinematics, numbers of viapoints, sizes, order of keys, section) read into one object; every change of one (thorough: "
      "pairs of) settings after reading; step counts for 120 (400) horizons and eight step lengths. Non-trivial: more than one file or a change.",
      "explicit exploration of read and change sequences on the real settings object against a map of what they should hold",
      "Exhaustive to the stated depths.")
def p20(tier):
    return [("p20", [build("p20", ["p20_settings.cpp"], ["momentumopt/src/momentumopt/setting/*.cpp"], ["-O1", "-fsanitize=bounds", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", CFGSRC], ["-lyaml-cpp"])])]


@spec("P21", "exploration",
      "All contact patterns of plans of up to 9 (thorough: 11) steps, four end-effectors at once; swings of five lengths anywhere in plans of up to 700 (1500) steps; polynomials over 56 windows; one to three viapoints at any of "
      "the steps of short plans and some of long ones. Non-trivial: a swing, polynomial or viapoint motion was compared.",
      "exhaustive enumeration of contact patterns and viapoint times, the references compared with the closed form of the only polynomial that meets the conditions",
      "Exhaustive over patterns within the bound; contact positions from a fixed hash.")
def p21(tier):
    return [("p21", [PY, os.path.join(VERIF, "harness/p21_swing.py")])]


@spec("P23", "exploration",
      "Motions of one to five (thorough: seven) states with even and uneven steps of three lengths, on robots with 8 and 12 joints, every exported quantity read at the states, between them and past the end; the time of each state for 76 (156) "
      "plans; the plain, whole-body and regulator files of motions over ten (eighteen) lengths, two robots and one (three) weights, compared line by line. Non-trivial: the comparison was made to the end.",
      "exhaustive enumeration of plan lengths, step lengths and kinds of export, every line of every exported file compared with the interpolated plan",
      "Exhaustive over the listed lengths and kinds; states from a fixed hash.")
def p23(tier):
    return [("p23", [PY, os.path.join(VERIF, "harness/p23_export.py")])]


MODFLAGS = ["-O1", "-D_GLIBCXX_ASSERTIONS", CFGSRC, "-include", "iomanip", '-DCFG_PATH="' + os.path.join(REPO, "solver_lqr/config/") + '"']


def pysolverlqr():
    return build_module("pysolverlqr", ["solver_lqr/srcpy/**/*.cpp"] + LQRS, MODFLAGS)


@spec("P22", "exploration",
      "Inverse kinematics of both orders for all 16 contact patterns, several weight sets, postures and earlier calls, on robots with 8 and 12 joints; all (quick: a fifth of the) motions of five steps over four kinds of phases with viapoints "
      "and reuse; second order motions over six to nine step lengths; starting postures; the settings of both orders; 18 motions through the whole planner. Non-trivial: the comparison was made to the end.",
      "exhaustive enumeration of contact patterns and phase sequences, executing the real kinematics and checking optimality, momentum and consistency with an independent view of the robot",
      "Exhaustive over contact patterns and phase sequences within the bound; postures and references from a fixed hash; the robot is a small quadruped defined for the check.")
def p22(tier):
    return [("p22", [PY, os.path.join(VERIF, "harness/p22_kinematics.py"), pymomentum(), pysolver(), pysolverlqr()])]


def pysolver():
    return build_module("pysolver", ["solver/srcpy/**/*.cpp"], ["-O1"])


@spec("P19", "model_checking",
      "All sequences of two (thorough: three) accesses to every attribute of the state, posture, velocity, acceleration, kinematics and contact classes, stand-alone, in containers and through sequences; all sequences of three (four) "
      "container operations; every setting read and changed (thorough: pairs) under every combination of options; 18 plans made through the interface. Non-trivial: the sequence was executed to its end.",
      "explicit exploration of access sequences on the real Python module against a map of what was written",
      "Exhaustive to the stated depths over fixed value pools.")
def p19(tier):
    return [("p19", [PY, os.path.join(VERIF, "harness/p19_python.py"), pymomentum(), pysolver()])]


def pymomentum():
    return build_module("pymomentum", ["momentumopt/srcpy/momentumopt/**/*.cpp"] + MOM + LQRS + ["momentumopt/src/momentumopt/dynopt/*.cpp", "momentumopt/src/momentumopt/kinopt/*.cpp"], MODFLAGS)


def setup():
    """nothing is shared between runs, so every check builds what it needs itself; this only
    checks that what they need is there"""
    import subprocess
    for t in (["g++", "--version"], [PY, "-c", "import numpy, scipy"]):
        subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
    for d in ("/usr/include/eigen3/Eigen/Core", os.path.join(REPO, "solver/include")):
        if not os.path.exists(d):
            raise NoAnswer("missing " + d)
    print("ok:", len(SPECS), "checks")
    return 0


KIN = MOM + CONIC + ["momentumopt/src/momentumopt/kinopt/*.cpp"]


@spec("P24", "exploration",
      "All motions over the enumerated grid of robots with linear kinematics (one to three joints, every set of active joints, one to four end-effectors), objectives one term at a time and together, "
      "joint limits and floor, contact patterns, step lengths, iteration counts of both stages, and sequences of calls on one optimizer; every returned posture is compared with a reference optimum. Non-trivial: a motion was compared.",
      "exhaustive enumeration of robots, objectives and settings; every planned motion compared with a dense quadratic program and checked for consistency",
      "Exhaustive within the enumerated grid; for these robots the planned motion is the unique optimum of a quadratic program, solved densely.")
def p24(tier):
    return [("p24", [build("p24", ["p24_kinopt.cpp"], KIN, DYNFLAGS, ["-lyaml-cpp"])])]


@spec("P25", "exploration",
      "All pairs of current orientations and rotations over 26 axes and 11 (thorough: 18) angles, quaternions of either sign and any length, world and body coordinates, three step lengths, turns beyond a full one; all of 300 (600) "
      "polygons as terrain regions from each first vertex, and all sequences of up to four (five) additions and file readings. Non-trivial: the geometry was compared.",
      "exhaustive enumeration of orientation pairs, polygons and histories of terrain descriptions against rotation matrices and point membership computed independently",
      "Exhaustive within the grid; small rotations within the approximation the code documents (0.4 %).")
def p25(tier):
    return [("p25", [build("p25", ["p25_geometry.cpp"], ["momentumopt/src/momentumopt/cntopt/TerrainDescription.cpp", "momentumopt/src/momentumopt/utilities/OrientationUtils.cpp"], ["-O1", "-fsanitize=bounds", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], ["-lyaml-cpp"])])]


@spec("P26", "exploration",
      "Three robots (8, 12 and 6 joints); all sequences of up to three (thorough: four) configuration, velocity and increment updates; after each update one, after the last all quantities that the wrapper hands out (Jacobians of frames "
      "and com in all selections, placements, velocities towards goals, momentum matrices) are read through functions obtained before the sequence; each quantity alone before and after each of two (three) updates. Non-trivial: all readings were compared.",
      "exhaustive enumeration of update and reading sequences on the real wrapper against a robot model and data of the check's own",
      "Exhaustive to the stated depth; configurations from a fixed list; stand-ins for the robot description packages.",
      ("pinocchio is trusted",))
def p26(tier):
    return [("p26", [PY, os.path.join(VERIF, "harness/p26_wrapper.py")])]


@spec("P27", "model_checking",
      "All histories of three (thorough: four) operations out of 32 (appending blocks and blocks at a column, resizing, filling, pruning zero rows in all forms, substituting, adding norms) on real matrices of fixed capacity from three starting "
      "contents with unclean storage, compared after every operation with lists of rows; all selector vectors of up to five entries; nullspace, pseudo-inverse and condition of all small integer matrices; allocations counted. Non-trivial: every operation of the history was applicable.",
      "explicit exploration of operation histories on the real containers against a list-of-rows model run in lockstep (every model transition is replayed on the implementation and compared)",
      "Exhaustive to the stated depth; states are counted per worker; tolerance 1e-9.")
def p27(tier):
    return [("p27", [build("p27", ["p27_rtmatrix.cpp"], [], ["-O1", "-g", "-std=c++14"])])]


@spec("P28", "exploration",
      "All sparsity patterns of up to four (thorough: five) rows with all pivot signs and five sets of values each (stored zeros, pivots to be replaced, new patterns on used objects); all cone layouts of up to three variables, two equalities, three inequalities "
      "and three cones of sizes two to five with 12 (60) sets of points, matrices, permutations and scalings. Non-trivial: off-diagonal entries / cones present.",
      "exhaustive enumeration of sparsity patterns and cone layouts on the real classes against dense linear algebra",
      "Exhaustive over the patterns and layouts; values from fixed sequences; tolerances 1e-9 to 2e-4 (the static regularization of the KKT matrix).")
def p28(tier):
    return [("p28", [build("p28", ["p28_linalg.cpp"], CONIC, ["-O1"], ["-lyaml-cpp"])])]


@spec("P29", "exploration",
      "A robot written as a Python class (changing the state it is given, returning a new one, or derived twice) and the same robot in C++ next to the repository's bindings, over one to three joints, sets of active joints, two and four end-effectors, "
      "two contact plans, constraints, iteration counts, display and repeated calls: every call, argument, matrix, displayed posture and resulting motion compared; gains of the feedback controller for one to four end-effectors, one to five steps, "
      "contact patterns and weights, read in both directions; every setting of the linear-quadratic solver. Non-trivial: both sides were compared.",
      "exhaustive enumeration of configurations, run through the real bindings and, in lockstep, through the same C++ code called directly; all observations compared",
      "Exhaustive within the grid; the robot's kinematics are linear, so that both sides have the same unique optimum.")
def p29(tier):
    native = build_module("vpnative", MOM + LQRS + ["momentumopt/src/momentumopt/dynopt/*.cpp", "momentumopt/src/momentumopt/kinopt/*.cpp"], MODFLAGS, own=["p29_native.cpp"])
    return [("p29", [PY, os.path.join(VERIF, "harness/p29_interfaces.py"), pymomentum(), pysolver(), pysolverlqr(), native])]


@spec("P30", "model_checking",
      "All histories of writes, copies, self-assignments, sums, scalings, resizings and element assignments on two sequences of dynamics states, kinematics states and controls, and on a sequence of states of an optimal control problem with a single one, to "
      "depth 3 to 5 (thorough: 4 to 6) from several sizes; all pairs of writes to the fields of one state, in every way a field is written. After every operation everything is read back. Non-trivial: the first operations applied.",
      "explicit-state exploration of operation histories on the real containers in lockstep with plain lists of numbers",
      "Exhaustive to the stated depth; states are counted per worker; exact up to rounding.")
def p30(tier):
    return [("p30", [build("p30", ["p30_values.cpp"], MOM + ["momentumopt/src/momentumopt/kinopt/KinematicsState.cpp", "solver_lqr/src/solver_lqr/OcpDescription.cpp", "solver_lqr/src/solver_lqr/SolverLqrSetting.cpp"], DYNFLAGS + LQRFLAGS, ["-lyaml-cpp"])])]
