"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})


RT = "solver/include/solver/rt_optimizer/"
prop("P01", "The hierarchical solver's threads never race, hang or change the answer",
     "Whatever the interleaving of the hierarchical real-time solver's calling thread and its background decomposition thread, including "
     "spurious wake-ups, every sequence of initialise, reset, solve-task and destroy calls completes without deadlock, without unsynchronised "
     "access to shared data and without leaving a thread behind. The reported status, solution and remaining degrees of freedom after each task "
     "are the same for every interleaving, and after a reset they are the same as on a freshly created and initialised solver.",
     ["schedules", "histories"], "all interleavings of the two threads, for every call history in which initialise precedes the first task",
     "the tests run three fixed hierarchies under whatever schedule the OS happens to pick; a lost wake-up, an unguarded flag or a stale "
     "result shows only under particular interleavings or call histories",
     [RT + "RtHQPSolver.h", RT + "RtHQPSolver.hpp", RT + "RtMutex.hpp"],
     [("mutex and two condition variables handing the projected matrix to the SVD thread and its nullspace back", RT + "RtHQPSolver.h solveNextTask/doSVDComputations"),
      ("stop flag, broadcast and join on destruction and re-initialisation", RT + "RtHQPSolver.h stopSVD2ProblemConverter/initialize")])
prop("P02", "Lower-priority tasks never degrade higher-priority tasks",
     "After solving a hierarchy of tasks (linear equalities and inequalities per level) the solution attains, at every level, the least-squares "
     "optimum of that level among all points that keep every higher level at its own optimum: equality residuals equal the lexicographic optimum "
     "and no inequality is violated by more than the lexicographic optimum requires. This holds for any number of levels and variables within the "
     "declared capacities, for conflicting, repeated, redundant or empty levels, and however the solver instance was used before its last reset.",
     ["inputs", "histories"], "all hierarchies of equality/inequality tasks within the solver's capacities",
     "the existing tests check three two-level hierarchies without violated inequalities; priority errors need a violated inequality followed by "
     "further levels, dependent rows, or many levels",
     [RT + "RtHQPSolver.h", RT + "RtQPSolver.hpp", RT + "RtMatrix.hpp"],
     [("nullspace projection of later equalities", RT + "RtHQPSolver.h solveNextTask, RtMatrix.hpp computeNullspaceMap"),
      ("slacks of violated inequalities are carried to later levels", RT + "RtHQPSolver.h solveNextTask")])
prop("P03", "The dense QP solver returns the constrained minimiser or says infeasible",
     "For every strictly convex quadratic program with linearly independent equalities, the dense real-time QP solver reports success exactly when "
     "the constraints are consistent, and then its solution is the unique constrained minimiser. Redundant, duplicate or degenerate inequalities and earlier "
     "problems solved on the same instance make no difference.",
     ["inputs", "histories"], "all strictly convex QPs within the declared capacities, on fresh and reused instances",
     "no existing test calls the QP solver directly; add/drop of active constraints, degeneracy and infeasibility need particular constraint geometries",
     [RT + "RtQPSolver.hpp", RT + "RtQPSolverInterface.hpp", RT + "RtMatrix.hpp"],
     [("dual active-set steps with Givens updates", RT + "RtQPSolver.hpp solveQP/addConstraint/deleteConstraint")])
prop("P04", "The hierarchy front-end solves exactly the hierarchy that was written",
     "A hierarchy written with linear expressions and relations (=, <, >) at arbitrary ranks, or through cost composers contributing matrix blocks, "
     "is solved as the hierarchy those constraints denote: the result does not depend on how terms are split over the two sides, on insertion order, "
     "on gaps in the ranks, on earlier solves, or on constraints removed by cleaning, and taking variables out of the problem is the same as dropping their columns. A "
     "hierarchy whose solved ranks contain a non-finite number is reported invalid.",
     ["programs", "histories"], "all build/solve/clean/rebuild programs over the front-end's operations",
     "the tests build three models once each and solve them once; rebuilding, reuse, rank gaps, composer blocks and removed variables are never exercised",
     [RT + "RtModel.h", RT + "RtModel.hpp", "solver/src/solver/interface/Exprs.cpp", RT + "RtMatrix.hpp"],
     [("rows of one rank are collected per level", RT + "RtModel.h addCostsToHierarchy/appendRowsOfRank"),
      ("column reduction and zero row removal", RT + "RtModel.h reduceColumns, RtMatrix.hpp removeZeroRows")])

from props_more import *  # noqa


def main():
    more(prop)
    import specs
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        s = specs.SPECS.get(p["id"])
        if not s:
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "technique": s["technique"], "level": s["level"], "level_note": s["note"]})
    na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in P if p["id"] not in specs.SPECS]
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
         "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources unmodified", "source_commits": []},
         "notes": "Checks compile /repo's working tree into /verif/build (git-ignored, content-addressed). See DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks")


main()
