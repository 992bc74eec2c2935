"""mk(id, property, needs, breaks, edits=[(file, old, new)], demo={name: text}) writes /verif/seeded/<id>"""
import os, subprocess, json, tempfile, atexit, shutil
R = tempfile.mkdtemp(prefix="/tmp/mkseed"); atexit.register(shutil.rmtree, R, True)
subprocess.run("git -C ${SRC:-/repo} archive HEAD | tar -x -C %s; cd %s; git init -q; git add -A; git -c user.name=x -c user.email=x@x commit -qm x" % (R, R), shell=True, check=True)
HEAD = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is not; run with the repository as working directory
set -e
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
'''
RT = HEAD + '''g++ -std=c++17 -O1 -w -I"$R/solver/include" -I/usr/include/eigen3 "$D/demo.cpp" "$R"/solver/src/solver/interface/{Exprs,Var}.cpp -o "$W/demo" -lyaml-cpp -lboost_thread -lpthread
timeout 60 "$W/demo"
'''
def mk(id, prop, needs, breaks, edits, demo, sh):
    assert subprocess.run(["git", "-C", R, "status", "--porcelain"], capture_output=True, text=True).stdout == "", "dirty"
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    for f, a, b in edits:
        p = os.path.join(R, f); s = open(p, newline="").read()
        if "\r\n" in s: a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w", newline="").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", R, "diff", "--no-color"], capture_output=True).stdout
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    open(d + "/patch.diff", "wb").write(diff)
    for n, t in demo.items():
        open(os.path.join(d, n), "w").write(t)
    open(d + "/demo.sh", "w").write(sh)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
CON = HEAD + '''F="-std=c++17 -O1 -w -I$D/stub -I$R/solver/include -I/usr/include/eigen3"
mkdir "$W/o"
{ echo "$D/demo.cpp"; ls "$R"/solver/src/solver/interface/*.cpp "$R"/solver/src/solver/optimizer/*.cpp | grep -v -e OptVar -e Lbfgs; } |
  xargs -P 8 -I{} sh -c 'g++ '"$F"' -c "$1" -o "'"$W"'/o/$(basename "$1").o"' _ {}
g++ "$W"/o/*.o -o "$W/demo" -lyaml-cpp
timeout 60 "$W/demo"
'''
CPRE = '''#include <iostream>
#include <memory>
#include <vector>
#include <solver/interface/Model.hpp>
#include <cstdio>
#include <cmath>
using namespace solver;
static void stgs(SolverSetting& s) {
  s.set(SolverBoolParam_Verbose, false); s.set(SolverBoolParam_BnBVerbose, false);
  s.set(SolverIntParam_SolverMaxIters, 100); s.set(SolverIntParam_MaxIters, 100); s.set(SolverIntParam_WarmStartIters, 0);
  s.set(SolverIntParam_EquilibrationIters, 3); s.set(SolverIntParam_NumIterRefinementsLinSolve, 9); s.set(SolverIntParam_NumberRefinementsTrustRegion, 0);
  s.set(SolverIntParam_BnBMaxIters, 100);
  s.set(SolverDoubleParam_FeasibilityTol, 1e-8); s.set(SolverDoubleParam_DualityGapAbsTol, 1e-8); s.set(SolverDoubleParam_DualityGapRelTol, 1e-8);
  s.set(SolverDoubleParam_FeasibilityTolInacc, 1e-4); s.set(SolverDoubleParam_DualityGapAbsTolInacc, 5e-5); s.set(SolverDoubleParam_DualityGapRelTolInacc, 5e-5);
  s.set(SolverDoubleParam_LinearSystemAccuracy, 1e-14); s.set(SolverDoubleParam_ErrorReductionFactor, 6);
  s.set(SolverDoubleParam_StaticRegularization, 7e-8); s.set(SolverDoubleParam_DynamicRegularization, 2e-7); s.set(SolverDoubleParam_DynamicRegularizationThresh, 1e-13);
  s.set(SolverDoubleParam_SafeGuard, 500); s.set(SolverDoubleParam_MinimumStepLength, 1e-6); s.set(SolverDoubleParam_MaximumStepLength, 0.999);
  s.set(SolverDoubleParam_MinimumCenteringStep, 1e-4); s.set(SolverDoubleParam_MaximumCenteringStep, 1.0); s.set(SolverDoubleParam_StepLengthScaling, 0.99);
  s.set(SolverDoubleParam_TrustRegionThreshold, 0.1); s.set(SolverDoubleParam_SoftConstraintWeightFull, 1e4); s.set(SolverDoubleParam_SoftConstraintWeightReduced, 1e3);
  s.set(SolverDoubleParam_BnBIntegerTol, 1e-4); s.set(SolverDoubleParam_BnBAbsSubOptGap, 1e-3); s.set(SolverDoubleParam_BnBRelSubOptGap, 1e-3);
}
static bool solved(ExitCode c) { return c == ExitCode::Optimal || c == ExitCode::OptimalInacc; }
static int bad = 0;
static void expect(bool ok, const char* what) { if (!ok) { std::printf("wrong: %s\\n", what); bad = 1; } }
static bool near(double a, double b, double e = 1e-3) { return std::fabs(a - b) <= e; }
'''
def con(id, prop, needs, breaks, edits, body):
    import shutil
    mk(id, prop, needs, breaks, edits, {"demo.cpp": CPRE + body}, CON)
    shutil.copytree("/verif/stubs/yaml_utils", "/verif/seeded/%s/stub/yaml_utils" % id, dirs_exist_ok=True)
