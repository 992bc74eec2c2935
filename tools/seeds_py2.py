"""planted changes to what Python robots and the bindings of the LQR solver see (P29)"""
from mkseed import *
import seeds_plan as S
PY = "/opt/vp/venv/bin/python"
MOD = HEAD + '''P=$(ls /opt/vp/venv/bin/python 2>/dev/null || command -v python3)
I=$($P -c "import sysconfig; print(sysconfig.get_paths()['include'])"); X=$($P -c "import sysconfig; print(sysconfig.get_config_var('EXT_SUFFIX'))")
g++ -std=c++17 -O1 -w -fPIC -shared -fvisibility=hidden -I"$D/stub" -I"$R" -I"$R/solver/include" -I"$R/solver_lqr/include" -I"$R/momentumopt/include" -I/usr/include/eigen3 -I"$I" "$D/demo.cpp" EXTRA -o "$W/demomod$X" -lyaml-cpp
cd "$W"; PYTHONPATH="$W" timeout 60 $P "$D/demo.py"
'''
CPP = HEAD + '''g++ -std=c++17 -O1 -w -I"$D/stub" -I"$R/solver/include" -I"$R/momentumopt/include" -I/usr/include/eigen3 "$D/demo.cpp" "$R/momentumopt/src/momentumopt/kinopt/KinematicsState.cpp" -o "$W/demo" -lyaml-cpp
timeout 60 "$W/demo"
'''
def it(id, needs, breaks, edits, files, sh):
    os.makedirs("/verif/seeded/%s/stub/yaml_utils" % id, exist_ok=True)
    mk(id, "P29", needs, breaks, edits, dict(files, **S.STUB), sh)
K = "momentumopt/include/momentumopt/kinopt/"; L = "solver_lqr/srcpy/solver_lqr/"
it("p29-crossed-postures", "a robot written in Python and refinements of the posture", "differentiatePostures of a Python robot gets the two postures the wrong way round",
   [(K + "PyKinematicsInterface.hpp", "start_state,\n\t\t  end_state,", "end_state,\n\t\t  start_state,")],
   {"demo.cpp": '''#include <pybind11/eigen.h>
#include <pybind11/pybind11.h>
#include <momentumopt/kinopt/PyKinematicsInterface.hpp>
namespace py = pybind11; using namespace momentumopt;
PYBIND11_MODULE(demomod, m) {
  py::class_<KinematicsState>(m, "State").def_property_readonly("x", [](const KinematicsState& s) { return s.centerOfMass()[0]; });
  py::class_<KinematicsInterface, PyKinematicsInterface>(m, "Interface").def(py::init<>());
  m.def("run", [](KinematicsInterface& i) { KinematicsState a(1), b(1); a.centerOfMass()[0] = 1; b.centerOfMass()[0] = 2; return i.differentiatePostures(a, b, .5).centerOfMass()[0]; });
}
''', "demo.py": '''import demomod as demo, sys
class Robot(demo.Interface):
    def __init__(self): demo.Interface.__init__(self); self.got = None
    def differentiatePostures(self, start, end, dt): self.got = start.x, end.x, dt; return end
r = Robot(); print(demo.run(r), r.got)
sys.exit(r.got != (1, 2, .5))
'''}, MOD.replace("EXTRA", '"$R/momentumopt/src/momentumopt/kinopt/KinematicsState.cpp"'))
it("p29-stale-jacobians", "Jacobians of the end-effectors given as a list a second time", "Jacobians that a Python robot sets again are ignored unless their number changes",
   [(K + "KinematicsInterface.hpp", "{ endeffector_jacobians_ = endeffector_jacobians; }", "{ if (endeffector_jacobians_.size() != endeffector_jacobians.size()) { endeffector_jacobians_ = endeffector_jacobians; } }")],
   {"demo.cpp": '''#include <momentumopt/kinopt/KinematicsInterface.hpp>
#include <iostream>
using namespace momentumopt;
struct Robot : KinematicsInterface {
  void initialize(PlannerSetting&) override {}  Eigen::Vector3d logarithmicMap(const Eigen::Vector4d) override { return Eigen::Vector3d::Zero(); }  KinematicsState integratePosture(KinematicsState& s, double) override { return s; }
  void displayPosture(const KinematicsState&, double) override {}  KinematicsState updateJacobiansAndState(KinematicsState& s, double) override { return s; }  KinematicsState differentiatePostures(KinematicsState&, KinematicsState& s, double) override { return s; } };
int main() { Robot r; for (int k = 1; k < 4; k++) { std::vector<Eigen::MatrixXd> j(4, Eigen::MatrixXd::Constant(6, 8, k)); r.endeffectorJacobians(j); std::cout << r.endeffectorJacobian(2)(0, 0) << std::endl; if (r.endeffectorJacobian(2) != j[2]) return 1; } return 0; }
'''}, CPP)
it("p29-parameter-name", "reading the growth of the regularization from Python", "two parameters of the linear-quadratic solver are exchanged under their Python names",
   [(L + "PyParamsLqr.cpp", '"SolverLqrDoubleParam_BackPassMultRegularizationIncr", SolverLqrDoubleParam_BackPassMultRegularizationIncr', '"SolverLqrDoubleParam_BackPassMultRegularizationIncr", SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr'),
    (L + "PyParamsLqr.cpp", '"SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr", SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr', '"SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr", SolverLqrDoubleParam_BackPassMultRegularizationIncr')],
   {"demo.cpp": '''#include <solver_lqr/srcpy/solver_lqr/PyParamsLqr.cpp>
PYBIND11_MODULE(demomod, m) { init_params_lqr(m); m.attr("want") = py::make_tuple(int(SolverLqrDoubleParam_BackPassMultRegularizationIncr), int(SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr)); }
''', "demo.py": '''import demomod as demo, sys
got = int(demo.SolverLqrDoubleParam_BackPassMultRegularizationIncr), int(demo.SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr)
print(got, demo.want); sys.exit(got != tuple(demo.want))
'''}, MOD.replace(" EXTRA", ""))
