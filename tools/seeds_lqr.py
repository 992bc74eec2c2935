"""planted changes to the LQR solver (P16) and the momentum feedback (P17)"""
from mkseed import *
import seeds_plan as S
H16 = open("/verif/harness/p16_lqr.cpp").read(); H16 = H16[:H16.index("#ifndef P16_NO_MAIN")]
H17 = open("/verif/harness/p17_feedback.cpp").read(); H17 = H17[:H17.index("int main(")].replace('#define P16_NO_MAIN\n#include "p16_lqr.cpp"', '#include "lqr.hpp"')
VPH = '''#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <cmath>
#include <cstdio>
namespace vp { static int bad = 0; inline void fail(const std::string& k, const std::string& m) { std::printf("%s: %s\\n", k.c_str(), m.c_str()); bad = 1; } inline void count(const char*, long) {} }
'''
SH = HEAD + '''F="-std=c++17 -O1 -w -include iomanip -I$D -I$D/stub -I$R/solver/include -I$R/momentumopt/include -I$R/solver_lqr/include -I/usr/include/eigen3"
mkdir "$W/o"
{ echo "$D/demo.cpp"; ls "$R"/solver/src/solver/interface/*.cpp "$R"/solver/src/solver/optimizer/*.cpp "$R"/solver_lqr/src/solver_lqr/*.cpp EXTRA | grep -v -e Lbfgs; } |
  xargs -P 8 -I{} sh -c 'g++ '"$F"' -DCFG_PATH=\\"'"$R"'/solver_lqr/config/\\" -DCFG_SRC_PATH=\\"'"$R"'/momentumopt/config/\\" -c "$1" -o "'"$W"'/o/$(basename "$1").o"' _ {}
g++ "$W"/o/*.o -o "$W/demo" -lyaml-cpp
cd "$W"; r=0; timeout 100 ./demo > out.txt || r=1; grep -v -e '^ *$' out.txt | tail -5; exit $r
'''
X17 = '"$R"/momentumopt/src/momentumopt/{cntopt,setting,utilities}/*.cpp "$R"/momentumopt/src/momentumopt/kinopt/KinematicsState.cpp "$R"/momentumopt/src/momentumopt/dynopt/Dynamics*.cpp'
def lqr(id, prop, needs, breaks, edits, body):
    os.makedirs("/verif/seeded/%s/stub/yaml_utils" % id, exist_ok=True)
    f = {"demo.cpp": '#include "lqr.hpp"\n' + body, "lqr.hpp": "#pragma once\n" + H16, "vp.hpp": VPH}
    if prop == "P17": f.update({"demo.cpp": '#include "feedback.hpp"\n' + body, "feedback.hpp": "#pragma once\n" + H17, "dynplan.hpp": S.HPP})
    mk(id, prop, needs, breaks, edits, dict(f, **S.STUB), SH.replace("EXTRA", X17 if prop == "P17" else ""))
L = "solver_lqr/src/solver_lqr/"
lqr("p16-lost-coupling", "P16", "a cost that couples states and controls", "the gains ignore the coupling of states and controls in the cost",
    [(L + "BackwardPass.cpp", "Eigen::MatrixXd G = P + B.transpose()*Sxx*A;", "Eigen::MatrixXd G = B.transpose()*Sxx*A;")],
    '''int main() { Lq o = lq(2, 2, 3, 7, 0); Set g; g.T = 3; g.x = 2; g.u = 2; SolverLqrSetting st; load(st, g); o.initialize(st); start(o, o.x0, std::vector<V>(3, V::Zero(2))); SolverLqr l; l.initialize(&o, st); l.optimize(); check_optimum(o, o.x0, 2, 1e-7, true, "lq", ""); return vp::bad; }
''')
lqr("p16-shared-limit", "P16", "two controls with different limits, the larger of which is reached", "controls are held back by the limit of the first control",
    [(L + "ForwardPass.cpp", "ff", "ff") if 0 else (L + "ForwardPass.cpp", ".feedforward()[ctrl_id] >= this->getLqrSetting().get(SolverLqrVectorParam_MaxControlLimits)[ctrl_id])", ".feedforward()[ctrl_id] >= this->getLqrSetting().get(SolverLqrVectorParam_MaxControlLimits).maxCoeff())")],
    '''int main() { Lq o = lq(2, 2, 3, 7, 0); Set g; g.T = 3; g.x = 2; g.u = 2; g.limits = true; g.lo = V::Constant(2, -5); g.hi = V::Constant(2, 5); auto z = optimum(o, o.x0, 2); g.hi << 5, 0; for (auto& u : z) std::cout << u.transpose() << std::endl; std::vector<V> u0(3, V::Constant(2, 2.)); g.iters = 0; SolverLqrSetting st; load(st, g); o.initialize(st); start(o, o.x0, u0); SolverLqr l; l.initialize(&o, st); l.optimize();
  for (auto& u : controls(o)) { std::cout << "control " << u.transpose() << std::endl; for (int i = 0; i < 2; i++) if (u[i] > g.hi[i] + 1e-5 || u[i] < g.lo[i] - 1e-5) return 1; } return 0; }
''')
lqr("p16-runge-kutta", "P16", "Runge-Kutta integration of state dependent dynamics", "the third slope of the integration is taken at the second one's place",
    [(L + "OcpDescription.cpp", "this->dynamics(state+0.5*k2, control, time_id)", "this->dynamics(state+0.5*k1, control, time_id)")],
    '''struct P : OcpBase { void configure(const YAML::Node&) {} StateBase dynamics(const StateBase& x, const ControlBase& u, int) { StateBase d(1); d.stateVector() = 0.5 * x.stateVector() + u.feedforward(); return d; } double objective(const StateBase& x, const ControlBase&, int, bool) { return x.stateVector().squaredNorm(); } };
int main() { Set g; g.T = 1; SolverLqrSetting st; load(st, g); st.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = true; P o; o.initialize(st); StateBase x(1), y(1); x.stateVector()[0] = 1; ControlBase u(1, 1); u.feedforward()[0] = 0; u.feedback().setZero(); o.internal_dynamics(x, u, y, 0); double h = 0.5, e = 1 + h + h * h / 2 + h * h * h / 6 + h * h * h * h / 24; std::cout << y.stateVector()[0] << " instead of " << e << std::endl; return !(std::fabs(y.stateVector()[0] - e) < 1e-9); }
''')
F = "momentumopt/src/momentumopt/dynopt/DynamicsFeedback.cpp"
ONE = '''int main() { double m = 5, gr = 9.81; int n = 2, T = 3; V3 g(0, 0, -gr); Plan p = plan(n, T, 0x1b, 21, m, g, 1, false); Weights w = weights(0); PlannerSetting ps; settings(ps, n, T, m, gr); SolverLqrSetting ls; load(ls, lqrset(n, T, w)); DynamicsSequence q; DynamicsState ini; DynamicsFeedback d; SolverLqr l; d.initialize(ls); d.setPlannerSetting(ps); l.initialize(&d, ls); fill(q, ini, p, m * gr);
  d.setStatesAndControls(ini, q); l.optimize(); check(d, p, w, m, g, "plan", ""); return vp::bad; }
'''
lqr("p17-early-lever", "P17", "end-effectors in contact while the center of mass moves", "lever arms of the contact forces are taken from the center of mass before the step instead of after it, unlike in the plan",
    [(F, "(state.stateVector().segment<3>(0)+dstate.stateVector().segment<3>(0))).cross(", "state.stateVector().segment<3>(0)).cross(")], ONE)
lqr("p17-final-spin", "P17", "a final weight on the angular momentum that differs from the running one", "the final weight of the angular momentum is ignored",
    [(F, "      amom_tracking = amom_final_tracking_;\n", "      amom_tracking = amom_tracking_;\n")], ONE)
lqr("p17-flight-time", "P17", "time steps of different durations", "gravity acts for the duration of the first step in every step",
    [(F, "= dt * this->getSetting().get(PlannerDoubleParam_RobotMass) *", "= this->dynamicsSequence().dynamicsState(0).time() * this->getSetting().get(PlannerDoubleParam_RobotMass) *")], ONE.replace("g, 1, false)", "g, 1, true)"))
