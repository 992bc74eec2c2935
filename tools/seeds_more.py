"""planted changes to several parts, written when the checks were last extended"""
from mkseed import *
import sys
import seeds_plan as S
H = "solver/include/solver/rt_optimizer/"
HQ = '#include <cstdio>\n#include <cmath>\n#include <boost/thread.hpp>\n#include <boost/bind.hpp>\n#include <boost/shared_ptr.hpp>\n#include <boost/date_time/posix_time/posix_time.hpp>\n#include <solver/rt_optimizer/RtHQPSolver.h>\n'
mk("p02-slack-share", "P02", "a level with three or more inequality rows that conflict with an equality row of the same level",
 "violations of inequality rows count less the more rows a level has, so the compromise with the equality rows moves",
 [(H + "RtHQPSolver.h", "block(dim_z, dim_z, dim_w, dim_w).setIdentity(); }", "block(dim_z, dim_z, dim_w, dim_w) = MatZ::Identity(dim_w, dim_w) * (2.0 / std::max(2, dim_w)); }".replace("MatZ", "Eigen::MatrixXd"))],
 {"demo.cpp": HQ + r'''int main() {
  YAML::Node n; static rt_solver::RtHQPSolver<6, 2, 4> s(n); s.initialize(); s.reset(2);
  Eigen::MatrixXd B(1, 2), A(3, 2); Eigen::VectorXd b(1), a(3); B << 1, 0; b << 0; A << -1, 0, -1, 0, -2, 0; a << 1, 1, 2;   // x = 0 against x >= 1, three times
  s.solveNextTask(B, b, A, a); double x = s.solution()(0); std::printf("x = %g, the compromise is at %g\n", x, 6. / 7); return std::fabs(x - 6. / 7) > 1e-3;
}
'''}, RT)
MODEL = '#include <cstdio>\n#include <cmath>\n#include <limits>\n#include <string>\n#include <vector>\n#include <iostream>\n#include <Eigen/Dense>\n#include <boost/bind.hpp>\n#include <boost/date_time/posix_time/posix_time.hpp>\n#include <solver/interface/Solver.hpp>\nusing solver::LinExpr;\n'
MSH = HEAD + '''g++ -std=c++17 -O1 -w -I"$R/solver/include" -I/usr/include/eigen3 "$D/demo.cpp" "$R"/solver/src/solver/interface/{Exprs,Var}.cpp -o "$W/demo" -lyaml-cpp -lboost_thread -lpthread
timeout 60 "$W/demo"
'''
mk("p04-sticky-refusal", "P04", "a problem with a non-finite row, then a proper one on the same model without initializing it again",
 "once a problem was refused every later one is reported invalid",
 [(H + "RtModel.h", "    n_solved_ranks_ = 0.0;\n    is_solution_valid_ = true;\n", "    n_solved_ranks_ = 0.0;\n"), (H + "RtModel.h", "    hqp_solver_.initialize();\n    is_solution_valid_ = false;\n", "    hqp_solver_.initialize();\n    is_solution_valid_ = true;\n")],
 {"demo.cpp": MODEL + r'''int main() {
  YAML::Node n; static rt_solver::RtModel<6, 6, 2> m(n); m.addLinConstr(LinExpr(m.getVar(0)) * 1.0, "=", LinExpr(std::numeric_limits<double>::quiet_NaN()), 0); m.initialize(); bool first = m.solve();
  m.clean(); m.addLinConstr(LinExpr(m.getVar(0)) * 1.0, "=", LinExpr(2.0), 0); bool second = m.solve(); std::printf("%d %d x = %g\n", first, second, m.hqp_solver_.solution()(0)); return first || !second || std::fabs(m.hqp_solver_.solution()(0) - 2) > 1e-4;
}
'''}, MSH)
mk("p04-single-row-stays", "P04", "a model with exactly one equality row, cleaned and built again",
 "the only row of a model survives the cleaning",
 [(H + "RtModel.h", "    leqcons_.clear();\n    lineqcons_.clear();\n", "    leqcons_.resize(leqcons_.size()/2);\n    lineqcons_.clear();\n".replace("leqcons_.resize(leqcons_.size()/2)", "if (leqcons_.size() > 1 || !lineqcons_.empty()) { leqcons_.clear(); }"))],
 {"demo.cpp": MODEL + r'''int main() {
  YAML::Node n; static rt_solver::RtModel<6, 6, 2> m(n); m.addLinConstr(LinExpr(m.getVar(0)) * 1.0, "=", LinExpr(-3.0), 0); m.initialize(); m.solve();
  m.clean(); m.addLinConstr(LinExpr(m.getVar(0)) * 1.0, "=", LinExpr(2.0), 0); m.solve(); std::printf("x = %g\n", m.hqp_solver_.solution()(0)); return std::fabs(m.hqp_solver_.solution()(0) - 2) > 1e-4;
}
'''}, MSH)
mk("p04-two-gaps", "P04", "two groups of variables taken out of the problem, variables left in between and after",
 "the columns after the second gap are not moved next to those before it",
 [(H + "RtModel.h", "      first_empty_i += block_end_i-block_start_i;\n", "      first_empty_i = block_end_i-1;\n")],
 {"demo.cpp": MODEL + r'''int main() {
  YAML::Node n; static rt_solver::RtModel<6, 6, 5> m(n); int idx[5] = {-1, 0, -1, 1, 2}; for (int i = 0; i < 5; i++) m.full_to_opt_variable_index_[i] = idx[i]; m.num_variables_optimized_ = 3;
  for (int i = 0; i < 5; i++) m.addLinConstr(LinExpr(m.getVar(i)) * 1.0, "=", LinExpr(1.0 + i), 0);
  m.initialize(); m.solve(); auto x = m.hqp_solver_.solution(); std::printf("%g %g %g\n", x(0), x(1), x(2)); return std::fabs(x(0) - 2) + std::fabs(x(1) - 4) + std::fabs(x(2) - 5) > 1e-3;
}
'''}, MSH)
LB = "solver/src/solver/optimizer/LbfgsSolver.cpp"
mk("p12-first-trial-limit", "P12", "the More-Thuente search with a largest step below the first trial step",
 "the first trial step of a search is not held to the largest step allowed",
 [(LB, "      if (param->max_step < *stp) *stp = param->max_step;\n", "      if (param->max_step < *stp && count > 0) *stp = param->max_step;\n")],
 {"demo.cpp": '''#include <cmath>
#include <cstdio>
#include <vector>
#include <iostream>
#include <solver/optimizer/LbfgsSolver.hpp>
using namespace solver;
static double worst;
static double ev(void*, const double* x, double* g, const int, const double) { g[0] = 2 * (x[0] - 30); return (x[0] - 30) * (x[0] - 30); }
static int pg(void*, const double* x, const double* g, const double, const double, const double, const double step, int, int k, int) { std::printf("iteration %d at %g, step %g\\n", k, x[0], step); worst = std::max(worst, step); return 0; }
int main() {
  for (double lim : {0.25, 0.4, 0.45}) { double x[1] = {0}, f; lbfgs_parameter_t p; lbfgs_parameter_init(&p); p.max_step = lim; p.max_iterations = 20; worst = 0; int r = lbfgs(1, x, &f, ev, pg, 0, &p); std::printf("limit %g largest step %g, result %d\\n", lim, worst, r); if (worst > lim) return 1; }
  return 0;
}
'''}, HEAD + '''g++ -std=c++17 -O1 -w -I"$R/solver/include" -I/usr/include/eigen3 "$D/demo.cpp" "$R/solver/src/solver/optimizer/LbfgsSolver.cpp" -o "$W/demo"
timeout 60 "$W/demo"
''')
DO = S.DO
def plan(id, needs, breaks, edits, body): S.plan(id, "P13", needs, breaks, edits, body)
plan("p13-leg-length", "effectors with different leg lengths, one of them other than the first stretched to its limit",
 "all effectors share the leg length of the first one",
 [(DO, "get(PlannerVectorParam_MaxEndeffectorLengths)[eff_id],2.0)", "get(PlannerVectorParam_MaxEndeffectorLengths)[0],2.0)")],
 '''int main() {
  Case k; k.T = 2; k.nact = 2; k.heuristic = "TrustRegion"; k.mu = 5; k.dt = 0.125; k.itrefs = 3; k.len = Eigen::Vector4d(1.5, 1.1, 1.5, 1.5); k.ep[1] = V3(0, 0, 0.2); k.c[1] = {{0, 3 * k.dt, k.ep[1], Eigen::Quaterniond::Identity(), 1}};
  k.disp = V3(0, 0, 6); k.w_com = V3(50, 50, 50); k.w_fl = V3(1e-4, 1e-4, 1e-4);
  Session s; s.load(k); s.run(k); if (!solved(s.code)) return 2; auto& x = s.opt.dynamicsSequence().dynamicsState(1); double l = (x.centerOfMass() - k.ep[1]).norm(); std::printf("length %g\\n", l); return l > 1.11;
}
''')
plan("p13-torque-weight", "a leg and an arm in contact whose contact torques have different weights",
 "the contact torque of legs is weighted like that of arms",
 [(DO, "quad_objective_.addQuaTerm(this->getSetting().get(PlannerDoubleParam_WeightLegTorque), ", "quad_objective_.addQuaTerm(this->getSetting().get(PlannerDoubleParam_WeightArmTorque), ")],
 '''int main() {
  Case k; k.T = 1; k.nact = 4; k.dt = 0.125; k.itrefs = 3; k.wtl = 1e-3; k.wta = 1e2; k.ep[0] = V3(0, 0, 0); k.ep[2] = V3(0, 0, 0.3); for (int e : {0, 2}) k.c[e] = {{0, 2 * k.dt, k.ep[e], Eigen::Quaterniond::Identity(), 1}};
  for (int e = 0; e < 4; e++) k.cop[e] = Eigen::Vector4d(-0.01, 0.01, -0.01, 0.01); k.ra = {V3(0, 0, 0.05)}; k.rl = {V3::Zero()}; k.w_lf = k.w_lmom = V3(1e3, 1e3, 1e3); k.w_af = k.w_amom = V3(0, 0, 50); k.w_fl = k.w_fa = V3(10, 10, 0.1);
  Session s; s.load(k); s.run(k); if (!solved(s.code)) return 2; auto& x = s.opt.dynamicsSequence().dynamicsState(0); double l = std::fabs(x.endeffectorTorque(0).z()), a = std::fabs(x.endeffectorTorque(2).z()); std::printf("leg %g arm %g\\n", l, a); return !(a < 0.2 * l);
}
''')
plan("p13-time-anchor", "time optimization over several iterations with weights on both the duration and its deviation from the nominal step",
 "the nominal duration of a step is that of the last iteration, so durations drift",
 [(DO, "LinExpr(vars_[dt_.id(0,time_id)]) - LinExpr(this->getSetting().get(PlannerDoubleParam_TimeStep))", "LinExpr(vars_[dt_.id(0,time_id)]) - LinExpr(dynamicsSequence().dynamicsState(time_id).time())")],
 '''int main() {
  Case k; k.heuristic = "TimeOptimization"; k.T = 2; k.nact = 1; k.mu = 0.7; k.dt = 0.2; k.maxtime = 40; k.trange = Eigen::Vector2d(0.05, 0.4); k.wtime = 10; k.wtpen = 10; k.ep[0] = V3(0, 0, 0); k.c[0] = {{0, 3 * k.dt, k.ep[0], Eigen::Quaterniond::Identity(), 1}};
  k.w_fl = V3(1e-4, 1e-4, 1e-4); k.w_lmom = k.w_lf = V3(1, 1, 1); k.rl.assign(2, V3::Zero()); Session s; s.load(k); s.run(k); if (!solved(s.code)) return 2; int bad = 0;
  for (int t = 0; t < 2; t++) { double d = s.opt.dynamicsSequence().dynamicsState(t).time(); std::printf("step %d lasts %g\\n", t, d); if (std::fabs(d - 0.1) > 0.005) bad = 1; } return bad;
}
''')
plan("p13-unseen-push", "time optimization with an external force in the first step",
 "the external force is left out of the momentum the optimizer plans with once durations are optimised, so the forces do not resist it",
 [(DO, "            if (time_id==0) { lin_cons_ += LinExpr(this->getSetting().get(PlannerDoubleParam_MassTimesGravity)*this->getSetting().get(PlannerVectorParam_ExternalForce)[axis_id]); }\n            model_", "            model_")],
 '''int main() {
  Case k; k.heuristic = "TimeOptimization"; k.T = 2; k.nact = 2; k.mu = 0.9; k.dt = 0.2; k.maxtime = 40; k.trange = Eigen::Vector2d(0.05, 0.4); k.wtime = 1e3; k.ep[0] = V3(0, -0.2, 0); k.ep[1] = V3(0, 0.2, 0); for (int e = 0; e < 2; e++) k.c[e] = {{0, 3 * k.dt, k.ep[e], Eigen::Quaterniond::Identity(), 1}};
  k.w_fl = V3(1e-4, 1e-4, 1e-4); k.w_lmom = k.w_lf = V3(100, 100, 100); k.rl.assign(2, V3::Zero()); k.ext = V3(0.2, 0, 0); Session s; s.load(k); s.run(k); if (!solved(s.code)) return 2; int bad = 0;
  // momentum of the planned forces, gravity and the push
  V3 m = k.lmom; for (int t = 0; t < 2; t++) { auto& x = s.opt.dynamicsSequence().dynamicsState(t); V3 f = k.mass * V3(0, 0, -k.g) + (t ? V3::Zero().eval() : V3(k.mass * k.g * k.ext)); for (int e = 0; e < 2; e++) f += k.mass * k.g * x.endeffectorForce(e); m += x.time() * f; std::printf("momentum %g %g %g\\n", m.x(), m.y(), m.z()); if (m.norm() > 0.05) bad = 1; } return bad;
}
''')
plan("p13-foot-side", "effectors with different ranges of the center of pressure, one side of one other than the first reached",
 "one side of the foot is that of the first effector for all of them",
 [(DO, "get(PlannerArrayParam_CenterOfPressureRange)[eff_id][3])", "get(PlannerArrayParam_CenterOfPressureRange)[0][3])")],
 '''int main() {
  Case k; k.T = 1; k.nact = 2; k.dt = 0.125; k.itrefs = 3; k.mu = 0.6; k.ep[1] = V3(0, 0, 0.2); k.c[1] = {{0, 2 * k.dt, k.ep[1], Eigen::Quaterniond::Identity(), 1}}; k.cop[0] = Eigen::Vector4d(-0.1, 0.1, -0.1, 0.1); k.cop[1] = Eigen::Vector4d(-0.03, 0.03, -0.03, 0.03);
  k.ra = {V3(5, 0, 0)}; k.rl = {V3::Zero()}; k.w_lf = k.w_lmom = V3(1e3, 1e3, 1e3); k.w_af = k.w_amom = V3(5, 0, 0); Session s; s.load(k); s.run(k); if (!solved(s.code)) return 2; V3 c = s.opt.dynamicsSequence().dynamicsState(0).endeffectorCoP(1); std::printf("%g %g\\n", c.x(), c.y()); return std::fabs(c.x()) > 0.031 || std::fabs(c.y()) > 0.031;
}
''')
import importlib, contextlib
src = open("/verif/tools/seeds_py.py").read()
ns = {}; real = mk
ns.update({k: v for k, v in globals().items() if not k.startswith("__")}); exec(compile(src.replace("from mkseed import *", "from mkseed import *\ndef mk(*a, **k): pass"), "seeds_py", "exec"), ns)
H21, H22, Q22, PSH, K, I, I2 = (ns[x] for x in ("H21", "H22", "Q22", "PSH", "K", "I", "I2"))
mk("p21-fast-plan", "P21", "time steps shorter than a hundredth of a second", "velocities of swing motions are too small for short time steps",
   [(K, "deval(it)/dt for", "deval(it)/max(dt, 0.01) for")],
   {"demo.py": H21 + '''P, V, C = refs([1, 1, 0, 0, 0, 1, 0], [(0, 0, 0)] * 4 + [(.1, 0, .05)] * 3, dt=.004); P2, V2, C2 = refs([1, 1, 0, 0, 0, 1, 0], [(0, 0, 0)] * 4 + [(.1, 0, .05)] * 3, dt=.1)
close(np.array(V) * .004, np.array(V2) * .1, 1e-9)
'''}, PSH)
def p22(id, needs, breaks, edits, body): mk(id, "P22", needs, breaks, edits, {"demo.py": H22 + body, "quad.py": Q22}, PSH)
p22("p22-posture-in-place", "a caller that keeps its posture in one array and overwrites it between calls", "the kinematics of the previous posture are used when the caller overwrites its posture array",
    [(I, "        self.last_q = q.copy()\n", "        self.last_q = q\n")],
    '''k = IK(m, names); q = q0.copy(); v = np.ones(m.nv); ask = lambda k, q, v: np.array(k.compute(q, v, com(q0), np.zeros(3), np.zeros(3), feet(q0), np.zeros((4, 3)), np.ones(4), None))
ask(k, q, v); q[7:] += .2; v[:] = .5; a = ask(k, q, v); b = ask(IK(m, names), q.copy(), v.copy()); assert np.abs(a - b).max() < 1e-9, (a, b)
''')
p22("p22-end-of-interval", "the second order solver asked for the motion it computed", "the foot positions returned by the second order solver are one inner step old",
    [(I2, "                t += inner_dt\n\n                self.update_kinematics(q, dq)", "                t += inner_dt")],
    '''k = IK2(m, names); N2 = 3; c = np.array([com(q0) + [0, 0, .01 * i] for i in range(N2)]); z3 = np.zeros((N2, 3)); f = np.array([feet(q0)] * N2)
o = k.solve(.05, q0, np.zeros(m.nv), c, z3, z3, f, np.zeros((N2, 4, 3)), np.ones((N2, 4)), np.array([q0[7:]] * N2), z3)
for i in range(N2): e = np.abs(o[5][i] - feet(o[0][i])).max(); assert e < 1e-9, (i, e)
''')
