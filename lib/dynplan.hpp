// Motion-planning cases written as configuration files: the harness generates the YAML text, the
// planner loads it (settings, initial state, contact plan) exactly as a user's demo does.
#pragma once
#include <momentumopt/dynopt/DynamicsOptimizer.hpp>
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
#include <vp.hpp>
namespace dp {
using namespace momentumopt; using namespace solver;
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
static const char* EFF[4] = {"rf", "lf", "rh", "lh"};
struct Contact { double t0, t1; V3 p; Eigen::Quaterniond q; int type; };
struct Case {
  std::string heuristic = "SoftConstraint"; int T = 3; double dt = 0.25, horizon = -1; int nact = 2; bool soc = false, store = false, defsolver = false;
  double g = 10, mass = 2, mu = 0.5, minh = -50, wtl = 0, wta = 0, wtime = 100, wtpen = 0, restol = 1e-3, resimp = 0; int maxtime = 60;
  bool fixedh = false; V3 com = V3(0, 0, 1), lmom = V3::Zero(), amom = V3::Zero(), ext = V3::Zero(), disp = V3::Zero(), frc[4], ep[4], off[4];
  Eigen::Quaterniond eq[4]; bool eact[4] = {true, true, false, false};
  Eigen::Vector2d trq = Eigen::Vector2d(-1000, 1000), trange = Eigen::Vector2d(0.05, 0.5); Eigen::Vector4d cop[4]; Eigen::Vector4d len = Eigen::Vector4d::Constant(100);
  V3 w_com = V3::Zero(), w_lmom = V3::Zero(), w_amom = V3::Zero(), w_lmomd = V3::Zero(), w_amomd = V3::Zero(), w_lf = V3::Zero(), w_af = V3::Zero(), w_via = V3::Zero(), w_fa = V3::Ones(), w_fl = V3::Ones(), w_dfa = V3::Zero(), w_dfl = V3::Zero(), w_ct = V3::Zero(), w_lt = V3::Zero(), w_at = V3::Zero();
  std::vector<Eigen::Vector4d> via; std::vector<Contact> c[4];
  std::vector<V3> rc, rl, ra;   // reference center of mass, linear and angular momentum per step
  bool track = false; int itrefs = 2, warm = 50; double thr = 0.05, wsoft = 1e4;
  Case() { for (int e = 0; e < 4; e++) { frc[e] = V3::Zero(); off[e] = V3::Zero(); eq[e] = Eigen::Quaterniond::Identity(); cop[e] = Eigen::Vector4d(-0.05, 0.05, -0.08, 0.08); }
    ep[0] = V3(0.1, -0.2, 0); ep[1] = V3(-0.1, 0.2, 0); ep[2] = V3(0.3, -0.4, 0.6); ep[3] = V3(0.2, 0.4, 0.7); }
};
inline std::string num(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
template <class A> std::string seq(const A& a) { std::string s = "["; for (int i = 0; i < a.size(); i++) s += (i ? ", " : "") + num(a[i]); return s + "]"; }
inline std::string quat(const Eigen::Quaterniond& q) { return num(q.w()) + ", " + num(q.x()) + ", " + num(q.y()) + ", " + num(q.z()); }
inline std::string yaml(const Case& k) {
  std::ostringstream o; auto put = [&](const char* n, const std::string& v) { o << "  " << n << ": " << v << "\n"; }; auto d = [&](const char* n, double v) { put(n, num(v)); };
  o << "initial_robot_configuration:\n"; put("com", seq(k.com)); put("lmom", seq(k.lmom)); put("amom", seq(k.amom));
  o << "  eef_ctrl:\n"; for (int e = 0; e < 4; e++) o << "    eef_frc_" << EFF[e] << ": " << seq(k.frc[e]) << "\n";
  o << "  eef_pose:\n"; for (int e = 0; e < 4; e++) o << "    eef_" << EFF[e] << ": [" << (k.eact[e] ? "1.0" : "0.0") << ", " << num(k.ep[e].x()) << ", " << num(k.ep[e].y()) << ", " << num(k.ep[e].z()) << ", " << quat(k.eq[e]) << "]\n";
  o << "contact_plan:\n"; for (int e = 0; e < 4; e++) { o << "  effcnt_" << EFF[e] << ": ["; for (size_t i = 0; i < k.c[e].size(); i++) { auto& c = k.c[e][i]; o << (i ? ", " : "") << "[" << num(c.t0) << ", " << num(c.t1) << ", " << num(c.p.x()) << ", " << num(c.p.y()) << ", " << num(c.p.z()) << ", " << quat(c.q) << ", " << c.type << ".0, -1.0]"; } o << "]\n"; }
  o << "planner_variables:\n"; put("load_kinematics", "false"); put("heuristic", k.heuristic); put("n_act_eefs", std::to_string(k.nact)); d("time_step", k.dt); d("time_horizon", k.horizon < 0 ? k.T * k.dt : k.horizon);
  put("external_force", seq(k.ext)); put("com_displacement", seq(k.disp)); put("num_com_viapoints", std::to_string(k.via.size())); o << "  com_viapoints:\n"; for (size_t i = 0; i < k.via.size(); i++) o << "    via" << i << ": " << seq(k.via[i]) << "\n";
  put("max_time_iterations", std::to_string(k.maxtime)); d("max_time_residual_tolerance", k.restol); d("min_time_residual_improvement", k.resimp); put("time_range", seq(k.trange)); put("is_time_horizon_fixed", k.fixedh ? "true" : "false");
  d("gravity", k.g); d("robot_mass", k.mass); d("friction_coeff", k.mu); put("friction_cone", k.soc ? "SocCone" : "LinearCone"); put("torque_range", seq(k.trq)); d("min_rel_height", k.minh); d("floor_height", -1);
  for (int e = 0; e < 4; e++) { o << "  eff_offset_" << EFF[e] << ": " << seq(k.off[e]) << "\n  cop_range_" << EFF[e] << ": " << seq(k.cop[e]) << "\n"; } put("max_eef_lengths", seq(k.len));
  d("w_trq_arm", k.wta); d("w_trq_leg", k.wtl); d("w_time", k.wtime); d("w_time_penalty", k.wtpen);
  put("w_com", seq(k.w_com)); put("w_amom", seq(k.w_amom)); put("w_lmom", seq(k.w_lmom)); put("w_amomd", seq(k.w_amomd)); put("w_lmomd", seq(k.w_lmomd)); put("w_amom_final", seq(k.w_af)); put("w_lmom_final", seq(k.w_lf)); put("w_com_via", seq(k.w_via));
  put("w_frc_arm", seq(k.w_fa)); put("w_frc_leg", seq(k.w_fl)); put("w_dfrc_arm", seq(k.w_dfa)); put("w_dfrc_leg", seq(k.w_dfl)); put("w_com_track", seq(k.w_ct)); put("w_lmom_track", seq(k.w_lt)); put("w_amom_track", seq(k.w_at));
  put("store_data", k.store ? "true" : "false"); put("use_default_solver_setting", k.defsolver ? "true" : "false");
  o << "solver_variables:\n  BnB_verbose: false\n  BnB_max_iterations: 100\n  BnB_integer_tolerance: 1e-4\n  BnB_absolute_suboptimality_gap: 1e-3\n  BnB_relative_suboptimality_gap: 1e-6\n"
       "  feasibility_tolerance: 1e-7\n  absolute_suboptimality_gap: 1e-7\n  relative_suboptimality_gap: 1e-6\n  feasibility_tolerance_inaccurate: 1e-4\n  absolute_suboptimality_gap_inaccurate: 5e-5\n  relative_suboptimality_gap_inaccurate: 5e-5\n"
       "  equil_iterations: 3\n  scaling_factor: 1.0\n  equil_upper_bound: 1.0e3\n  equil_lower_bound: 1.0e-3\n  dyn_reg_thresh: 1e-13\n  lin_sys_accuracy: 1e-14\n  err_reduction_factor: 6.0\n  num_iter_ref_lin_solve: 9\n  static_regularization: 7e-8\n  dynamic_regularization: 2e-7\n"
       "  cg_step_rate: 2.0\n  cg_full_precision: 1e-9\n  cg_residual_bound: 1e-18\n  cg_reduced_precision: 1e-1\n  safeguard: 500.0\n  min_step_length: 1e-6\n  max_step_length: 0.999\n  min_centering_step: 1e-4\n  max_centering_step: 1.00\n  step_length_scaling: 0.99\n"
       "  over_relaxation: 1.5\n  optinfo_interval: 100\n  converged_interval: 20\n  consensus_penalty: 1e-3\n  verbose: false\n  warm_start: false\n  max_iters: 100\n  ipsolver_max_iters: 100\n  conicsolver_max_iters: 300\n  conicsolver_warm_iters: 300\n";
  o << "  ipsolver_warm_iters: " << k.warm << "\n  num_itrefs_trustregion: " << k.itrefs << "\n  trust_region_threshold: " << num(k.thr) << "\n  soft_constraint_weight_full: " << num(k.wsoft) << "\n  soft_constraint_weight_reduced: " << num(k.wsoft) << "\n";
  return o.str();
}
inline std::string cfgfile() { return "plan_" + std::to_string(getpid()) + ".yaml"; }
// everything a planning session needs; load() may be called again with another case
struct Session {
  PlannerSetting set; DynamicsState ini; ContactPlanFromFile plan; KinematicsSequence kin; DynamicsOptimizer opt; ExitCode code;
  void load(const Case& k) {
    std::string f = cfgfile(); { std::ofstream o(f); o << yaml(k); }
    set.initialize(f); ini = DynamicsState(); ini.fillInitialRobotState(f); TerrainDescription t;
    plan.initialize(set); plan.optimize(ini, t);
    int T = set.get(PlannerIntParam_NumTimesteps); kin.resize(T, 0);
    for (int i = 0; i < T; i++) { if (i < (int)k.rc.size()) kin.kinematicsState(i).centerOfMass() = k.rc[i]; if (i < (int)k.rl.size()) kin.kinematicsState(i).linearMomentum() = k.rl[i]; if (i < (int)k.ra.size()) kin.kinematicsState(i).angularMomentum() = k.ra[i]; }
    unlink(f.c_str());
  }
  void run(const Case& k) { { std::string f = cfgfile(); std::ofstream o(f); o << yaml(k); } opt.initialize(set); code = opt.optimize(ini, &plan, kin, k.track); unlink(cfgfile().c_str()); }
};
// contact carried by an effector at a step, or null
inline const Contact* at(const Case& k, int e, int t) { const Contact* r = nullptr; double now = (t + 1.0) * k.dt; if (e < k.nact) for (auto& c : k.c[e]) if (now >= c.t0 && now < c.t1) r = &c; return r; }
inline std::string str(const Case& k) {
  std::ostringstream o; o << k.heuristic << " T=" << k.T << " dt=" << k.dt << " n=" << k.nact << (k.soc ? " soc" : " lin") << " mu=" << k.mu;
  for (int e = 0; e < k.nact; e++) { o << " " << EFF[e] << ":"; for (auto& c : k.c[e]) o << "[" << c.t0 << "," << c.t1 << ") type" << c.type << " p=" << c.p.transpose() << " q=" << quat(c.q) << ";"; } return o.str(); }
}
