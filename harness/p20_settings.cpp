// P20: planner settings are those of the file last read, later changes included.
#include <vp.hpp>
#include <momentumopt/setting/PlannerSetting.hpp>
#include <iomanip>
#include <map>
#include <unistd.h>
using namespace momentumopt;
typedef Eigen::VectorXd V;
enum G { ALL, KIN, FIRST, SECOND, TIME };  // when a key is read
struct Par { G g; char t; int id; const char* key; int n; };
#define I(g, p, k) {g, 'i', PlannerIntParam_##p, k, 1}
#define B(g, p, k) {g, 'b', PlannerBoolParam_##p, k, 1}
#define D(g, p, k) {g, 'd', PlannerDoubleParam_##p, k, 1}
#define W(g, p, k, n) {g, 'v', PlannerVectorParam_##p, k, n}
static const std::vector<Par> P = {
  I(KIN, NumDofs, "num_dofs"), I(KIN, KinDynIterations, "kd_iterations"), I(KIN, NumSubsamples, "num_subsamples"), I(KIN, MaxKinTrajectoryIterations, "max_trajectory_iters"),
  I(KIN, MaxKinConvergenceIterations, "max_convergence_iters"), I(ALL, NumViapoints, "num_com_viapoints"), I(ALL, NumActiveEndeffectors, "n_act_eefs"), I(TIME, MaxNumTimeIterations, "max_time_iterations"),
  I(FIRST, NumJointViapoints, "num_joint_viapoints"), I(FIRST, NumBaseViapoints, "num_base_viapoints"), I(SECOND, NumJointViapoints_Second, "num_joint_viapoints_second"), I(SECOND, NumBaseViapoints_Second, "num_base_viapoints_second"),
  B(ALL, LoadKinematics, "load_kinematics"), B(KIN, DisplayMotion, "display_motion"), B(KIN, UseSecondOrderInverseKinematics, "use_second_order_inv_kin"), B(TIME, IsTimeHorizonFixed, "is_time_horizon_fixed"), B(ALL, StoreData, "store_data"), B(ALL, UseDefaultSolverSetting, "use_default_solver_setting"), B(ALL, IsFrictionConeLinear, "friction_cone"),
  D(KIN, KinSlacksPenalty, "slacks_penalty"), D(KIN, KinIntegrationStep, "integration_step"), D(KIN, LambdaRegularization, "lambda_regularization"), D(KIN, KinConvergenceTolerance, "convergence_tolerance"),
  D(ALL, TimeStep, "time_step"), D(ALL, TimeHorizon, "time_horizon"), D(ALL, MinRelHeight, "min_rel_height"), D(TIME, MaxTimeResidualTolerance, "max_time_residual_tolerance"), D(TIME, MinTimeResidualImprovement, "min_time_residual_improvement"),
  D(ALL, Gravity, "gravity"), D(ALL, RobotMass, "robot_mass"), D(ALL, FloorHeight, "floor_height"), D(ALL, FrictionCoefficient, "friction_coeff"), D(ALL, WeightArmTorque, "w_trq_arm"), D(ALL, WeightLegTorque, "w_trq_leg"), D(TIME, WeightTimeRegularization, "w_time"), D(TIME, WeightTimePenalty, "w_time_penalty"),
  D(FIRST, SwingTrajViaZ, "swing_traj_via_z"), D(FIRST, WeightLinMomentumTracking, "w_lin_mom_tracking"), D(FIRST, WeightAngMomentumTracking, "w_ang_mom_tracking"), D(FIRST, WeightEndEffContact, "w_endeff_contact"), D(FIRST, WeightEndEffTracking, "w_endeff_tracking"),
  D(FIRST, PGainEndEffTracking, "p_endeff_tracking"), D(FIRST, PGainComTracking, "p_com_tracking"), D(FIRST, WeightJointReg, "w_joint_regularization"), D(FIRST, PGainOrientationTracking, "reg_orientation"), D(FIRST, PGainPositionTracking, "reg_joint_position"),
  D(SECOND, SwingTrajViaZ_Second, "swing_traj_via_z_second"), D(SECOND, WeightLinMomentumTracking_Second, "w_lin_mom_tracking_second"), D(SECOND, WeightAngMomentumTracking_Second, "w_ang_mom_tracking_second"), D(SECOND, WeightEndEffContact_Second, "w_endeff_contact_second"),
  D(SECOND, WeightEndEffTracking_Second, "w_endeff_tracking_second"), D(SECOND, PGainEndEffTracking_Second, "p_endeff_tracking_second"), D(SECOND, PGainComTracking_Second, "p_com_tracking_second"), D(SECOND, WeightJointReg_Second, "w_joint_regularization_second"),
  D(SECOND, DGainEndEffTracking_Second, "d_endeff_tracking_second"), D(SECOND, PGainBaseOrientationTracking_Second, "p_orient_tracking_second"), D(SECOND, DGainBaseOrientationTracking_Second, "d_orient_tracking_second"), D(SECOND, PGainJointRegularization_Second, "p_joint_regularization_second"), D(SECOND, DGainJointRegularization_Second, "d_joint_regularization_second"),
  W(ALL, ExternalForce, "external_force", 3), W(ALL, CenterOfMassMotion, "com_displacement", 3), W(KIN, MinJointAngles, "min_joint_limits", -1), W(KIN, MaxJointAngles, "max_joint_limits", -1), W(KIN, KinematicDefaultJointPositions, "default_joint_positions", -1),
  W(TIME, TimeRange, "time_range", 2), W(ALL, TorqueRange, "torque_range", 2), W(ALL, MaxEndeffectorLengths, "max_eef_lengths", 4),
  W(ALL, WeightArmForce, "w_frc_arm", 3), W(ALL, WeightLegForce, "w_frc_leg", 3), W(ALL, WeightCenterOfMass, "w_com", 3), W(ALL, WeightLinearMomentum, "w_lmom", 3), W(ALL, WeightAngularMomentum, "w_amom", 3), W(ALL, WeightArmForceRate, "w_dfrc_arm", 3), W(ALL, WeightLegForceRate, "w_dfrc_leg", 3),
  W(ALL, WeightLinearMomentumRate, "w_lmomd", 3), W(ALL, WeightAngularMomentumRate, "w_amomd", 3), W(ALL, WeightCenterOfMassViapoint, "w_com_via", 3), W(ALL, WeightFinalLinearMomentum, "w_lmom_final", 3), W(ALL, WeightFinalAngularMomentum, "w_amom_final", 3),
  W(ALL, WeightDynamicTrackingCenterOfMass, "w_com_track", 3), W(ALL, WeightDynamicTrackingLinearMomentum, "w_lmom_track", 3), W(ALL, WeightDynamicTrackingAngularMomentum, "w_amom_track", 3),
  W(KIN, WeightJointVelocity, "w_kin_joint_vel", -1), W(KIN, WeightJointAcceleration, "w_kin_joint_acc", -1), W(KIN, WeightKinematicTrackingCenterOfMass, "w_kin_com", 3), W(KIN, WeightKinematicTrackingLinearMomentum, "w_kin_lmom", 3), W(KIN, WeightKinematicTrackingAngularMomentum, "w_kin_amom", 3),
  W(KIN, WeightKinematicTrackingBaseOrientation, "w_kin_base_ori", 3), W(KIN, WeightKinematicTrackingLinearMomentumRate, "w_kin_lmomd", 3), W(KIN, WeightKinematicTrackingAngularMomentumRate, "w_kin_amomd", 3), W(KIN, WeightKinematicTrackingEndeffectorPosition, "w_kin_eff_pos", 3),
  W(KIN, WeightKinematicDefaultJointPositions, "w_kin_default_joints", -1), W(KIN, WeightKinematicTrackingNonActiveEndeffectorPosition, "w_kin_eff_pos_nonact", 3), W(SECOND, PGainMomentumTracking_Second, "p_mom_tracking_second", 6),
  {KIN, 'a', PlannerIntVectorParam_ActiveDofs, "active_dofs", -2},
  {ALL, 'e', PlannerArrayParam_CenterOfPressureRange, "cop_range_", 4}, {ALL, 'e', PlannerArrayParam_EndeffectorOffset, "eff_offset_", 3},
  {ALL, 'c', PlannerCVectorParam_Viapoints, "com_viapoints", 4}, {FIRST, 'c', PlannerCVectorParam_JointViapoints, "joint_viapoints", -3}, {FIRST, 'c', PlannerCVectorParam_BaseViapoints, "base_viapoints", 4},
  {SECOND, 'c', PlannerCVectorParam_JointViapoints_Second, "joint_viapoints_second", -3}, {SECOND, 'c', PlannerCVectorParam_BaseViapoints_Second, "base_viapoints_second", 4}};
static const char* EFF[4] = {"rf", "lf", "rh", "lh"};
static const char* HEUR[4] = {"TrustRegion", "SoftConstraint", "TimeOptimization", "Something"};

struct File { int heur, kin, second, nv, seed, dofs, act; double h, dt; int rot, out; };
static bool read(G g, const File& f) { return g == ALL || (g == TIME ? f.heur == 2 : f.kin && (g == KIN || (g == FIRST) != (f.second == 1))); }
typedef std::vector<double> Val;
static bool flag(int i, int s) { return ((i * 7 + s) >> (s % 3)) & 1; }
static int len(const Par& p, const File& f) { return p.n == -1 ? f.dofs : p.n == -2 ? f.act : p.n == -3 ? f.dofs + 1 : p.n; }
static int vias(const Par& p, const File& f, int i) { return p.g == ALL ? f.nv : (f.nv + (p.n == -3 ? 1 : 2)) % 4; (void)i; }
// what a file holds for each parameter
static Val want(int i, const File& f) {
  const Par& p = P[i]; std::string k = p.key; Val v;
  if (p.t == 'i') { if (k == "num_dofs") return {(double)f.dofs}; if (k == "num_com_viapoints") return {(double)f.nv};
    if (k.find("viapoints") != std::string::npos) return {(double)((f.nv + (k.find("joint") != std::string::npos ? 1 : 2)) % 4)};
    return {(double)(3 + i + 40 * f.seed)}; }
  if (p.t == 'b') { if (k == "load_kinematics") return {(double)f.kin}; if (k == "use_second_order_inv_kin") return {(double)f.second}; return {(double)flag(i, f.seed)}; }
  if (p.t == 'd') { if (k == "time_step") return {f.dt}; if (k == "time_horizon") return {f.h}; return {0.5 + i + f.seed * 0.03125}; }
  int n = len(p, f), m = p.t == 'e' ? 4 : p.t == 'c' ? vias(p, f, i) : 1;
  for (int b = 0; b < m; b++) for (int j = 0; j < n; j++) v.push_back(p.t == 'a' ? (double)((j * 2 + f.seed) % f.dofs) : -3. + i + 0.25 * j + 0.0625 * b + f.seed * 0.5);
  return v;
}
static std::string list(const Val& v, size_t a, size_t b) { std::ostringstream o; o.precision(17); o << "["; for (size_t j = a; j < b; j++) o << (j > a ? ", " : "") << v[j]; o << "]"; return o.str(); }
static void write(const std::string& path, const File& f, const std::string& sec) {
  std::ofstream o(path, std::ios::app); o.precision(17); o << sec << ":\n  heuristic: " << HEUR[f.heur] << "\n";
  for (size_t q = 0; q < P.size(); q++) { int i = (q + f.rot) % P.size(); if (i == f.out) continue; const Par& p = P[i]; Val v = want(i, f); std::string k = p.key; int n = len(p, f);
    if (k == "friction_cone") o << "  " << k << ": " << (v[0] ? "LinearCone" : "SocCone") << "\n";
    else if (p.t == 'b') o << "  " << k << ": " << (v[0] ? "true" : "false") << "\n";
    else if (p.t == 'i' || p.t == 'd') o << "  " << k << ": " << v[0] << "\n";
    else if (p.t == 'e') for (int e = 0; e < 4; e++) o << "  " << k << EFF[e] << ": " << list(v, e * n, (e + 1) * n) << "\n";
    else if (p.t == 'c') { o << "  " << k << ":\n    unused: 1\n"; for (int e = vias(p, f, i) - 1; e >= 0; e--) o << "    via" << e << ": " << list(v, e * n, (e + 1) * n) << "\n"; }
    else o << "  " << k << ": " << list(v, 0, v.size()) << "\n"; }
}
template <class S> Val get(S& s, const Par& p) {
  Val v;
  switch (p.t) { case 'i': return {(double)s.get((PlannerIntParam)p.id)}; case 'b': return {(double)s.get((PlannerBoolParam)p.id)}; case 'd': return {(double)s.get((PlannerDoubleParam)p.id)};
    case 'v': { auto x = s.get((PlannerVectorParam)p.id); for (int j = 0; j < x.size(); j++) v.push_back(x[j]); return v; }
    case 'a': { auto x = s.get((PlannerIntVectorParam)p.id); for (int j = 0; j < x.size(); j++) v.push_back(x[j]); return v; }
    case 'e': { auto& x = s.get((PlannerArrayParam)p.id); for (auto& y : x) for (int j = 0; j < y.size(); j++) v.push_back(y[j]); return v; }
    default: { auto& x = s.get((PlannerCVectorParam)p.id); for (auto& y : x) for (int j = 0; j < y.size(); j++) v.push_back(y[j]); return v; } }
}
struct Model { std::vector<Val> v; std::vector<int> known; File last; };
static std::string str(const Val& v) { return list(v, 0, v.size()); }
static void check(PlannerSetting& s, const Model& m, const std::string& after) {
  const PlannerSetting& c = s;
  for (size_t i = 0; i < P.size(); i++) { if (!m.known[i]) continue;
    for (int k = 0; k < 2; k++) { Val g; try { g = k ? get(s, P[i]) : get(c, P[i]); } catch (std::exception& e) { vp::fail("settings:no access", std::string(P[i].key) + (k ? " (to change)" : " (to read)") + ": " + e.what()); continue; }
      if (g != m.v[i]) vp::fail("settings:value", after + ": " + P[i].key + (k ? " (to change)" : " (to read)") + " is " + str(g) + " instead of " + str(m.v[i])); } }
}
static void load(PlannerSetting& s, Model& m, const File& f, const std::string& path, int sec) {
  unlink(path.c_str()); const char* name[2] = {"planner_variables", "other_section"};
  File o = f; o.seed = f.seed + 2; o.heur = (f.heur + 1) % 4;
  if (sec == 1) write(path, o, name[0]);
  write(path, f, name[sec]); if (sec == 0) write(path, o, name[1]);
  if (sec) s.initialize(path, name[1]); else s.initialize(path);
  unlink(path.c_str()); vp::count("states"); vp::count("transitions");
  for (size_t i = 0; i < P.size(); i++) if (read(P[i].g, f)) { m.v[i] = want(i, f); m.known[i] = 1; } else m.known[i] = 0;
  m.last = f;
}
static void derived(PlannerSetting& s, const File& f, const std::string& path) {
  const PlannerSetting& c = s;
  for (int k = 0; k < 2; k++) {
    auto gi = [&](PlannerIntParam p) { return k ? s.get(p) : c.get(p); }; auto gd = [&](PlannerDoubleParam p) { return k ? s.get(p) : c.get(p); }; auto gs = [&](PlannerStringParam p) { return k ? s.get(p) : c.get(p); };
    double mass = want(0, f)[0], gr = 0; for (size_t i = 0; i < P.size(); i++) { if (!strcmp(P[i].key, "robot_mass")) mass = want(i, f)[0]; if (!strcmp(P[i].key, "gravity")) gr = want(i, f)[0]; }
    for (auto p : {PlannerDoubleParam_MassTimesGravity, PlannerDoubleParam_RobotWeight}) if (std::abs(gd(p) - mass * gr) > 1e-12 * mass * gr) vp::fail("derived:weight", std::to_string(gd(p)) + " instead of " + std::to_string(mass * gr));
    V g = k ? V(s.get(PlannerVectorParam_GravityVector)) : V(c.get(PlannerVectorParam_GravityVector)); if (g.size() != 3 || (g - Eigen::Vector3d(0, 0, -gr)).norm() > 1e-12) vp::fail("derived:gravity vector", "wrong");
    long q = std::lround(f.h / f.dt); int n = std::abs(f.h / f.dt - q) < 1e-7 ? (int)q : (int)std::floor(f.h / f.dt);
    if (gi(PlannerIntParam_NumTimesteps) != n) vp::fail("derived:steps", std::to_string(f.h) + " by " + std::to_string(f.dt) + " gives " + std::to_string(gi(PlannerIntParam_NumTimesteps)) + " steps instead of " + std::to_string(n));
    if (gs(PlannerStringParam_ConfigFile) != path) vp::fail("derived:file", gs(PlannerStringParam_ConfigFile));
    if (gs(PlannerStringParam_SaveKinematicsFile) != path.substr(0, path.size() - 5) + "_kin_results.yaml") vp::fail("derived:file", gs(PlannerStringParam_SaveKinematicsFile));
    if (gs(PlannerStringParam_DefaultSolverSettingFile) != std::string(CFG_SRC_PATH) + "default_solver_setting.yaml") vp::fail("derived:file", gs(PlannerStringParam_DefaultSolverSettingFile));
    Heuristic h = k ? s.heuristic() : c.heuristic(), w = f.heur == 0 ? Heuristic::TrustRegion : f.heur == 2 ? Heuristic::TimeOptimization : Heuristic::SoftConstraint;
    if (h != w) vp::fail("derived:heuristic", std::string(HEUR[f.heur]) + " gives " + std::to_string((int)h));
    if (f.kin) {
      Eigen::VectorXi e = k ? Eigen::VectorXi(s.get(PlannerIntVectorParam_ExtendedActiveDofs)) : Eigen::VectorXi(c.get(PlannerIntVectorParam_ExtendedActiveDofs)); bool ok = e.size() == 6 + f.act;
      for (int j = 0; ok && j < e.size(); j++) ok = e[j] == (j < 6 ? j : 6 + (j - 6) * 2 % f.dofs) || j >= 6;
      for (int j = 0; ok && j < f.act; j++) ok = e[6 + j] == 6 + (j * 2 + f.seed) % f.dofs;
      if (!ok) vp::fail("derived:extended dofs", "wrong"); if (gi(PlannerIntParam_NumActiveDofs) != f.act || gi(PlannerIntParam_NumExtendedActiveDofs) != f.act + 6) vp::fail("derived:number of dofs", "wrong");
    }
  }
}
static void change(PlannerSetting& s, const Par& p, const Val& v) {
  switch (p.t) { case 'i': s.get((PlannerIntParam)p.id) = (int)v[0]; break; case 'b': s.get((PlannerBoolParam)p.id) = v[0] != 0; break; case 'd': s.get((PlannerDoubleParam)p.id) = v[0]; break;
    case 'v': { auto x = s.get((PlannerVectorParam)p.id); for (int j = 0; j < x.size(); j++) x[j] = v[j]; break; }
    case 'a': { auto x = s.get((PlannerIntVectorParam)p.id); for (int j = 0; j < x.size(); j++) x[j] = (int)v[j]; break; }
    case 'e': { auto& x = s.get((PlannerArrayParam)p.id); int q = 0; for (auto& y : x) for (int j = 0; j < y.size(); j++) y[j] = v[q++]; break; }
    default: { auto& x = s.get((PlannerCVectorParam)p.id); int q = 0; for (auto& y : x) for (int j = 0; j < y.size(); j++) y[j] = v[q++]; } }
}
int main(int argc, char** argv) {
  vp::init(argc, argv); vp::Quiet q; bool th = vp::thorough(); int N = P.size();
  std::string path = vp::ctx().out.empty() ? "/tmp/p20." + std::to_string(getpid()) + ".yaml" : vp::ctx().out + ".yaml";
  std::vector<File> F; for (int h = 0; h < 4; h++) for (int k = 0; k < 3; k++) for (int nv = 0; nv < 4; nv++) F.push_back({h, k > 0, k > 1, nv, (h + 2 * k + nv) % 5, k == 1 ? 12 : 8, 1 + (h + nv) % 6, 1., .1, (h * 13 + k * 29 + nv * 7) % N, -1});
  // every sequence of one or two files (thorough: three) on one object, either section
  int nf = F.size();
  for (int a = 0; a < nf; a++) for (int b = -1; b < nf; b++) for (int c = -1; c < (th && b >= 0 ? nf : 0); c++) for (int sec = 0; sec < (c >= 0 ? 1 : 2); sec++) { if (!vp::next("files")) continue;
    PlannerSetting s; Model m; m.v.resize(N); m.known.assign(N, 0); int last = a;
    load(s, m, F[a], path, sec); if (b >= 0) { File f = F[b]; f.seed += 1; load(s, m, f, path, sec); last = b; } if (c >= 0) { load(s, m, F[c], path, sec); last = c; }
    vp::Ctx& cx = vp::ctx(); (void)cx; std::string w = "file " + std::to_string(last) + " after " + std::to_string(b < 0 ? -1 : c < 0 ? a : b);
    check(s, m, w); derived(s, m.last, path); vp::nontrivial(b >= 0); }
  // every change of one (pairs of) settings after loading
  for (int first : {1, 2}) for (int a = 0; a < N; a++) for (int b = -1; b < (th ? N : 0); b++) for (int part = 0; part < 2; part++) { if (!vp::next("changes")) continue;
    File f = F[2 * 12 + first * 4 + 2]; PlannerSetting s; Model m; m.v.resize(N); m.known.assign(N, 0); load(s, m, f, path, 0);
    for (int i : {a, b}) { if (i < 0 || !m.known[i]) continue; Val v = m.v[i]; for (size_t j = 0; j < v.size(); j++) if (!part || j == v.size() - 1) v[j] = P[i].t == 'b' ? 1 - v[j] : v[j] + 1000 + j;
      try { change(s, P[i], v); } catch (std::exception& e) { vp::fail("settings:no access", std::string(P[i].key) + " (to change): " + e.what()); continue; }
      m.v[i] = v; vp::count("states"); vp::count("transitions"); check(s, m, std::string("after changing ") + P[i].key); vp::nontrivial(); }
    PlannerSetting copy = s; if (b < 0 && m.known[a] && m.v[a].size()) { Val v = m.v[a]; v[0] = P[a].t == 'b' ? 1 - v[0] : v[0] - 5; try { change(copy, P[a], v); } catch (std::exception&) {} check(s, m, std::string("after changing ") + P[a].key + " of a copy"); } }
  // step counts
  for (int n = 1; n <= (th ? 400 : 120); n++) for (double dt : {.1, .05, .03, .01, .2, 1. / 64, .125, .07}) for (double r : {0., .5, .25}) { if (!vp::next("steps")) continue;
    char hb[32]; std::snprintf(hb, 32, "%.9g", (n + r) * dt); File f = F[n % nf]; f.h = std::atof(hb); f.dt = dt;
    PlannerSetting s; Model m; m.v.resize(N); m.known.assign(N, 0); load(s, m, f, path, 0); derived(s, f, path); vp::nontrivial(); }
  vp::finish(); return 0;
}
