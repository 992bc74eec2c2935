// Whole-body motions of the kinematics optimizer for robots with linear kinematics: what it returns is the minimizer of
// the documented objective within joint limits and above the floor.
#define P14_NO_MAIN
#include "p14_contacts.cpp"
#include <momentumopt/kinopt/KinematicsOptimizer.hpp>
typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
template <class A> static std::string sq(const A& a) { std::string s = "["; for (int i = 0; i < a.size(); i++) s += (i ? ", " : "") + num(a[i]); return s + "]"; }
// com, end-effectors: linear in (base position, rotation vector, joints); constraints: G (q - q0) <= c0
struct Robot { int nj; V3 c0, e0[4]; M C, E[4], A, dA, G; V g0; };
struct Fake : KinematicsInterface {
  const Robot* r = nullptr; int inits = 0; std::vector<std::pair<V, double>> shown;
  // orientations stand for rotation vectors forty times as long, so that they stay away from half a turn
  static Q rot(const V3& u) { V3 v = u / 40; double a = v.norm(); return a < 1e-12 ? Q(1, v.x() / 2, v.y() / 2, v.z() / 2).normalized() : Q(Eigen::AngleAxisd(a, v / a)); }
  static V3 log(const Q& q) { double s = q.vec().norm(), w = q.w(); V3 u = q.vec(); if (w < 0) { w = -w; u = -u; } return s < 1e-12 ? V3(80 * u) : V3(80 * std::atan2(s, w) / s * u); }
  static V vec(const RobotPosture& p) { V x(6 + p.jointPositions().size()); x << p.basePosition(), log(p.baseOrientation()), p.jointPositions(); return x; }
  void initialize(PlannerSetting&) override { inits++; }
  V3 logarithmicMap(const Eigen::Vector4d w) override { return log(Q(w[0], w[1], w[2], w[3])); }
  KinematicsState integratePosture(KinematicsState& s, double dt) override { V x = vec(s.robotPosture()) + dt * s.robotVelocity().generalizedJointVelocities(); s.robotPosture().basePosition() = x.head(3); s.robotPosture().baseOrientation() = rot(x.segment(3, 3)); s.robotPosture().jointPositions() = x.tail(r->nj); return s; }
  KinematicsState differentiatePostures(KinematicsState& a, KinematicsState& b, double dt) override { b.robotVelocity().generalizedJointVelocities() = (vec(b.robotPosture()) - vec(a.robotPosture())) / dt; return b; }
  void displayPosture(const KinematicsState& s, double dt) override { shown.push_back({vec(s.robotPosture()), dt}); }
  KinematicsState updateJacobiansAndState(KinematicsState& s, double dt) override {
    V x = vec(s.robotPosture()), m = r->A * s.robotVelocity().generalizedJointVelocities(); s.centerOfMass() = r->c0 + r->C * x; s.linearMomentum() = m.head(3); s.angularMomentum() = m.tail(3);
    for (int e = 0; e < 4; e++) { s.endeffectorPosition(e) = r->e0[e] + r->E[e].topRows(3) * x; endeffectorJacobian(e) = r->E[e]; }
    centerOfMassJacobian() = r->C; centroidalMomentumMatrix() = r->A; centroidalMomentumMatrixVariation() = r->dA; constraintsMatrix(M(dt * r->G)); constraintsVector(V(r->g0 - r->G * x)); return s; }
};
struct Empty : ContactPlanInterface { void optimize(const DynamicsState&, const TerrainDescription&) override {} };
struct Case { int T = 1, nj = 2, ne = 4, conv = 0, traj = 1, sub = 3, cons = 0; std::vector<int> act; double h = 0.1, tol = 1e-9, lambda = 0.1, slack = 50, floor = -100, lim = 100; bool show = false, store = false;
  V3 wc = V3::Zero(), wl = V3::Zero(), wa = V3::Zero(), wld = V3::Zero(), wad = V3::Zero(), we = V3::Zero(), wn = V3::Zero(); V wdef, wv, wacc, def, lo, hi; };
struct Data { Robot r; DynamicsState ini; DynamicsSequence seq; };
static std::string cfg(const Case& k) {
  std::ostringstream o; o << "planner_variables:\n"; auto put = [&](const std::string& a, const std::string& v) { o << "  " << a << ": " << v << "\n"; }; auto d = [&](const std::string& a, double v) { put(a, num(v)); };
  put("load_kinematics", "true"); put("heuristic", "SoftConstraint"); put("n_act_eefs", std::to_string(k.ne)); d("time_step", 0.1); d("time_horizon", 0.1 * k.T);
  put("num_com_viapoints", "0"); put("com_viapoints", "[]"); put("external_force", "[0, 0, 0]"); put("com_displacement", "[0.3, -0.2, 0.1]"); put("friction_cone", "LinearCone");
  put("torque_range", "[-1, 1]"); put("max_eef_lengths", "[1, 1, 1, 1]"); for (auto a : {"min_rel_height", "gravity", "robot_mass", "friction_coeff", "w_trq_arm", "w_trq_leg"}) put(a, "1"); d("floor_height", k.floor);
  for (int e = 0; e < 4; e++) { put(std::string("eff_offset_") + EFF[e], "[0, 0, 0]"); put(std::string("cop_range_") + EFF[e], "[0, 0, 0, 0]"); }
  for (auto a : {"w_com", "w_amom", "w_lmom", "w_amomd", "w_lmomd", "w_amom_final", "w_lmom_final", "w_com_via", "w_frc_arm", "w_frc_leg", "w_dfrc_arm", "w_dfrc_leg", "w_com_track", "w_lmom_track", "w_amom_track"}) put(a, "[1, 1, 1]");
  put("store_data", k.store ? "true" : "false"); put("use_default_solver_setting", "true"); put("num_dofs", std::to_string(k.nj)); V a(k.act.size()); for (size_t i = 0; i < k.act.size(); i++) a[i] = k.act[i]; put("active_dofs", sq(a));
  put("min_joint_limits", sq(k.lo)); put("max_joint_limits", sq(k.hi)); put("default_joint_positions", sq(k.def)); put("w_kin_joint_vel", sq(k.wv)); put("w_kin_joint_acc", sq(k.wacc)); put("w_kin_default_joints", sq(k.wdef));
  put("kd_iterations", "1"); put("num_subsamples", std::to_string(k.sub)); d("slacks_penalty", k.slack); d("integration_step", k.h); put("max_trajectory_iters", std::to_string(k.traj)); put("max_convergence_iters", std::to_string(k.conv)); d("convergence_tolerance", k.tol); d("lambda_regularization", k.lambda);
  put("display_motion", k.show ? "true" : "false"); put("use_second_order_inv_kin", "false"); put("w_kin_com", sq(k.wc)); put("w_kin_lmom", sq(k.wl)); put("w_kin_amom", sq(k.wa)); put("w_kin_lmomd", sq(k.wld)); put("w_kin_amomd", sq(k.wad)); put("w_kin_eff_pos", sq(k.we)); put("w_kin_base_ori", "[7, 8, 9]"); put("w_kin_eff_pos_nonact", sq(k.wn));
  for (auto x : {"swing_traj_via_z", "w_lin_mom_tracking", "w_ang_mom_tracking", "w_endeff_contact", "w_endeff_tracking", "p_endeff_tracking", "w_joint_regularization", "reg_orientation", "reg_joint_position", "p_com_tracking"}) put(x, "1"); put("num_joint_viapoints", "0"); put("num_base_viapoints", "0");
  return o.str(); }
static std::string str(const Case& k) { std::ostringstream o; o << "T=" << k.T << " joints=" << k.nj << " active=" ; for (int a : k.act) o << a; o << " effectors=" << k.ne << " conv=" << k.conv << " traj=" << k.traj << " h=" << k.h << " limit=" << k.lim << " floor=" << k.floor << " cons=" << k.cons << " lambda=" << k.lambda << " wc=" << sq(k.wc) << " wl=" << sq(k.wl) << " wa=" << sq(k.wa) << " wld=" << sq(k.wld) << " wad=" << sq(k.wad) << " we=" << sq(k.we) << " wn=" << sq(k.wn) << " wdef=" << sq(k.wdef) << " wv=" << sq(k.wv) << " wacc=" << sq(k.wacc); return o.str(); }
static M mat(unsigned& s, int r, int c) { M m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = 0.5 * val(s); return m; }
static Robot robot(const Case& k, unsigned s) {
  Robot r; r.nj = k.nj; int n = 6 + k.nj; r.c0 = V3(val(s), val(s), val(s)) * 0.1; r.C = mat(s, 3, n); r.C.leftCols(3).setIdentity(); r.A = mat(s, 6, n) * 2; r.A.topLeftCorner(3, 3) += 3 * Eigen::Matrix3d::Identity(); r.dA = mat(s, 6, n);
  for (int e = 0; e < 4; e++) { r.e0[e] = V3(val(s), val(s), val(s)) * 0.2; r.E[e] = mat(s, 6, n); r.E[e].topLeftCorner(3, 3).setIdentity(); } r.G = mat(s, k.cons, n); r.g0 = V(k.cons); for (int i = 0; i < k.cons; i++) r.g0[i] = 0.02 * val(s); return r; }
static Data data(const Case& k, unsigned s, int bits, bool uneven) {
  Data d; d.r = robot(k, s); auto v3 = [&](double a) { return V3(a * val(s), a * val(s), a * val(s)); };
  d.ini.centerOfMass() = v3(0.1); d.ini.linearMomentum() = v3(0.3); d.ini.angularMomentum() = v3(0.3); d.seq.resize(k.T);
  for (int e = 0; e < 4; e++) { d.ini.endeffectorPosition(e) = v3(0.2); d.ini.endeffectorActivation(e) = (bits ^ s) >> e & 1; }
  for (int t = 0; t < k.T; t++) { auto& x = d.seq.dynamicsState(t); x.time() = uneven ? 0.1 * (1 + (t * 3 + bits) % 4) : 0.1; x.centerOfMass() = v3(0.15); x.linearMomentum() = v3(0.5); x.angularMomentum() = v3(0.4); for (int e = 0; e < 4; e++) { x.endeffectorPosition(e) = v3(0.25); x.endeffectorActivation(e) = bits >> ((t * 4 + e) % 11) & 1; x.endeffectorContactId(e) = -1; } }
  return d; }
// sum of w (a'x + b)^2 subject to n'x <= c
struct Term { double w; V a; double b; };
struct Qp { int n; std::vector<Term> f; std::vector<std::pair<V, double>> le; M H; V g;
  double value(const V& x) const { double s = 0; for (auto& t : f) s += t.w * std::pow(t.a.dot(x) + t.b, 2); return s; }
  double worst(const V& x) const { double s = 0; for (auto& c : le) s = std::max(s, c.first.dot(x) - c.second); return s; }
  bool solve(V& x) { H = M::Zero(n, n); g = V::Zero(n); for (auto& t : f) { H += 2 * t.w * t.a * t.a.transpose(); g += 2 * t.w * t.b * t.a; } M I = H.inverse(); int m = le.size(); M N(m, n); V b(m); for (int i = 0; i < m; i++) { N.row(i) = le[i].first.transpose(); b(i) = le[i].second; }
    x = -I * g; if (!m || (N * x - b).maxCoeff() <= 0) return true; M D = N * I * N.transpose(); V y = V::Zero(m), v = N * x - b; double w = 1; for (int it = 0; it < 20000 && w > 1e-12; it++) { w = 0; for (int i = 0; i < m; i++) { double q = std::max(-y(i), v(i) / D(i, i)); if (q != 0) { y(i) += q; v -= q * D.col(i); w = std::max(w, std::fabs(q) * std::sqrt(D(i, i))); } } if (y.norm() > 1e7) return false; }
    x = -I * (g + N.transpose() * y); return w < 1e-8; } };
static V pick(const V& x, const Case& k) { V y(6 + k.act.size()); y.head(6) = x.head(6); for (size_t i = 0; i < k.act.size(); i++) y[6 + i] = x[6 + k.act[i]]; return y; }
static V full(const V& y, const V& base, const Case& k) { V x = base; x.head(6) = y.head(6); for (size_t i = 0; i < k.act.size(); i++) x[6 + k.act[i]] = y[6 + i]; return x; }
static M cols(const M& A, const Case& k) { M B(A.rows(), 6 + k.act.size()); B.leftCols(6) = A.leftCols(6); for (size_t i = 0; i < k.act.size(); i++) B.col(6 + i) = A.col(6 + k.act[i]); return B; }
// one step of the inverse kinematics from posture x (velocities of active dofs), or the trajectory around postures
static Qp step(const Case& k, const Data& d, const DynamicsState& want, const V& x) {
  int na = k.act.size(), n = 6 + na, m = k.cons; Qp q; q.n = n + m; const Robot& r = d.r; auto row = [&](const V& a) { V z = V::Zero(n + m); z.head(n) = a; return z; };
  M C = cols(r.C, k), G = cols(r.G, k) * k.h; V3 dc = (want.centerOfMass() - (r.c0 + r.C * x)) / k.h;
  for (int a = 0; a < 3; a++) { q.f.push_back({k.wc[a], row(C.row(a)), -dc[a]}); for (int e = 0; e < k.ne; e++) { M E = cols(r.E[e], k); double de = (want.endeffectorPosition(e)[a] - r.e0[e][a] - r.E[e].row(a) * x) / k.h; q.f.push_back({(want.endeffectorActivation(e) ? k.we : k.wn)[a], row(E.row(a)), -de}); } }
  for (int i = 0; i < n; i++) q.f.push_back({k.lambda, row(V::Unit(n, i)), 0});
  for (int i = 0; i < na; i++) { int j = k.act[i]; q.f.push_back({k.wdef[i], row(k.h * V::Unit(n, 6 + i)), x[6 + j] - k.def[j]}); q.le.push_back({row(k.h * V::Unit(n, 6 + i)), k.hi[j] - x[6 + j]}); q.le.push_back({row(-k.h * V::Unit(n, 6 + i)), x[6 + j] - k.lo[j]}); }
  V c = r.g0 - r.G * x; for (int i = 0; i < m; i++) { V z = row(G.row(i)); z[n + i] = -1; q.le.push_back({z, c[i]}); q.le.push_back({-V::Unit(n + m, n + i), 0}); q.f.push_back({k.slack, V::Unit(n + m, n + i), 0}); }
  return q; }
static Qp horizon(const Case& k, const Data& d, const V& x0) {
  int na = k.act.size(), n = 6 + na; Qp q; q.n = n * k.T; const Robot& r = d.r; M C = cols(r.C, k), A = cols(r.A, k); V y0 = pick(x0, k), zero = x0; zero.head(6).setZero(); for (int j : k.act) zero[6 + j] = 0;   // the other joints stay
  struct L { M a; V b; }; auto at = [&](int t) { L l{M::Zero(n, q.n), V::Zero(n)}; if (t < 0) l.b = y0; else l.a.middleCols(t * n, n).setIdentity(); return l; };
  auto vel = [&](int t) { L l{M::Zero(n, q.n), V::Zero(n)}; if (t < 0) return l; L p = at(t), o = at(t - 1); double dt = d.seq.dynamicsState(t).time(); l.a = (p.a - o.a) / dt; l.b = (p.b - o.b) / dt; return l; };
  for (int t = 0; t < k.T; t++) { auto& s = d.seq.dynamicsState(t); L x = at(t), v = vel(t), u = vel(t - 1); double dt = s.time(); auto add = [&](double w, const V& a, double b) { q.f.push_back({w, a, b}); };
    for (int a = 0; a < 3; a++) { add(k.wc[a], x.a.transpose() * C.row(a).transpose(), r.c0[a] + r.C.row(a).dot(zero) - s.centerOfMass()[a]);
      for (int h = 0; h < 2; h++) { V z = v.a.transpose() * A.row(3 * h + a).transpose(), zp = u.a.transpose() * A.row(3 * h + a).transpose(); double b = A.row(3 * h + a).dot(v.b), bp = A.row(3 * h + a).dot(u.b); add((h ? k.wa : k.wl)[a], z, b - (h ? s.angularMomentum() : s.linearMomentum())[a]);
        if (t == 0) add((h ? k.wad : k.wld)[a], z / dt, (b - (h ? d.ini.angularMomentum() : d.ini.linearMomentum())[a]) / dt); else add((h ? k.wad : k.wld)[a], (z - zp) / dt, (b - bp) / dt); }
      for (int e = 0; e < k.ne; e++) { M E = cols(r.E[e], k); V z = x.a.transpose() * E.row(a).transpose(); double b = r.e0[e][a] + r.E[e].row(a).dot(zero); add((s.endeffectorActivation(e) ? k.we : k.wn)[a], z, b - s.endeffectorPosition(e)[a]); if (a == 2) q.le.push_back({-z, b - k.floor}); } }
    for (int i = 0; i < na; i++) { int j = k.act[i]; add(k.wdef[i], x.a.row(6 + i), -k.def[j]); q.le.push_back({x.a.row(6 + i), k.hi[j]}); q.le.push_back({-x.a.row(6 + i), -k.lo[j]}); }
    for (int i = 0; i < n; i++) { add(k.wv[i], v.a.row(i), v.b[i]); add(k.wacc[i], (v.a.row(i) - u.a.row(i)) / dt, (v.b[i] - u.b[i]) / dt); } }
  return q; }
static std::string base() { return "kinopt_" + std::to_string(getpid()); }
struct Run { PlannerSetting set; Fake robot; KinematicsOptimizer opt; Empty none; ContactPlanInterface* plan = nullptr;
  void init(const Case& k) { std::ofstream(base() + ".yaml") << cfg(k); set.initialize(base() + ".yaml"); opt.initialize(set, &robot); unlink((base() + ".yaml").c_str()); none.initialize(set); }
  void go(const Case& k, Data& d, bool first) { robot.r = &d.r; opt.optimize(d.ini, plan ? plan : &none, d.seq, first); } };
// reference of the posture stage: x is moved towards the wanted state; false: no statement
static bool ik(const Case& k, const Data& d, const DynamicsState& want, V& x, V3& lm, V3& am, V& v, double dt) {
  double prev = solver::SolverSetting::inf; V start = x;
  for (int it = 0; it < k.conv; it++) { V m = d.r.A * v; lm = m.head(3); am = m.tail(3); double err = (want.centerOfMass() - (d.r.c0 + d.r.C * x)).norm() + (want.linearMomentum() - lm).norm() + (want.angularMomentum() - am).norm(); for (int e = 0; e < k.ne; e++) err += (want.endeffectorPosition(e) - d.r.e0[e] - d.r.E[e].topRows(3) * x).norm(); err /= k.h;
    if (std::fabs(err - k.tol) < 0.02 * k.tol || std::fabs(std::fabs(prev - err) - k.tol) < 0.02 * k.tol + 1e-3) if (k.tol > 1e-3) return false;
    if (err < k.tol || std::fabs(prev - err) < k.tol) break; prev = err; Qp q = step(k, d, want, x); V y; if (!q.solve(y)) return false; V z = pick(x, k) + k.h * y.head(6 + k.act.size()); x = full(z, x, k); v = (x - start) / dt; }
  return true; }
static V vec(const KinematicsState& s) { return Fake::vec(s.robotPosture()); }
static void dbg(const std::string& m) { if (std::getenv("P13_DEBUG")) std::ofstream(std::getenv("P13_DEBUG"), std::ios::app) << vp::case_id() << " " << m << std::endl; }
static V start(const Case& k) { V x = V::Zero(6 + k.nj); x.tail(k.nj) = k.def; return x; }
// the stored sequence describes one motion: velocities, accelerations, center of mass, momenta and end-effectors belong to the postures
static void consistent(const std::string& S, const Case& k, const Data& d, const KinematicsSequence& q, const V& x0) {
  V p = x0, pv = V::Zero(6 + k.nj); for (int t = 0; t < k.T; t++) { auto& s = q.kinematicsState(t); V x = vec(s); double dt = d.seq.dynamicsState(t).time(); std::string w = " at step " + std::to_string(t) + " in " + str(k); if (!x.allFinite()) { vp::fail(S + ":finite", "posture is not finite" + w); return; }
    V v = (x - p) / dt, a = (v - pv) / dt, m = d.r.A * s.robotVelocity().generalizedJointVelocities(); if (k.traj && (s.robotVelocity().generalizedJointVelocities() - v).norm() > 1e-7 * (1 + v.norm())) { vp::fail(S + ":velocity", "the velocities do not lead from one posture to the next" + w); return; }
    if (k.traj && (s.robotAcceleration().generalizedJointAccelerations() - a).norm() > 2e-3 * (1 + a.norm())) { vp::fail(S + ":acceleration", "the accelerations do not lead from one velocity to the next" + w); return; }
    if ((s.centerOfMass() - d.r.c0 - d.r.C * x).norm() > 1e-7) { vp::fail(S + ":com", "center of mass of another posture" + w); return; } if ((s.linearMomentum() - m.head(3)).norm() + (s.angularMomentum() - m.tail(3)).norm() > 1e-6 * (1 + m.norm())) { vp::fail(S + ":momentum", "momentum of another motion" + w); return; }
    for (int e = 0; e < 4; e++) if ((s.endeffectorPosition(e) - d.r.e0[e] - d.r.E[e].topRows(3) * x).norm() > 1e-7) { vp::fail(S + ":effector", "end-effector position of another posture" + w); return; } p = x; pv = v; } }
static void motion(const std::string& S, const Case& k, const Data& d, const KinematicsSequence& q, const V& x0) {
  if (q.size() != k.T) { vp::fail(S + ":steps", "wrong number of steps"); return; } Qp p = horizon(k, d, x0); V best; if (!p.solve(best)) { vp::count("no_reference"); return; }
  int n = 6 + k.act.size(); V y(p.n); for (int t = 0; t < k.T; t++) { V x = vec(q.kinematicsState(t)); y.segment(t * n, n) = pick(x, k); V o = x - full(pick(x, k), x0, k); if (!(o.norm() < 1e-9)) { vp::fail(S + ":inactive", "a joint that is not active moves in " + str(k)); return; } }
  double f = p.value(best), fy = p.value(y), c = p.worst(y); dbg("cost " + num(fy) + " best " + num(f) + " off " + num((y - best).norm()) + " worst " + num(c)); vp::nontrivial();
  if (!(c <= 1e-5)) vp::fail(S + ":limits", "joint limit or floor exceeded by " + num(c) + " in " + str(k)); else if (!(fy <= f + 1e-5 + 1e-5 * f)) vp::fail(S + ":cost", "cost " + num(fy) + " where " + num(f) + " is possible in " + str(k)); }
// weights: one tracking term at a time, then several
static Case weighted(int w, int nj, int sub, int ne, unsigned s) {
  Case k; k.nj = nj; k.ne = ne; for (int j = 0; j < nj; j++) if (sub >> j & 1) k.act.push_back(j); int na = k.act.size(); bool prefix = sub == (1 << na) - 1; auto v = [&](double a) { return V3(a, 1.5 * a, 0.7 * a); };
  k.wdef = V::Zero(na); k.wv = V(6 + na); k.wacc = V::Zero(6 + na); for (int i = 0; i < 6 + na; i++) k.wv[i] = prefix ? 0.02 * (1 + i % 4) : i < 6 ? 0.03 : 0.05; k.def = V(nj); for (int j = 0; j < nj; j++) k.def[j] = 0.3 * val(s) / 2; 
  switch (w) { case 0: k.wc = v(20); break; case 1: k.wl = v(5); break; case 2: k.wa = v(4); break; case 3: k.wld = v(0.3); break; case 4: k.wad = v(0.2); break; case 5: k.we = v(30); break; case 6: k.wn = v(30); break;
    case 7: for (int i = 0; i < na; i++) k.wdef[i] = prefix ? 5 * (1 + i) : 8; break; case 8: for (int i = 0; i < 6 + na; i++) k.wacc[i] = prefix ? 0.001 * (1 + (i * 3) % 5) : i < 6 ? 0.002 : 0.004; k.wc = v(5); break; case 9: break;
    default: k.wc = v(20); k.wl = v(3); k.wa = v(2); k.wld = v(0.05); k.wad = v(0.07); k.we = v(25); k.wn = v(6); for (int i = 0; i < na; i++) k.wdef[i] = prefix ? 1 + i : 2; for (int i = 0; i < 6 + na; i++) k.wacc[i] = 0.0005; }
  return k; }
static void limits(Case& k, double l) { k.lim = l; k.lo = k.def; k.hi = k.def; for (int j = 0; j < k.nj; j++) { k.lo[j] -= l * (1 + 0.3 * j); k.hi[j] += l * (1.2 - 0.2 * j); } }

// reference of the initial posture and, in the posture stage, of every step; false: no statement
static bool stage(const Case& k, const Data& d, V& x0, std::vector<V>* steps) {
  V x = start(k), v = V::Zero(6 + k.nj); V3 lm = V3::Zero(), am = V3::Zero(); if (!ik(k, d, d.ini, x, lm, am, v, d.ini.time())) return false; x0 = x; v.setZero();
  if (steps) for (int t = 0; t < k.T; t++) { auto& w = d.seq.dynamicsState(t); if (!ik(k, d, w, x, lm, am, v, w.time())) return false; steps->push_back(x); } return true; }
static V list(const YAML::Node& n) { V x(n.size()); for (size_t i = 0; i < n.size(); i++) x[i] = n[i].as<double>(); return x; }
// the results file holds the returned motion; the initial posture is only there
static bool results(const std::string& S, const Case& k, const Data& d, const KinematicsSequence& q, V& x0) {
  std::string f = base() + "_kin_results.yaml"; YAML::Node n; try { n = YAML::LoadFile(f); } catch (...) { vp::fail(S + ":file", "no results file in " + str(k)); return false; } unlink(f.c_str()); auto far = [](const V& a, const V& b) { return a.size() != b.size() || !((a - b).norm() <= 1e-4 * (1 + b.norm())); };
  try { V g = list(n["initial_robot_configuration"]["generalized_joint_positions"]); if (g.size() != 7 + k.nj) { vp::fail(S + ":file", "initial posture in the file of " + str(k)); return false; } x0 << g.head(3), Fake::log(Q(g[6], g[3], g[4], g[5])), g.tail(k.nj);
    if (std::fabs(n["time_step"].as<double>() - 0.1) > 1e-9 || std::fabs(n["time_horizon"].as<double>() - 0.1 * k.T) > 1e-9 || n["num_subsamples"].as<int>() != k.sub) vp::fail(S + ":file", "time steps in the file of " + str(k));
    for (int t = 0; t < k.T; t++) { auto& s = q.kinematicsState(t); auto y = n["dyn_state_" + std::to_string(t)]; if (std::fabs(y["time"].as<double>() - d.seq.dynamicsState(t).time()) > 1e-6 || far(list(y["generalized_joint_positions"]), s.robotPosture().generalizedJointPositions()) || far(list(y["generalized_joint_velocities"]), s.robotVelocity().generalizedJointVelocities()) || far(list(y["generalized_joint_accelerations"]), s.robotAcceleration().generalizedJointAccelerations())) { vp::fail(S + ":file", "step " + std::to_string(t) + " in the file is not the returned one in " + str(k)); return false; } }
  } catch (std::exception& e) { vp::fail(S + ":file", std::string("results file: ") + e.what() + " in " + str(k)); return false; } return true; }
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet quiet;
  // trajectories: number of joints, active joints, weights, limits, floor, end-effectors, steps
  for (int T = 1; T <= (th ? 5 : 4); T++) for (int nj = 1; nj <= 3; nj++) for (int sub = 1; sub < 1 << nj; sub++) for (int w = 0; w < 12; w++) for (int v = 0; v < (th ? 12 : 3); v++) if (vp::next("motion")) {
    unsigned s = T * 7919 + nj * 131 + sub * 17 + w * 5 + v; int ne = std::vector<int>{4, 2, 1, 3}[(w + v + sub) % 4]; Case k = weighted(w, nj, sub, ne, s); k.T = T; limits(k, v % 3 == 1 ? 0.05 : 100); k.floor = v % 3 == 2 ? -0.05 : -100; k.h = v % 2 ? 0.1 : 1; k.traj = 1 + (v + T) % 2; Data d = data(k, s, s % 1021, (w + v) % 2);
    Run r; r.init(k); r.go(k, d, true); motion("motion", k, d, r.opt.kinematicsSequence(), start(k)); consistent("motion", k, d, r.opt.kinematicsSequence(), start(k)); vp::sample([&] { return str(k); }); }
  // postures: the initial one and those that initialize the trajectory
  for (int conv = 1; conv <= 3; conv++) for (int nj = 1; nj <= 3; nj++) for (int sub = 1; sub < 1 << nj; sub++) for (int w : {0, 5, 6, 7, 9, 10}) for (int v = 0; v < (th ? 24 : 8); v++) if (vp::next("posture")) {
    unsigned s = conv * 977 + nj * 131 + sub * 17 + w * 5 + v; Case k = weighted(w, nj, sub, 4 - (w + v) % 3, s); k.T = 1 + v % 3; k.conv = conv; k.traj = 0; k.h = v % 2 ? 0.1 : 0.5; limits(k, v % 4 == 1 ? 0.03 : 100); k.cons = v % 4 == 2 ? 2 : v % 4 == 3 ? 1 : 0; k.lambda = v % 3 ? 0.1 : 0.03; k.tol = v == 5 ? 1e3 : v == 6 ? 2 : 1e-9; k.store = true; Data d = data(k, s, s % 1021, v % 2);
    Run r; r.init(k); r.go(k, d, true); auto& q = r.opt.kinematicsSequence(); consistent("posture", k, d, q, start(k)); V x0 = start(k), x1 = x0; if (!results("posture", k, d, q, x0)) continue; std::vector<V> st; if (!stage(k, d, x1, &st)) { vp::count("no_reference"); continue; } vp::nontrivial();
    double o = (x0 - x1).norm() / (1 + x1.norm()), m = 0; for (int t = 0; t < k.T; t++) m = std::max(m, (vec(q.kinematicsState(t)) - st[t]).norm() / (1 + st[t].norm())); dbg("initial off " + num(o) + " steps off " + num(m)); double tol = 4e-3;
    if (!(o <= tol)) vp::fail("posture:initial", "initial posture off by " + num(o) + " in " + str(k)); else if (!(m <= tol)) vp::fail("posture:step", "posture off by " + num(m) + " in " + str(k)); }
  // one optimizer used again: other data, other settings, other robots, with and without the posture stage
  for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) for (int v = 0; v < (th ? 12 : 4); v++) if (vp::next("again")) {
    Run r; auto make = [&](int i, unsigned s) { Case k = weighted(i % 2 ? 11 : i, i % 3 + 1, i % 2 ? (1 << (i % 3 + 1)) - 1 : 1 << i % 3, i % 4 + 1, s); k.T = 1 + (i + v) % 3; limits(k, i == 3 ? 0.05 : 100); k.conv = v % 3; k.traj = 1 + v % 2; k.h = i % 2 ? 0.2 : 1; k.cons = i == 4 ? 1 : 0; k.store = true; return k; };
    Case k = make(a, a * 7 + v); Data d = data(k, a * 7 + v, a * 37 + v, false); r.init(k); r.go(k, d, true); V x0 = start(k); if (results("again", k, d, r.opt.kinematicsSequence(), x0)) motion("again", k, d, r.opt.kinematicsSequence(), x0);
    Data e = data(k, b * 5 + v + 100, b * 53 + v, true); e.r = d.r; r.go(k, e, v % 2); x0 = start(k); if (results("again", k, e, r.opt.kinematicsSequence(), x0)) { V x1 = x0; if (stage(k, e, x1, nullptr) && !((x0 - x1).norm() <= 4e-3)) vp::fail("again:initial", "initial posture of the second motion off by " + num((x0 - x1).norm()) + " in " + str(k)); motion("again", k, e, r.opt.kinematicsSequence(), x0); consistent("again", k, e, r.opt.kinematicsSequence(), x0); }
    Case l = make(b, b * 11 + v); Data f = data(l, b * 3 + v + 9, a * 53 + b, v % 2); r.init(l); r.go(l, f, true); x0 = start(l); if (results("again", l, f, r.opt.kinematicsSequence(), x0)) { motion("again", l, f, r.opt.kinematicsSequence(), x0); consistent("again", l, f, r.opt.kinematicsSequence(), x0); } if (r.robot.inits != 2) vp::fail("again:initialize", "the robot was initialized " + std::to_string(r.robot.inits) + " times"); }
  // steps of a contact plan: end-effectors follow the swing motions
  for (int bits = 0; bits < 64; bits++) for (int v = 0; v < (th ? 6 : 2); v++) if (vp::next("swing")) {
    unsigned s = bits * 3 + v; int T = 6; Case k = weighted(11, 2, 3, 4, s); k.T = T; limits(k, 100); k.conv = v; Data d = data(k, s, 0, false); Plan p; for (int e = 0; e < 4; e++) for (int t = 0, c = 0; t < T;) { int m = e % 2 ? bits : (bits * 5 + e) % 64; if (!(m >> t & 1)) { t++; continue; } int u = t; while (u < T && (m >> u & 1)) u++; p.c[e].push_back(contact(s, (t + 1) * 0.125, (u + 1) * 0.125, c++)); t = u; }
    Loaded l; l.load(p, 0.125, T, true); d.ini.endeffectorActivation(0) = true; l.plan.fillDynamicsSequence(d.ini, d.seq); for (int t = 0; t < T; t++) d.seq.dynamicsState(t).time() = 0.1 + 0.02 * (t * v % 3); Data w = d; l.plan.updateEndeffectorTrajectories(w.ini, w.seq);
    k.store = true; Run r; r.init(k); r.plan = &l.plan; r.go(k, d, true); V x0 = start(k); if (!results("swing", k, w, r.opt.kinematicsSequence(), x0)) continue; for (int t = 0; t < T; t++) for (int e = 0; e < 4; e++) if ((d.seq.dynamicsState(t).endeffectorPosition(e) - w.seq.dynamicsState(t).endeffectorPosition(e)).norm() > 1e-12) { vp::fail("swing:reference", "end-effector reference at step " + std::to_string(t)); t = T; break; }
    motion("swing", k, w, r.opt.kinematicsSequence(), x0); consistent("swing", k, w, r.opt.kinematicsSequence(), x0); }
  // the displayed motion: every step in equal parts, from the initial posture on
  for (int T = 1; T <= 3; T++) for (int sub = 1; sub <= 4; sub++) for (int v = 0; v < 6; v++) if (vp::next("display")) {
    unsigned s = T * 31 + sub * 7 + v; Case k = weighted(11, 1 + v % 3, (1 << (1 + v % 3)) - 1, 4, s); k.T = T; k.sub = sub; k.show = v < 5; k.conv = v % 2; limits(k, 100); k.store = true; Data d = data(k, s, s, v % 2); Run r; r.init(k); r.go(k, d, true); V x0 = start(k); if (!results("display", k, d, r.opt.kinematicsSequence(), x0)) continue; vp::nontrivial();
    auto& sh = r.robot.shown; if ((int)sh.size() != (k.show ? T * sub : 0)) { vp::fail("display:number", std::to_string(sh.size()) + " postures displayed in " + str(k)); continue; } if (!k.show) continue; V p = x0; size_t i = 0; for (int t = 0; t < T; t++) { V x = vec(r.opt.kinematicsSequence().kinematicsState(t)); Q qa = Fake::rot(p.segment(3, 3)), qb = Fake::rot(x.segment(3, 3));
      for (int j = 0; j < sub; j++, i++) { V y = p + double(j) / sub * (x - p); y.segment(3, 3) = Fake::log(qa.slerp(double(j) / sub, qb)); if (!((sh[i].first - y).norm() < 1e-4) || std::fabs(sh[i].second - d.seq.dynamicsState(t).time() / sub) > 1e-12) { vp::fail("display:posture", "posture " + std::to_string(i) + " of the displayed motion in " + str(k)); t = T; break; } } p = x; } }
  // optimizers that are never used
  for (int v = 0; v < 8; v++) if (vp::next("unused")) { alignas(KinematicsOptimizer) static char mem[sizeof(KinematicsOptimizer)]; std::memset(mem, v % 2 ? 0x5a : 0, sizeof mem); KinematicsOptimizer* o = new (mem) KinematicsOptimizer; Run r; Case k = weighted(0, 1, 1, 4, v); limits(k, 1); if (v / 2 % 2) { std::ofstream(base() + ".yaml") << cfg(k); r.set.initialize(base() + ".yaml"); o->initialize(r.set, &r.robot); if (v / 4) o->initialize(r.set, &r.robot); unlink((base() + ".yaml").c_str()); } o->~KinematicsOptimizer(); vp::nontrivial(); }
  return vp::finish();
}
