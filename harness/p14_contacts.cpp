// Contact plans: what is read from a file is what was written, and every step of a sequence carries exactly the
// contact that is scheduled at its time.
#include <momentumopt/cntopt/ContactPlanFromFile.hpp>
#include <vp.hpp>
#include <unistd.h>
using namespace momentumopt;
typedef Eigen::Vector3d V3; typedef Eigen::Quaterniond Q;
static const char* EFF[4] = {"rf", "lf", "rh", "lh"};
static std::string num(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
struct C { double t0, t1; V3 p; Q q; int type, terrain; bool on = true; };
struct Via { int id; V3 p; Q q; };
struct Plan { std::vector<C> c[4]; std::vector<Via> v[4]; };
static std::string yaml(const Plan& p, const std::string& node, bool via) {
  std::ostringstream o; o << node << ":\n";
  for (int e = 0; e < 4; e++) { o << "  effcnt_" << EFF[e] << ": ["; for (size_t i = 0; i < p.c[e].size(); i++) { auto& c = p.c[e][i]; o << (i ? ", [" : "[") << num(c.t0) << ", " << num(c.t1); for (int a = 0; a < 3; a++) o << ", " << num(c.p[a]); o << ", " << num(c.q.w()) << ", " << num(c.q.x()) << ", " << num(c.q.y()) << ", " << num(c.q.z()) << ", " << c.type << ", " << c.terrain << "]"; } o << "]\n"; }
  if (via) for (int e = 0; e < 4; e++) { o << "  effvia_" << EFF[e] << ": ["; for (size_t i = 0; i < p.v[e].size(); i++) { auto& c = p.v[e][i]; o << (i ? ", [" : "[") << c.id; for (int a = 0; a < 3; a++) o << ", " << num(c.p[a]); o << ", " << num(c.q.w()) << ", " << num(c.q.x()) << ", " << num(c.q.y()) << ", " << num(c.q.z()) << "]"; } o << "]\n"; }
  return o.str();
}
static double val(unsigned& s) { s = s * 1103515245u + 12345u; return ((s >> 12) % 4001 - 2000.0) / 1000.0; }
static Q quat(unsigned& s) { Q q(val(s), val(s), val(s), val(s) + 2.5); q.normalize(); return q; }
static C contact(unsigned& s, double t0, double t1, int i) { C c; c.t0 = t0; c.t1 = t1; c.p = V3(val(s), val(s), val(s)); c.q = quat(s); c.type = i % 3; c.terrain = i % 4 - 1; return c; }
static std::string same(const C& c, const ContactState& s, int id) {
  if (s.contactActivationTime() != c.t0 || s.contactDeactivationTime() != c.t1) return "times " + num(s.contactActivationTime()) + " - " + num(s.contactDeactivationTime());
  if (s.contactPosition() != c.p) return "position"; if ((s.contactOrientation().coeffs() - c.q.coeffs()).norm() > 1e-15) return "orientation";
  if ((int)s.contactType() != c.type) return "type " + std::to_string((int)s.contactType()); if (s.terrainId() != c.terrain) return "terrain " + std::to_string(s.terrainId());
  if (s.optimizationId() != id) return "optimization id " + std::to_string(s.optimizationId()); return "";
}
static std::string file() { return "contacts_" + std::to_string(getpid()) + ".yaml"; }
static void write(const std::string& t) { std::ofstream(file()) << t; }
static void check_loaded(const Plan& p, const ContactSequence& q, const std::string& key, const std::string& w) {
  int id = 0; for (int e = 0; e < 4; e++) {
    if (q.numEndeffectorContacts(e) != (int)p.c[e].size()) { vp::fail(key + ":number", std::to_string(q.numEndeffectorContacts(e)) + " contacts of " + EFF[e] + " instead of " + std::to_string(p.c[e].size()) + w); return; }
    for (size_t i = 0; i < p.c[e].size(); i++) { std::string d = same(p.c[e][i], q.endeffectorContacts(e)[i], id++); if (!d.empty()) { vp::fail(key + ":contact", "contact " + std::to_string(i) + " of " + EFF[e] + ": wrong " + d + w); return; } } }
  if (const_cast<ContactSequence&>(q).numOptimizationContacts() != id) vp::fail(key + ":count", std::to_string(const_cast<ContactSequence&>(q).numOptimizationContacts()) + " contacts counted instead of " + std::to_string(id) + w);
}
static void check_vias(const Plan& p, ViapointSequence& q, const std::string& key) {
  for (int e = 0; e < 4; e++) { if (q.numEndeffectorViapoints(e) != (int)p.v[e].size()) { vp::fail(key + ":viapoints", std::to_string(q.numEndeffectorViapoints(e)) + " viapoints of " + EFF[e]); return; }
    for (size_t i = 0; i < p.v[e].size(); i++) { auto& s = q.endeffectorViapoints(e)[i]; auto& v = p.v[e][i]; if (s.viapointId() != v.id || s.viapointPosition() != v.p || (s.viapointOrientation().coeffs() - v.q.coeffs()).norm() > 1e-15) { vp::fail(key + ":viapoint", "viapoint " + std::to_string(i) + " of " + EFF[e]); return; } } }
}
// settings with the given steps; every parameter without influence has some value
static std::string settings(double dt, int T, bool kin) {
  std::ostringstream o; o << "planner_variables:\n"; auto put = [&](const std::string& k, const std::string& v) { o << "  " << k << ": " << v << "\n"; };
  put("load_kinematics", kin ? "true" : "false"); put("heuristic", "SoftConstraint"); put("n_act_eefs", "4"); put("time_step", num(dt)); put("time_horizon", num(dt * T));
  put("num_com_viapoints", "0"); put("com_viapoints", "[]"); put("external_force", "[0, 0, 0]"); put("com_displacement", "[0.3, -0.2, 0.1]"); put("friction_cone", "LinearCone");
  put("torque_range", "[-1, 1]"); put("max_eef_lengths", "[1, 1, 1, 1]"); for (auto k : {"min_rel_height", "gravity", "robot_mass", "friction_coeff", "floor_height", "w_trq_arm", "w_trq_leg"}) put(k, "1");
  for (int e = 0; e < 4; e++) { put(std::string("eff_offset_") + EFF[e], "[0, 0, 0]"); put(std::string("cop_range_") + EFF[e], "[0, 0, 0, 0]"); }
  for (auto k : {"w_com", "w_amom", "w_lmom", "w_amomd", "w_lmomd", "w_amom_final", "w_lmom_final", "w_com_via", "w_frc_arm", "w_frc_leg", "w_dfrc_arm", "w_dfrc_leg", "w_com_track", "w_lmom_track", "w_amom_track"}) put(k, "[1, 1, 1]");
  put("store_data", "false"); put("use_default_solver_setting", "false");
  if (kin) { put("num_dofs", "1"); put("active_dofs", "[0]"); for (auto k : {"min_joint_limits", "max_joint_limits", "default_joint_positions", "w_kin_joint_vel", "w_kin_joint_acc", "w_kin_default_joints"}) put(k, "[1]");
    for (auto k : {"kd_iterations", "num_subsamples", "slacks_penalty", "integration_step", "max_trajectory_iters", "max_convergence_iters", "convergence_tolerance", "lambda_regularization"}) put(k, "1");
    put("display_motion", "false"); put("use_second_order_inv_kin", "false"); for (auto k : {"w_kin_com", "w_kin_lmom", "w_kin_amom", "w_kin_lmomd", "w_kin_amomd", "w_kin_eff_pos", "w_kin_base_ori", "w_kin_eff_pos_nonact"}) put(k, "[1, 1, 1]");
    for (auto k : {"swing_traj_via_z", "w_lin_mom_tracking", "w_ang_mom_tracking", "w_endeff_contact", "w_endeff_tracking", "p_endeff_tracking", "w_joint_regularization", "reg_orientation", "reg_joint_position"}) put(k, "1"); put("p_com_tracking", "1"); put("num_joint_viapoints", "0"); put("num_base_viapoints", "0"); }
  return o.str();
}
static DynamicsState initial() { DynamicsState s; for (int e = 0; e < 4; e++) { s.endeffectorPosition(e) = V3(0.1 * e, 0.2, -0.1); s.endeffectorOrientation(e) = Q(Eigen::AngleAxisd(0.2 * e, V3::UnitX())); } return s; }
static void check_steps(const Plan& p, DynamicsSequence& q, int T, double dt, const std::string& key, const std::string& w) {
  for (int e = 0; e < 4; e++) { int run = 0;
    for (int t = 0; t < T; t++) { double now = (t + 1) * dt; int id = -1; for (size_t i = 0; i < p.c[e].size(); i++) if (p.c[e][i].on && now >= p.c[e][i].t0 && now < p.c[e][i].t1) id = i;
      auto& s = q.dynamicsState(t); std::string at = std::string(" of ") + EFF[e] + " at step " + std::to_string(t) + w;
      if (s.endeffectorActivation(e) != (id >= 0)) { vp::fail(key + ":active", (id >= 0 ? "no contact" : "contact") + at); return; }
      if (id < 0) { if (s.endeffectorContactId(e) != -1) { vp::fail(key + ":id", "contact id " + std::to_string(s.endeffectorContactId(e)) + " without contact" + at); return; } if (s.endeffectorForce(e).norm() + s.endeffectorTorque(e).norm() + s.endeffectorCoP(e).norm() + s.endeffectorTorqueAtContactPoint(e).norm() > 0) { vp::fail(key + ":force", "force without contact" + at); return; } continue; }
      if (s.endeffectorContactId(e) != id) { vp::fail(key + ":id", "contact id " + std::to_string(s.endeffectorContactId(e)) + at); return; }
      if (s.endeffectorActivationId(e) != run) { vp::fail(key + ":order", "activation id " + std::to_string(s.endeffectorActivationId(e)) + " instead of " + std::to_string(run) + at); return; } run++;
      if (s.endeffectorPosition(e) != p.c[e][id].p || (s.endeffectorOrientation(e).coeffs() - p.c[e][id].q.coeffs()).norm() > 1e-14) { vp::fail(key + ":pose", "wrong pose" + at); return; }
      if (s.endeffectorVelocity(e).norm() + s.endeffectorAcceleration(e).norm() > 0) { vp::fail(key + ":velocity", "moves in contact" + at); return; } }
    if (q.activeEndeffectorSteps()[e] != run) { vp::fail(key + ":steps", std::to_string(q.activeEndeffectorSteps()[e]) + " active steps of " + EFF[e] + " instead of " + std::to_string(run) + w); return; } }
}
struct Loaded { PlannerSetting set; ContactPlanFromFile plan; DynamicsState ini; bool own = true;
  void load(const Plan& p, double dt, int T, bool kin) { write(settings(dt, T, kin) + yaml(p, "contact_plan", true)); set.initialize(file()); ini = initial(); TerrainDescription t; plan.initialize(set); plan.optimize(ini, t); unlink(file().c_str());
    for (int e = 0; e < 4; e++) for (size_t i = 0; i < p.c[e].size() && i < plan.contactSequence().endeffectorContacts(e).size(); i++) { if (!plan.contactSequence().endeffectorContacts(e)[i].selectedAsActive()) vp::fail("active:selected", "contact is not selected as active"); plan.contactSequence().endeffectorContacts(e)[i].selectedAsActive() = p.c[e][i].on; } } };
// all schedules of one effector: sets of consecutive contacts on the half step grid
static std::vector<std::vector<std::pair<int, int>>> schedules(int H, int max) {
  std::vector<std::vector<std::pair<int, int>>> r = {{}}; std::function<void(std::vector<std::pair<int, int>>, int)> rec = [&](std::vector<std::pair<int, int>> s, int from) { if ((int)s.size() == max) return; for (int a = from; a < H; a++) for (int b = a + 1; b <= H; b++) { auto n = s; n.push_back({a, b}); r.push_back(n); rec(n, b); } }; rec({}, 0); return r; }
static std::string str(const Plan& p) { std::ostringstream o; for (int e = 0; e < 4; e++) { if (p.c[e].empty()) continue; o << " " << EFF[e]; for (auto& c : p.c[e]) o << "[" << c.t0 << "," << c.t1 << ")" << (c.on ? "" : "off"); } return o.str(); }
#ifndef P14_NO_MAIN
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet quiet; unsigned s = 7;
  // reading contact and viapoint lists of every length per effector, again into the same sequence, under other names
  for (int n = 0; n < 256; n++) for (int v = 0; v < 3; v++) if (vp::next("read")) {
    s = n * 31 + v; Plan p, o; int k = n; for (int e = 0; e < 4; e++) { int c = k % 4; k /= 4; for (int i = 0; i < c; i++) p.c[e].push_back(contact(s, i, i + 0.5, i + e + n + v)); for (int i = 0; i < (c + v) % 3; i++) p.v[e].push_back({i - 1, V3(val(s), val(s), val(s)), quat(s)}); for (int i = 0; i < (c + 1 + v) % 4; i++) o.c[e].push_back(contact(s, 2 * i, 2 * i + 1, i)); for (int i = 0; i < (c + v + 1) % 3; i++) o.v[e].push_back({5 - i, V3(val(s), val(s), val(s)), quat(s)}); }
    ContactSequence a; ViapointSequence b; write(yaml(p, "contact_plan", true) + yaml(o, "other_plan", true)); a.loadFromFile(file()); b.loadFromFile(file()); check_loaded(p, a, "read", ""); check_vias(p, b, "read");
    a.loadFromFile(file(), "other_plan"); b.loadFromFile(file(), "other_plan"); check_loaded(o, a, "again", " after reading another plan"); check_vias(o, b, "again");
    ContactSequence c = a; a.loadFromFile(file()); check_loaded(o, c, "copy", " in a copy"); check_loaded(p, a, "again", " after reading another plan"); unlink(file().c_str()); vp::nontrivial(n > 0);
    // poses of contacts as homogeneous matrices
    for (int e = 0; e < 4; e++) for (auto& x : c.endeffectorContacts(e)) { Eigen::Matrix4d m = x.contactPlacement(), r = Eigen::Matrix4d::Identity(); r.topLeftCorner<3, 3>() = x.contactOrientation().toRotationMatrix(); r.topRightCorner<3, 1>() = x.contactPosition();
      if ((m - r).norm() > 1e-12) vp::fail("placement:get", "placement of a contact"); ContactState y; y.contactPlacement(m); if ((y.contactPosition() - x.contactPosition()).norm() > 1e-12 || y.contactOrientation().angularDistance(x.contactOrientation()) > 1e-7) vp::fail("placement:set", "pose from a placement"); } }
  // initial state of the robot
  for (int n = 0; n < 16; n++) for (int v = 0; v < 3; v++) if (vp::next("initial")) {
    s = n * 77 + v; std::ostringstream o; V3 m[3]; o << "initial_robot_configuration:\n"; const char* nm[3] = {"com", "lmom", "amom"}; auto seq = [&](const V3& x) { return "[" + num(x.x()) + ", " + num(x.y()) + ", " + num(x.z()) + "]"; };
    for (int i = 0; i < 3; i++) { m[i] = V3(val(s), val(s), val(s)); o << "  " << nm[i] << ": " << seq(m[i]) << "\n"; } V3 p[4], f[4]; Q q[4]; o << "  eef_pose:\n";
    for (int e = 0; e < 4; e++) { p[e] = V3(val(s), val(s), val(s)); q[e] = quat(s); o << "    eef_" << EFF[e] << ": [" << (n >> e & 1) << ", " << num(p[e].x()) << ", " << num(p[e].y()) << ", " << num(p[e].z()) << ", " << num(q[e].w()) << ", " << num(q[e].x()) << ", " << num(q[e].y()) << ", " << num(q[e].z()) << "]\n"; }
    o << "  eef_ctrl:\n"; for (int e = 0; e < 4; e++) { f[e] = V3(val(s), val(s), val(s)); o << "    eef_frc_" << EFF[e] << ": " << seq(f[e]) << "\n"; }
    write(o.str()); DynamicsState d; d.fillInitialRobotState(file()); unlink(file().c_str()); vp::nontrivial();
    bool ok = d.centerOfMass() == m[0] && d.linearMomentum() == m[1] && d.angularMomentum() == m[2]; for (int e = 0; e < 4; e++) ok = ok && d.endeffectorActivation(e) == bool(n >> e & 1) && d.endeffectorPosition(e) == p[e] && d.endeffectorForce(e) == f[e] && (d.endeffectorOrientation(e).coeffs() - q[e].coeffs()).norm() < 1e-15;
    if (!ok) vp::fail("initial:state", "the initial state differs from the file"); }
  // activation: all schedules of up to two (three) contacts of one effector on the half step grid, others follow shifted
  for (int T : {1, 2, 3, 4, 6}) { auto all = schedules(std::min(2 * T + 3, 9), th ? 3 : 2); for (size_t i = 0; i < all.size(); i++) if (vp::next("steps")) {
    double dt = i % 3 == 0 ? 0.25 : i % 3 == 1 ? 0.5 : 0.125; Plan p; s = i; for (int e = 0; e < 4; e++) { auto& sc = all[(i * (e + 1) + 13 * e * (i % 5)) % all.size()]; auto& use = e == int(i % 4) ? all[i] : sc; int k = 0; for (auto& c : use) p.c[e].push_back(contact(s, c.first * dt / 2, c.second * dt / 2, k++)); if (i % 7 == 3 && k) p.c[e][i % k].on = false; for (size_t v = 0; v < (i + e) % 3; v++) p.v[e].push_back({(int)v - 1, V3(val(s), val(s), val(s)), quat(s)}); }
    Loaded l; l.load(p, dt, T, i % 2); if (l.set.get(PlannerIntParam_NumTimesteps) != T) vp::fail("steps:horizon", "number of steps"); DynamicsSequence q; q.resize(T); l.plan.fillDynamicsSequence(l.ini, q); vp::nontrivial(); if (i % 2) check_vias(p, l.plan.viapointSequence(), "steps"); check_steps(p, q, T, dt, "steps", " in" + str(p) + " dt " + num(dt));
    // the same sequence again for another plan, after forces and velocities were stored
    for (int t = 0; t < T; t++) for (int e = 0; e < 4; e++) { auto& x = q.dynamicsState(t); x.endeffectorForce(e) = x.endeffectorTorque(e) = x.endeffectorTorqueAtContactPoint(e) = x.endeffectorCoP(e) = V3(1, 2, 3); x.endeffectorVelocity(e) = x.endeffectorAcceleration(e) = V3(4, 5, 6); }
    Plan r; for (int e = 0; e < 4; e++) { auto& use = all[(i + 17 * (e + 1)) % all.size()]; int k = 0; for (auto& c : use) r.c[e].push_back(contact(s, c.first * dt / 2, c.second * dt / 2, k++)); for (size_t v = 0; v < (i / 3 + 2 * e + 1) % 3; v++) r.v[e].push_back({(int)v, V3(val(s), val(s), val(s)), quat(s)}); } l.load(r, dt, T, i % 2); if (i % 2) check_vias(r, l.plan.viapointSequence(), "again"); l.plan.fillDynamicsSequence(l.ini, q); check_steps(r, q, T, dt, "again", " in" + str(r) + " after" + str(p)); } }
  // contacts at decimal times
  for (double dt : {0.1, 0.05, 0.01, 0.02, 0.2, 0.04}) for (int a = 0; a < 24; a++) for (int b = a + 1; b <= 25; b++) if (vp::next("decimal")) {
    Plan p; char t0[20], t1[20]; snprintf(t0, 20, "%.2f", a * dt); snprintf(t1, 20, "%.2f", b * dt); s = a; p.c[a % 4].push_back(contact(s, std::atof(t0), std::atof(t1), 1)); Loaded l; l.load(p, dt, 25, false); DynamicsSequence q; q.resize(25); l.plan.fillDynamicsSequence(l.ini, q); vp::nontrivial();
    for (int t = 0; t < 25; t++) if (q.dynamicsState(t).endeffectorActivation(a % 4) != (t + 1 >= a && t + 1 < b)) { vp::fail("decimal:active", "contact from " + std::string(t0) + " to " + t1 + " at step " + std::to_string(t)); break; } }
  return vp::finish();
}
#endif
