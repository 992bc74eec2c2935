// Motion plans of the dynamics optimizer: physically consistent, within the limits, optimal.
#include <dynplan.hpp>
using namespace dp;
static V3 rz(const Eigen::Quaterniond& q) { return q.toRotationMatrix().col(2); }
struct Bad { std::string key, msg; double v = 0; };
static void put(Bad& b, const std::string& key, double v, double tol, const std::string& msg) { if (!(v <= tol) && !(b.v >= v / tol)) { b.key = key; b.msg = msg; b.v = std::isfinite(v) ? v / tol : 1e300; } }
// everything the stored plan has to satisfy, whatever the objective
static Bad consistent(const Case& k, const Session& s, double tol) {
  Bad b; auto& seq = s.opt.dynamicsSequence(); bool time = k.heuristic == "TimeOptimization"; double mg = k.mass * k.g, sc = 1 + mg * k.dt * k.T;
  if (seq.size() != k.T) { put(b, "steps", 1, 0.5, "the plan has " + std::to_string(seq.size()) + " steps"); return b; }
  V3 com = k.com, lm = k.lmom, am = k.amom; double total = 0; double ce = 0, le = 0, ae = 0;
  double h0 = (at(k, 0, 0) ? at(k, 0, 0)->p : k.ep[0]).z();
  for (int t = 0; t < k.T; t++) {
    auto& x = seq.dynamicsState(t); double dt = time ? x.time() : k.dt; std::string w = " at step " + std::to_string(t); total += dt;
    if (time) { put(b, "step_length", std::max(k.trange[0] - dt, dt - k.trange[1]), 1e-3, "duration " + num(dt) + w); } else put(b, "step_length", std::fabs(x.time() - k.dt), 1e-12, "duration " + num(x.time()) + w);
    V3 f = k.mass * V3(0, 0, -k.g), tau = V3::Zero(); if (t == 0) f += mg * k.ext;
    V3 c = x.centerOfMass(); if (time) { V3 fs = f; for (int e = 0; e < 4; e++) if (at(k, e, t)) fs += mg * x.endeffectorForce(e); c = com + dt / k.mass * (lm + dt * fs); }
    for (int e = 0; e < 4; e++) {
      const Contact* ct = at(k, e, t);
      if (!ct) { double z = x.endeffectorForce(e).norm() + x.endeffectorTorque(e).norm() + x.endeffectorCoP(e).norm(); put(b, "no_contact_force", z, 1e-12, std::string("force without contact, effector ") + EFF[e] + w); if (x.endeffectorActivation(e) && e < k.nact) put(b, "activation", 1, 0.5, "active without contact" + w); continue; }
      if (!x.endeffectorActivation(e)) put(b, "activation", 1, 0.5, "inactive in contact" + w);
      M3 R = ct->q.toRotationMatrix(); V3 F = x.endeffectorForce(e), cp = x.endeffectorCoP(e), tq = x.endeffectorTorque(e);
      if (!F.allFinite() || !cp.allFinite() || !tq.allFinite()) put(b, "finite", 1, 0.5, "not finite" + w);
      f += mg * F; V3 len = ct->p - c + R.col(0) * cp.x() + R.col(1) * cp.y(); tau += len.cross(mg * F) + R.col(2) * tq.z();
      put(b, "cop_range", std::max(std::max(k.cop[e][0] - cp.x(), cp.x() - k.cop[e][1]), std::max(k.cop[e][2] - cp.y(), cp.y() - k.cop[e][3])), tol, "center of pressure " + num(cp.x()) + "," + num(cp.y()) + " of " + EFF[e] + w);
      put(b, "torque_range", std::max(k.trq[0] - tq.z(), tq.z() - k.trq[1]), tol * sc, "torque " + num(tq.z()) + " of " + EFF[e] + w);
      put(b, "shape", std::fabs(cp.z()) + std::fabs(tq.x()) + std::fabs(tq.y()), 1e-12, "center of pressure / torque components" + w);
      V3 L = R.transpose() * F;
      if (ct->type != 2) put(b, "friction", k.soc ? std::hypot(L.x(), L.y()) - k.mu * L.z() : std::fabs(L.x()) + std::fabs(L.y()) - std::sqrt(2.) * k.mu * L.z(), tol * 2, "force " + num(L.x()) + "," + num(L.y()) + "," + num(L.z()) + " of " + EFF[e] + w);
      put(b, "reach", (len - k.off[e]).norm() - k.len[e], tol * 3, "length " + num((len - k.off[e]).norm()) + " of " + EFF[e] + w);
      put(b, "contact_torque", (x.endeffectorTorqueAtContactPoint(e) - (tq + cp.cross(mg * L))).norm(), 1e-9 * sc, "torque at the contact point" + w);
      put(b, "pose", (x.endeffectorPosition(e) - ct->p).norm() + x.endeffectorOrientation(e).angularDistance(ct->q), 1e-7, "effector pose" + w);
    }
    lm += dt * f; com += dt / k.mass * lm; am += dt * tau;
    V3 dc = x.centerOfMass() - com, dl = x.linearMomentum() - lm, da = x.angularMomentum() - am;
    if (!time) {
      put(b, "com", dc.norm(), tol * 3 * sc, "center of mass off by " + num(dc.norm()) + w); put(b, "lmom", dl.norm(), tol * sc, "linear momentum off by " + num(dl.norm()) + w); put(b, "amom", da.norm(), 1e-7 * sc, "angular momentum off by " + num(da.norm()) + w);
      com = x.centerOfMass(); lm = x.linearMomentum(); am = x.angularMomentum();
    } else { ce += dc.squaredNorm(); le += dl.squaredNorm(); ae += da.squaredNorm(); }
    put(b, "height", h0 + k.minh - x.centerOfMass().z(), tol * 3, "height " + num(c.z()) + w);
  }
  if (time) {
    if (k.fixedh) put(b, "horizon", std::fabs(total - k.T * k.dt), 1e-3, "total duration " + num(total));
    put(b, "com", std::sqrt(ce) / k.T, k.restol * 1.01 + 1e-6, "center of mass off by " + num(std::sqrt(ce))); put(b, "lmom", std::sqrt(le) / k.T, k.restol * 1.01 + 1e-6, "linear momentum off by " + num(std::sqrt(le))); put(b, "amom", std::sqrt(ae) / k.T, k.restol * 1.01 + 1e-6, "angular momentum off by " + num(std::sqrt(ae)));
  }
  return b;
}
// affine functions of the stacked forces (and, for one axis, of the angular momenta)
struct Aff { V a; double b; }; struct Sq { double w; Aff f; };
struct Ref { int n = 0; std::vector<Sq> cost; std::vector<Aff> le; std::vector<std::vector<Aff>> soc;   // le: a'x+b <= 0; soc: |(x0,x1)| <= x2
  double value(const V& x) const { double f = 0; for (auto& s : cost) f += s.w * std::pow(s.f.a.dot(x) + s.f.b, 2); return f; } };
static Aff operator+(const Aff& p, const Aff& q) { return {p.a + q.a, p.b + q.b}; }
static Aff operator-(const Aff& p, const Aff& q) { return {p.a - q.a, p.b - q.b}; }
static Aff operator*(double s, const Aff& p) { return {s * p.a, s * p.b}; }
struct Model2 { Ref r; std::vector<std::array<std::array<int, 3>, 4>> id; };
static Model2 reference(const Case& k) {
  Model2 m; m.id.resize(k.T); int n = 0; for (int t = 0; t < k.T; t++) for (int e = 0; e < 4; e++) for (int a = 0; a < 3; a++) m.id[t][e][a] = at(k, e, t) ? n++ : -1;
  m.r.n = n; double mg = k.mass * k.g; auto cst = [&](double b) { return Aff{V::Zero(n), b}; }; auto F = [&](int t, int e, int a) { Aff f = cst(0); if (t < 0) f.b = k.frc[e][a]; else if (m.id[t][e][a] >= 0) f.a(m.id[t][e][a]) = 1; return f; };
  auto add = [&](double w, const Aff& f) { if (w != 0) m.r.cost.push_back({w, f}); };
  for (int a = 0; a < 3; a++) {
    Aff lm = cst(k.lmom[a]), com = cst(k.com[a]);
    for (int t = 0; t < k.T; t++) {
      Aff prev = lm; lm.b += k.dt * (a == 2 ? -mg : 0); for (int e = 0; e < k.nact; e++) lm = lm + k.dt * mg * F(t, e, a); if (t == 0) lm.b += k.dt * mg * k.ext[a];
      com = com + (k.dt / k.mass) * lm; bool last = t == k.T - 1; auto rf = [&](const std::vector<V3>& v) { return t < (int)v.size() ? v[t][a] : 0.; };
      if (last) { add(k.w_com[a], com - cst(k.com[a] + k.disp[a])); add(k.w_lf[a], lm - cst(rf(k.rl))); } else add(k.track ? k.w_lt[a] : k.w_lmom[a], lm - cst(rf(k.rl)));
      if (k.track) add(k.w_ct[a], com - cst(rf(k.rc)));
      add(k.w_lmomd[a], (1 / k.dt) * (lm - prev)); for (auto& v : k.via) if (int(v[0] / k.dt) == t) add(k.w_via[a], com - cst(v[a + 1]));
      if (a == 2) m.r.le.push_back(cst((at(k, 0, 0) ? at(k, 0, 0)->p : k.ep[0]).z() + k.minh) - com);
      for (int e = 0; e < k.nact; e++) if (at(k, e, t)) {
        add((e < 2 ? k.w_fl : k.w_fa)[a], F(t, e, a)); double w = (e < 2 ? k.w_dfl : k.w_dfa)[a];
        add(w, F(t, e, a) - F(t - 1, e, a)); if (!last) add(w, F(t + 1, e, a) - F(t, e, a)); }
    }
  }
  for (int t = 0; t < k.T; t++) for (int e = 0; e < k.nact; e++) if (auto c = at(k, e, t)) if (c->type != 2) {
    M3 R = c->q.toRotationMatrix(); std::vector<Aff> L; for (int i = 0; i < 3; i++) { Aff l = cst(0); for (int a = 0; a < 3; a++) l = l + R(a, i) * F(t, e, a); L.push_back(l); }
    if (k.soc) m.r.soc.push_back({L[0], L[1], k.mu * L[2]}); else for (double sx : {-1., 1.}) for (double sy : {-1., 1.}) m.r.le.push_back(sx * L[0] + sy * L[1] - std::sqrt(2.) * k.mu * L[2]); }
  return m;
}
// strictly convex QP by coordinate ascent on the dual, cones by cutting planes; false if no convergence
static bool solve(const Ref& r, V& x) {
  M H = M::Zero(r.n, r.n); V g = V::Zero(r.n); for (auto& s : r.cost) { H += 2 * s.w * s.f.a * s.f.a.transpose(); g += 2 * s.w * s.f.b * s.f.a; }
  M Hi = H.inverse(); std::vector<Aff> A = r.le;
  for (int cut = 0; cut < 80; cut++) {
    int m = A.size(); M N(m, r.n); V b(m); for (int i = 0; i < m; i++) { N.row(i) = A[i].a.transpose(); b(i) = A[i].b; }
    M D = N * Hi * N.transpose(); V y = V::Zero(m), v = b - N * (Hi * g); double worst = 1;
    for (int it = 0; it < 60000 && worst > 1e-11; it++) { worst = 0; for (int i = 0; i < m; i++) { if (D(i, i) < 1e-14) { if (b(i) > 1e-9) return false; continue; } double d = std::max(-y(i), v(i) / D(i, i)); if (d != 0) { y(i) += d; v -= d * D.col(i); worst = std::max(worst, std::fabs(d) * std::sqrt(D(i, i))); } } if (y.size() && y.maxCoeff() > 1e9) return false; }
    if (worst > 1e-7) return false;
    x = -Hi * (g + N.transpose() * y); bool ok = true;
    for (auto& c : r.soc) { double u = c[0].a.dot(x) + c[0].b, w = c[1].a.dot(x) + c[1].b, z = c[2].a.dot(x) + c[2].b, h = std::hypot(u, w); if (h - z > 1e-8) { ok = false; A.push_back(h < 1e-12 ? -1 * c[2] : (u / h) * c[0] + (w / h) * c[1] - c[2]); } }
    if (ok) return true;
  }
  return false;
}
static unsigned long mix(unsigned long z) { z += 0x9e3779b97f4a7c15ul; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ul; z = (z ^ (z >> 27)) * 0x94d049bb133111ebul; return z ^ (z >> 31); }
static void judge(const char* sec, const Case& k, bool optimum, bool must, Session* reuse = nullptr) {
  Session own; Session& s = reuse ? *reuse : own; s.load(k); s.run(k); std::string S(sec);
  bool good = s.code == ExitCode::Optimal || s.code == ExitCode::OptimalInacc; vp::count(good ? "planned" : "no_plan"); vp::count("steps", k.T);
  auto say = [&](const std::string& m) { return m + " (exit code " + std::to_string((int)s.code) + ") in " + str(k); };
  if (!good) { if (must && (s.code == ExitCode::PrimalInf || s.code == ExitCode::DualInf)) { vp::fail(S + ":no_plan", say("no plan (exit code " + std::to_string((int)s.code) + ")")); } return; }
  if (s.code == ExitCode::OptimalInacc) vp::count(std::string("inaccurate_") + sec);
  Bad b = consistent(k, s, s.code == ExitCode::Optimal ? 2e-4 : 2e-2); if (!b.key.empty()) { vp::fail(S + ":" + b.key, say(b.msg)); return; }
  if (!optimum) { vp::nontrivial(); vp::sample([&] { return str(k); }); return; }
  Model2 m = reference(k); V x; if (!solve(m.r, x)) { vp::count("reference_failed"); return; }
  V y(m.r.n); for (int t = 0; t < k.T; t++) for (int e = 0; e < 4; e++) for (int a = 0; a < 3; a++) if (m.id[t][e][a] >= 0) y(m.id[t][e][a]) = s.opt.dynamicsSequence().dynamicsState(t).endeffectorForce(e)[a];
  double f = m.r.value(x), fy = m.r.value(y), d = (x - y).norm();
  vp::nontrivial(); if (std::getenv("P13_DEBUG")) std::ofstream(std::getenv("P13_DEBUG"), std::ios::app) << vp::case_id() << " cost " << fy << " optimum " << f << " |dx| " << d << std::endl;
  if (s.code == ExitCode::Optimal && !(fy <= f + 1e-4 + 1e-4 * std::fabs(f))) { std::ostringstream o; o << "cost " << fy << " where " << f << " is possible; forces differ by " << d; vp::fail(S + ":suboptimal", say(o.str())); return; }
  vp::sample([&] { std::ostringstream o; o << str(k) << " cost " << fy << " optimum " << f; return o.str(); });
}
static Eigen::Quaterniond tilt(int i) { switch (i) { case 1: return Eigen::Quaterniond(Eigen::AngleAxisd(0.3, V3(1, 0, 0))); case 2: return Eigen::Quaterniond(Eigen::AngleAxisd(-0.4, V3(0, 1, 0))); case 3: return Eigen::Quaterniond(Eigen::AngleAxisd(0.8, V3(0.2, -0.3, 1).normalized())); default: return Eigen::Quaterniond::Identity(); } }
// contact patterns over T steps: bit t set = in contact at step t; a gap starts a new contact elsewhere
static void pattern(Case& k, int e, int bits, int type, int ori, bool split = false) {
  V3 p = k.ep[e]; int nth = 0; for (int t = 0; t < k.T;) { if (!(bits >> t & 1)) { t++; continue; } int u = t; while (u < k.T && (bits >> u & 1)) { u++; if (split && nth == 0) break; }
    k.c[e].push_back({t == 0 ? 0. : (t + 1) * k.dt, (u + 1) * k.dt, p, tilt((ori + nth) % 4), type}); p += V3(0.2, 0.1 * (e % 2 ? 1 : -1), 0.1 + 0.05 * nth); nth++; t = u; } }
static void weights(Case& k, int w) {   // objectives of the optimum sections, one or several terms at a time
  double s = 3; switch (w) {
    case 0: k.w_com = V3(5, 4, 3); k.disp = V3(0.1, -0.05, 0.2); break;
    case 1: k.w_lmom = V3(1, 2, 3); k.rl.assign(k.T, V3(0.3, -0.2, 0.5)); break;
    case 2: k.w_lf = V3(3, 2, 1); k.rl.assign(k.T, V3(-0.4, 0.2, -0.3)); break;
    case 3: k.w_lmomd = V3(0.1, 0.2, 0.3); k.w_fl = V3(0.5, 1, 2); k.w_fa = V3(2, 1, 0.3); break;
    case 4: k.w_dfl = V3(2, 3, 4); k.w_dfa = V3(1, 0.5, 5); for (int e = 0; e < 4; e++) k.frc[e] = V3(0.1 * e, -0.05, 0.2 + 0.1 * e); break;
    case 5: k.w_via = V3(6, 7, 8); k.via = {Eigen::Vector4d(k.dt * (k.T / 2), 0.1, -0.2, 1.1), Eigen::Vector4d(0.5 * k.dt, 0.0, 0.1, 0.9)}; break;
    case 6: k.track = true; k.w_ct = V3(4, 3, 5); k.w_lt = V3(0.5, 1, 2); k.w_lmom = V3(50, 50, 50); for (int t = 0; t < k.T; t++) { k.rc.push_back(V3(0.05 * t, -0.03 * t, 1 + 0.04 * t)); k.rl.push_back(V3(0.2, 0.1 * t, -0.1)); } break;
    case 7: k.w_com = V3(s, s, s); k.w_lmom = V3(1, 1, 1); k.w_lmomd = V3(0.05, 0.05, 0.05); k.w_lf = V3(2, 2, 2); k.w_dfl = V3(1, 1, 1); k.w_dfa = V3(1, 2, 3); k.disp = V3(0.2, 0, 0.1); break;
    case 8: k.w_com = V3(20, 30, 40); k.disp = V3(0.6, -0.5, 0.3); k.w_lf = V3(1, 1, 1); break;   // hits the friction cone
    case 9: k.w_com = V3(20, 30, 60); k.disp = V3(0, 0, -0.8); k.minh = 0.7; break;           // hits the height limit
  } }
// angular momentum about the contact normal can be supplied by the contact torque at no cost: the plan has to reach the reference
static void spin(const char* sec, Case k, int ax, int variant) {
  Eigen::Quaterniond q = Eigen::Quaterniond::FromTwoVectors(V3::UnitZ(), V3::Unit(ax)); for (int e = 0; e < 4; e++) for (auto& c : k.c[e]) { c.q = q; c.type = 2; }
  for (int t = 0; t < k.T; t++) { bool any = false; for (int e = 0; e < k.nact; e++) any = any || at(k, e, t); if (!any) return; }
  V3 u = V3::Unit(ax); double wr = 0, wf = 0, wd = 0; for (int t = 0; t < k.T; t++) k.ra.push_back(u * (0.3 - 0.4 * t)); k.rl.assign(k.T, V3::Zero());
  if (variant == 0) { k.w_amom = u * (wr = 4); } else if (variant == 1) { k.w_af = u * (wf = 6); k.w_amom = u * (wr = 0.5); } else if (variant == 2) { k.w_amomd = u * (wd = 0.2); k.w_af = u * (wf = 5); k.w_amom = u * (wr = 1); } else { k.track = true; k.w_at = u * (wr = 3); k.w_amom = u * 100; k.w_af = u * (wf = 2); }
  Session s; s.load(k); s.run(k); std::string S(sec); auto say = [&](const std::string& m) { return m + " in " + str(k) + " axis " + std::to_string(ax) + " variant " + std::to_string(variant); };
  if (s.code != ExitCode::Optimal && s.code != ExitCode::OptimalInacc) { vp::count("no_plan"); return; }
  Bad b = consistent(k, s, s.code == ExitCode::Optimal ? 2e-4 : 2e-2); if (!b.key.empty()) { vp::fail(S + ":" + b.key, say(b.msg)); return; } if (s.code != ExitCode::Optimal) { vp::count(std::string("inaccurate_") + sec); return; }
  M H = M::Zero(k.T, k.T); V g = V::Zero(k.T); auto add = [&](double w, const V& a, double c) { H += 2 * w * a * a.transpose(); g += 2 * w * c * a; };
  auto cost = [&](const V& A) { double f = 0; for (int t = 0; t < k.T; t++) { f += (t == k.T - 1 ? wf : wr) * std::pow(A(t) - k.ra[t][ax], 2); f += wd * std::pow((A(t) - (t ? A(t - 1) : k.amom[ax])) / k.dt, 2); } return f; };
  for (int t = 0; t < k.T; t++) { V e = V::Zero(k.T); e(t) = 1; add(t == k.T - 1 ? wf : wr, e, -k.ra[t][ax]); V d = e / k.dt; if (t) d(t - 1) = -1 / k.dt; add(wd, d, t ? 0 : -k.amom[ax] / k.dt); }
  V A = V::Zero(k.T), B(k.T); for (int i = 0; i < k.T; i++) H(i, i) += 1e-12; A = -H.ldlt().solve(g); for (int t = 0; t < k.T; t++) B(t) = s.opt.dynamicsSequence().dynamicsState(t).angularMomentum()[ax];
  vp::nontrivial(); if (std::getenv("P13_DEBUG")) std::ofstream(std::getenv("P13_DEBUG"), std::ios::app) << vp::case_id() << " amom " << B.transpose() << " optimum " << A.transpose() << std::endl;
  if (!(cost(B) <= cost(A) + 2e-3)) { std::ostringstream o; o << "angular momentum " << B.transpose() << " where " << A.transpose() << " is optimal"; vp::fail(S + ":momentum", say(o.str())); }
}
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet quiet; long i = 0;
  // optimum: forces without / with friction limits against the reference QP
  for (int T : {1, 2, 3, 4}) for (int nact : {1, 2, 3, 4}) for (int pat = 0; pat < 6; pat++) for (int type = 0; type < 3; type++) for (int w = 0; w < 10; w++) for (int h = 0; h < 2; h++) {
    i++; unsigned long r = mix(i); if (!th && r % 6) continue; r >>= 8;
    if (!vp::next("optimum")) continue;
    Case k; k.T = T; k.nact = nact; k.dt = (pat & 1) ? 0.25 : 0.125; k.heuristic = h ? "TrustRegion" : "SoftConstraint"; k.soc = r & 1; k.mu = 0.4 + 0.3 * (r / 2 % 3); k.itrefs = r / 8 % 3; k.warm = r & 64 ? 20 : 100;
    k.lmom = V3(0.1, -0.2, 0.05) * (pat % 3); k.ext = V3(0.1, -0.05, 0.2) * (pat == 2 || pat == 5); int full = (1 << T) - 1;
    for (int e = 0; e < 4; e++) { int bits = pat < 2 ? full : pat == 2 ? (e % 2 ? full : 5) : pat == 3 ? (e == 0 ? full : full & ~1) : pat == 4 ? (e % 2 ? 9 : 6) : (e % 2 ? full & ~2 : full); pattern(k, e, bits & full, type, type == 2 ? pat + e : (pat == 1 ? e : 0), pat == 5); }
    weights(k, w); judge("optimum", k, true, type == 2 || (pat < 2 && w != 8 && pat == 0)); }
  // angular momentum objective
  for (int T : {1, 2, 3}) for (int nact : {1, 2, 4}) for (int pat = 0; pat < 3; pat++) for (int ax = 0; ax < 3; ax++) for (int v = 0; v < 4; v++) if (vp::next("spin")) {
    Case k; k.T = T; k.nact = nact; k.amom = V3(0.2, -0.1, 0.3) * (pat - 1); k.lmom = V3(0.1, 0, 0) * pat; k.wsoft = 1e4; int full = (1 << T) - 1; for (int e = 0; e < 4; e++) pattern(k, e, full & ~(pat == 2 && e == 1 ? 1 : 0), 2, 0); spin("spin", k, ax, v); }
  // a reference far away in the direction of one side of the foot: the plan uses the range of that effector, all of it
  for (int T : {1, 2}) for (int e = 0; e < 4; e++) for (int side = 0; side < 6; side++) for (int h = 0; h < 2; h++) for (int soc = 0; soc < 2; soc++) for (int ord = 0; ord < 2; ord++) if (vp::next("side")) {
    Case k; k.T = T; k.nact = 4; k.heuristic = h ? "TrustRegion" : "SoftConstraint"; k.soc = soc; k.mu = 0.6; k.dt = 0.125; k.itrefs = 3; double mg = k.mass * k.g;
    for (int a = 0; a < 4; a++) { int f = ord ? a : 3 - a; k.cop[a] = Eigen::Vector4d(-0.02 - 0.01 * f, 0.03 + 0.015 * f, -0.04 - 0.012 * f, 0.025 + 0.011 * f); k.len[a] = a == e ? 3 : 0.01; } k.trq = Eigen::Vector2d(-0.4, 0.7);
    k.ep[e] = V3(0, 0, 0.2); pattern(k, e, (1 << T) - 1, 1, 0); V3 u = V3::Zero(); if (side < 2) u.y() = side ? -1 : 1; else if (side < 4) u.x() = side == 2 ? -1 : 1; else u.z() = side == 4 ? -1 : 1;
    k.ra.assign(T, 5 * u); k.rl.assign(T, V3::Zero()); k.w_lf = k.w_lmom = V3(1e3, 1e3, 1e3); k.w_af = k.w_amom = u.cwiseAbs() * 5;
    Session s; s.load(k); s.run(k); vp::count(s.code == ExitCode::Optimal ? "planned" : "no_plan"); if (s.code != ExitCode::Optimal) continue;
    Bad b = consistent(k, s, 2e-4); if (!b.key.empty()) { vp::fail("side:" + b.key, b.msg + " in " + str(k)); continue; } vp::nontrivial();
    for (int t = 0; t < T; t++) { auto& x = s.opt.dynamicsSequence().dynamicsState(t); double v = side < 4 ? x.endeffectorCoP(e)[side / 2] : x.endeffectorTorque(e).z(), l = side < 4 ? k.cop[e][side] : k.trq[side - 4];
      if (!(std::fabs(v - l) <= 0.02 * std::fabs(l))) { vp::fail("side:unused", "side " + std::to_string(side) + " of " + EFF[e] + " at step " + std::to_string(t) + ": " + num(v) + " where " + num(l) + " is allowed and wanted, in " + str(k)); break; } } (void)mg; }
  // a goal beyond reach: the leg of the effector in contact is stretched to its own length, not to that of another
  for (int T : {1, 2, 3}) for (int e = 0; e < 4; e++) for (int h = 0; h < 2; h++) for (int ord = 0; ord < 2; ord++) for (int dir = 0; dir < 3; dir++) if (vp::next("stretch")) {
    Case k; k.T = T; k.nact = 4; k.heuristic = h ? "TrustRegion" : "SoftConstraint"; k.mu = 5; k.dt = 0.125; k.itrefs = 3; for (int a = 0; a < 4; a++) { k.len[a] = a == e ? 1.1 : ord ? 1.5 + 0.1 * a : 0.95 - 0.02 * a; k.off[a] = V3(0.02 * (a == e), 0, 0); }
    k.ep[e] = V3(0, 0, 0.2); pattern(k, e, (1 << T) - 1, 1, 0); V3 u = V3::Unit(dir); if (dir < 2) u = (0.3 * u + V3(0, 0, 0.5)); k.disp = 6 * u; k.w_com = V3(50, 50, 50); k.w_fl = k.w_fa = V3(1e-4, 1e-4, 1e-4);
    Session s; s.load(k); s.run(k); vp::count(s.code == ExitCode::Optimal ? "planned" : "no_plan"); if (s.code != ExitCode::Optimal) continue;
    Bad b = consistent(k, s, 2e-4); if (!b.key.empty()) { vp::fail("stretch:" + b.key, b.msg + " in " + str(k)); continue; } vp::nontrivial();
    auto& x = s.opt.dynamicsSequence().dynamicsState(T - 1); V3 cp = x.endeffectorCoP(e); double l = (k.ep[e] - x.centerOfMass() + V3(cp.x(), cp.y(), 0) - k.off[e]).norm();
    if (!(l > k.len[e] - 0.02)) vp::fail("stretch:unused", std::string("length of ") + EFF[e] + " is " + num(l) + " where " + num(k.len[e]) + " is allowed and wanted, in " + str(k)); }
  // turning about the contact normal with a leg and an arm: the one whose torque is cheap does it
  for (int T : {1, 2, 3}) for (int leg = 0; leg < 2; leg++) for (int arm = 2; arm < 4; arm++) for (int dear = 0; dear < 2; dear++) for (int h = 0; h < 2; h++) for (int sg = 0; sg < 2; sg++) if (vp::next("torques")) {
    Case k; k.T = T; k.nact = 4; k.heuristic = h ? "TrustRegion" : "SoftConstraint"; k.dt = 0.125; k.itrefs = 3; k.wtl = dear ? 1e-3 : 1e2; k.wta = dear ? 1e2 : 1e-3;
    k.ep[leg] = V3(0, 0, 0); k.ep[arm] = V3(0, 0, 0.3); pattern(k, leg, (1 << T) - 1, 1, 0); pattern(k, arm, (1 << T) - 1, 1, 0); for (int e = 0; e < 4; e++) k.cop[e] = Eigen::Vector4d(-0.01, 0.01, -0.01, 0.01);
    V3 u(0, 0, sg ? -1 : 1); for (int t = 0; t < T; t++) k.ra.push_back((t + 1) * 0.05 * u); k.rl.assign(T, V3::Zero()); k.w_lf = k.w_lmom = V3(1e3, 1e3, 1e3); k.w_af = k.w_amom = V3(0, 0, 50); k.w_fl = k.w_fa = V3(10, 10, 0.1);
    Session s; s.load(k); s.run(k); vp::count(s.code == ExitCode::Optimal ? "planned" : "no_plan"); if (s.code != ExitCode::Optimal) continue;
    Bad b = consistent(k, s, 2e-4); if (!b.key.empty()) { vp::fail("torques:" + b.key, b.msg + " in " + str(k)); continue; } vp::nontrivial();
    for (int t = 0; t < T; t++) { auto& x = s.opt.dynamicsSequence().dynamicsState(t); double tl = std::fabs(x.endeffectorTorque(leg).z()), ta = std::fabs(x.endeffectorTorque(arm).z());
      if (!((dear ? ta : tl) < 0.1 * (dear ? tl : ta))) { vp::fail("torques:share", std::string(EFF[leg]) + " turns with " + num(tl) + ", " + EFF[arm] + " with " + num(ta) + " although its torque is " + (dear ? "dear" : "cheap") + ", at step " + std::to_string(t) + " in " + str(k)); break; } } }
  // standing still costs nothing whatever the duration of the steps: only their own weights decide
  for (int T : {1, 2, 3, 4}) for (int nact = 1; nact <= 2; nact++) for (int v = 0; v < 6; v++) for (int soc = 0; soc < 2; soc++) if (vp::next("durations")) {
    Case k; k.heuristic = "TimeOptimization"; k.T = T; k.nact = nact; k.soc = soc; k.mu = 0.7; k.dt = 0.2; k.fixedh = v == 5; k.maxtime = 40; k.trange = Eigen::Vector2d(0.05, 0.4); k.wtime = v == 0 ? 100 : v == 1 ? 30 : v == 2 ? 0.1 : v == 4 ? 2 : 10; k.wtpen = v == 0 ? 0 : v == 1 ? 10 : v == 2 ? 50 : v == 4 ? 1 : v == 5 ? 20 : 10;
    k.ep[0] = nact == 1 ? V3(0, 0, 0) : V3(0, -0.2, 0); k.ep[1] = V3(0, 0.2, 0); for (int e = 0; e < nact; e++) pattern(k, e, (1 << T) - 1, 1, 0); k.w_fl = V3(1e-4, 1e-4, 1e-4); k.w_lmom = k.w_lf = V3(1, 1, 1); k.rl.assign(T, V3::Zero());
    Session s; s.load(k); s.run(k); bool good = s.code == ExitCode::Optimal; vp::count(good ? "planned" : "no_plan"); if (!good) continue;
    Bad b = consistent(k, s, 2e-4); if (!b.key.empty()) { vp::fail("durations:" + b.key, b.msg + " in " + str(k)); continue; } vp::nontrivial();
    double want = k.fixedh ? k.dt : std::max(k.trange[0], k.wtime * k.dt / (k.wtime + k.wtpen)); for (int t = 0; t < T; t++) { double dt = s.opt.dynamicsSequence().dynamicsState(t).time(); if (!(std::fabs(dt - want) < 4e-3)) { vp::fail("durations:weights", "step " + std::to_string(t) + " lasts " + num(dt) + ", the weights ask for " + num(want) + " in " + str(k)); break; } } }
  // standing still against an external push in the first step, durations free to change
  for (int T : {1, 2, 3}) for (int ax = 0; ax < 3; ax++) for (int sg = 0; sg < 2; sg++) for (int soc = 0; soc < 2; soc++) for (int h = 0; h < 3; h++) if (vp::next("push")) {
    Case k; k.heuristic = h == 0 ? "TimeOptimization" : h == 1 ? "SoftConstraint" : "TrustRegion"; k.T = T; k.nact = 2; k.soc = soc; k.mu = 0.9; k.dt = 0.2; k.maxtime = 40; k.trange = Eigen::Vector2d(0.05, 0.4); k.wtime = 1e3;
    k.ep[0] = V3(0, -0.2, 0); k.ep[1] = V3(0, 0.2, 0); for (int e = 0; e < 2; e++) pattern(k, e, (1 << T) - 1, 1, 0); k.w_fl = V3(1e-4, 1e-4, 1e-4); k.w_lmom = k.w_lf = V3(100, 100, 100); k.rl.assign(T, V3::Zero()); k.ext = V3::Unit(ax) * (sg ? -0.2 : 0.2);
    Session s; s.load(k); s.run(k); bool good = s.code == ExitCode::Optimal; vp::count(good ? "planned" : "no_plan"); if (!good) continue;
    Bad b = consistent(k, s, 2e-4); if (!b.key.empty()) { vp::fail("push:" + b.key, b.msg + " in " + str(k)); continue; } vp::nontrivial();
    for (int t = 0; t < T; t++) { V3 l = s.opt.dynamicsSequence().dynamicsState(t).linearMomentum(); if (!(l.norm() < 0.02)) { std::ostringstream o; o << l.transpose(); vp::fail("push:momentum", "linear momentum " + o.str() + " at step " + std::to_string(t) + " where none is wanted and the contacts can hold, in " + str(k)); break; } } }
  // limits: everything enabled, tight ranges
  for (int T : {2, 3, 5}) for (int nact : {1, 2, 3, 4}) for (int pat = 0; pat < 8; pat++) for (int lim = 0; lim < 6; lim++) for (int h = 0; h < 2; h++) for (int ty = 0; ty < 2; ty++) {
    i++; unsigned long r = mix(i); if (!th && r % 3) continue; r >>= 8;
    if (!vp::next("limits")) continue;
    Case k; k.T = T; k.nact = nact; k.heuristic = h ? "TrustRegion" : "SoftConstraint"; k.soc = pat % 2; k.mu = 0.6; k.dt = 0.125; k.itrefs = 1 + r % 2; int full = (1 << T) - 1; k.warm = r / 2 % 4 ? 50 : 0;
    for (int e = 0; e < 4; e++) pattern(k, e, full & (e % 2 ? ~(pat & 3 ? 2 << (pat & 1) : 0) : ~(pat & 4 ? 1 << (pat & 2) : 0)), ty ? (e + pat) % 3 : 1, pat > 3 ? e + 1 : 0, pat == 7);
    k.w_com = V3(30, 30, 30); k.w_lmom = V3(0.1, 0.1, 0.1); k.w_amom = V3(0.5, 0.4, 0.3); k.w_af = V3(3, 3, 3); k.w_amomd = V3(0.05, 0.05, 0.05); k.w_fl = k.w_fa = V3(0.1, 0.1, 0.1); k.disp = V3(0.1, 0.05, 0); k.amom = V3(0.1, 0.2, -0.1); k.wtl = 0.1; k.wta = 0.2;
    if (lim == 1) { k.trq = Eigen::Vector2d(-0.02, 0.03); k.ra.assign(T, V3(0, 0, pat & 2 ? -2 : 2)); k.w_af = V3(0, 0, 50); k.wtl = k.wta = 1e-4; }
    if (lim == 2) { for (int e = 0; e < 4; e++) k.cop[e] = [&] { int f = pat & 4 ? e : 3 - e; return Eigen::Vector4d(-0.01 - 0.004 * f, 0.02 - 0.003 * f, -0.005 * (f + 1), 0.004 + 0.006 * (3 - f)); }(); k.ra.assign(T, V3(pat & 1 ? 1 : -1, pat & 2 ? 1 : -1, 0)); k.w_af = V3(20, 20, 0); }
    if (lim == 3) { k.len = Eigen::Vector4d(1.2, 1.15, 1.1, 1.05); k.off[0] = V3(0.05, -0.05, 0); k.off[1] = V3(-0.05, 0.1, 0.02); k.off[2] = V3(0.1, -0.15, 0.2); k.off[3] = V3(0.1, 0.15, 0.2); k.disp = V3(pat & 1 ? -0.4 : 0.4, pat & 2 ? -0.3 : 0.2, 0.5); }
    if (lim == 4) { k.minh = 0.95; k.disp = V3(0, 0, -0.5); k.w_com = V3(100, 100, 100); }
    if (lim == 5) { k.disp = V3(0.8, -0.6, 0.2); k.w_com = V3(100, 100, 100); k.mu = 0.3; k.w_via = V3(50, 50, 50); k.via = {Eigen::Vector4d(k.dt, 0.3, 0.1, 0.9)}; }
    judge("limits", k, false, false); }
  // time optimization
  for (int T : {2, 3, 5}) for (int nact : {1, 2, 3}) for (int pat = 0; pat < 4; pat++) for (int v = 0; v < 6; v++) for (int f = 0; f < 2; f++) {
    i++; unsigned long r = mix(i); if (!th && r % 2) continue;
    if (!vp::next("time")) continue;
    Case k; k.heuristic = "TimeOptimization"; k.T = T; k.nact = nact; k.soc = pat % 2; k.mu = 0.7; k.dt = 0.125; k.fixedh = f; k.maxtime = 150; int full = (1 << T) - 1;
    for (int e = 0; e < 4; e++) pattern(k, e, full & (e % 2 ? ~(pat & 1 ? 2 : 0) : ~(pat & 2 ? 1 : 0)), v % 2 ? 2 : 1, pat == 3 ? e : 0);
    k.w_com = V3(30, 30, 30); k.w_lmom = V3(0.1, 0.1, 0.1); k.w_amom = V3(0.5, 0.4, 0.3); k.w_af = V3(3, 3, 3); k.w_lf = V3(1, 1, 1); k.w_amomd = k.w_lmomd = V3(0.01, 0.01, 0.01); k.w_fl = k.w_fa = V3(0.1, 0.1, 0.1); k.disp = V3(0.1, 0.05, 0); k.amom = V3(0.02, 0.01, -0.01); k.wtl = 0.1; k.wta = 0.2;
    if (v == 1) { k.wtime = 0.1; k.wtpen = 50; } if (v == 2) { k.lmom = V3(0.2, 0.1, 0.3); k.trange = Eigen::Vector2d(0.1, 0.15); } if (v == 3) { k.disp = V3(0.4, -0.2, 0.1); k.wtime = 1; } if (v == 4) { k.ext = V3(0.1, 0, 0.1); } if (v == 5) { k.wtime = 5; k.disp = V3(0, 0, -0.3); k.minh = 0.9; k.trq = Eigen::Vector2d(-0.05, 0.05); }
    Session s; s.load(k); s.run(k); bool good = s.code == ExitCode::Optimal || s.code == ExitCode::OptimalInacc; vp::count(good ? "planned" : "no_plan"); if (!good) continue;
    Bad b = consistent(k, s, s.code == ExitCode::Optimal ? 2e-4 : 2e-2); vp::nontrivial();
    if (b.key == "com" || b.key == "lmom" || b.key == "amom") {   // an iteration that ran out of steps need not be consistent: one more step changes the plan
      Case k2 = k; k2.maxtime++; Session s2; s2.load(k2); s2.run(k2); double d = 0; for (int t = 0; t < T; t++) d += (s.opt.dynamicsSequence().dynamicsState(t).linearMomentum() - s2.opt.dynamicsSequence().dynamicsState(t).linearMomentum()).norm() + std::fabs(s.opt.dynamicsSequence().dynamicsState(t).time() - s2.opt.dynamicsSequence().dynamicsState(t).time());
      if (d > 0 && v > 2) { vp::count("time_not_converged"); continue; } }
    if (!b.key.empty()) vp::fail("time:" + b.key, b.msg + " in " + str(k) + " v" + std::to_string(v)); }
  // number of steps of a horizon written in decimals, and contacts that cover exactly their steps
  for (int c : {1, 2, 4, 5, 8, 10, 12, 20, 25, 40, 50}) for (int n = 1; n <= 100; n++) if (vp::next("horizon")) {
    Case k; k.T = n; char b[30]; snprintf(b, 30, "%.3f", c * 0.01); k.dt = std::atof(b); snprintf(b, 30, "%.3f", c * n * 0.01); k.horizon = std::atof(b); k.c[0] = {{0, k.horizon + k.dt, k.ep[0], tilt(0), 1}};
    Session s; s.load(k); vp::nontrivial(); int g = s.set.get(PlannerIntParam_NumTimesteps); if (g != n) vp::fail("horizon:steps", "a horizon of " + num(k.horizon) + " with time step " + num(k.dt) + " has " + std::to_string(g) + " steps");
    DynamicsSequence q; q.resize(n); s.plan.fillDynamicsSequence(s.ini, q); for (int t = 0; t < n && t < g; t++) if (!q.dynamicsState(t).endeffectorActivation(0)) { vp::fail("horizon:contact", "inactive at step " + std::to_string(t)); break; } }
  // a planner that is used again (same object, other contacts) plans as a new one; the saved file holds the plan
  for (int T : {2, 3, 4}) for (int nact : {1, 2, 4}) for (int p1 = 0; p1 < 4; p1++) for (int p2 = 0; p2 < 4; p2++) for (int h = 0; h < 3; h++) for (int init = 0; init < 2; init++) {
    i++; unsigned long r = mix(i); if (!th && r % 3) continue; r >>= 8;
    if (!vp::next("again")) continue;
    auto mk = [&](int pat) { Case k; k.T = T; k.nact = nact; k.dt = 0.125; k.heuristic = h == 2 && init ? "TimeOptimization" : h == 1 ? "TrustRegion" : "SoftConstraint"; int full = (1 << T) - 1; for (int e = 0; e < 4; e++) { k.frc[e] = V3(0.05, 0, 0.1 * pat); pattern(k, e, full & ~(e == pat ? 1 << (T - 1) : e + 1 == pat ? 1 : 0), 1 + (e + pat) % 2, 0); k.eact[e] = false; }
      k.w_com = V3(5, 5, 5); k.w_dfl = k.w_dfa = V3(1, 1, 1); k.w_amom = V3(0.1, 0.2, 0.3); k.disp = V3(0.1, 0.05 * pat, 0); k.lmom = V3(0.1 * pat, 0, 0); k.com = V3(0.02 * pat, 0, 1); return k; };
    Case a = mk(p1), c = mk(p2); a.disp.z() += 0.1; Session s, f; s.load(a); s.run(a); s.load(c); f.load(c); f.run(c);
    if (init) s.run(c); else { std::ofstream(cfgfile()) << yaml(c); s.code = s.opt.optimize(s.ini, &s.plan, s.kin, false); unlink(cfgfile().c_str()); }
    double d = s.code == f.code ? 0 : 1; for (int t = 0; t < T; t++) { auto &x = s.opt.dynamicsSequence().dynamicsState(t), &y = f.opt.dynamicsSequence().dynamicsState(t); d += (x.centerOfMass() - y.centerOfMass()).norm() + (x.linearMomentum() - y.linearMomentum()).norm() + (x.angularMomentum() - y.angularMomentum()).norm();
      for (int e = 0; e < 4; e++) d += (x.endeffectorForce(e) - y.endeffectorForce(e)).norm() + (x.endeffectorCoP(e) - y.endeffectorCoP(e)).norm() + (x.endeffectorTorque(e) - y.endeffectorTorque(e)).norm() + (x.endeffectorActivation(e) != y.endeffectorActivation(e)); }
    vp::nontrivial(p1 != p2); if (!(d <= 1e-9)) vp::fail("again:differs", "a planner used again gives another plan (difference " + num(d) + ") for " + str(c) + " after " + str(a)); }
  for (int T : {1, 2, 3, 5}) for (int nact : {1, 2, 4}) for (int pat = 0; pat < 4; pat++) for (int h = 0; h < 3; h++) if (vp::next("file")) {
    Case k; k.T = T; k.nact = nact; k.dt = 0.125; k.store = true; k.heuristic = h == 2 ? "TimeOptimization" : h ? "TrustRegion" : "SoftConstraint"; int full = (1 << T) - 1; for (int e = 0; e < 4; e++) pattern(k, e, e == pat ? 5 & full : full, 1, 0);
    k.w_com = V3(5, 5, 5); k.disp = V3(0.1, -0.05, 0.02); k.w_amom = V3(0.1, 0.2, 0.3); k.w_lmomd = k.w_amomd = V3(0.01, 0.01, 0.01); for (int t = 0; t < T; t++) { k.rc.push_back(V3(t, 1, 2)); k.rl.push_back(V3(0.1 * t, 0.2, -0.1)); k.ra.push_back(V3(0, 0.1 * t, 0.3)); }
    Session s; s.load(k); std::string out = cfgfile() + ".out"; s.set.get(PlannerStringParam_SaveDynamicsFile) = out; s.run(k); YAML::Node root = YAML::LoadFile(out), n = root["dynopt_params"]; unlink(out.c_str()); auto& q = s.opt.dynamicsSequence();
    auto cmp = [&](const std::string& key, int rows, const std::function<V(int)>& f) { M m; try { m = n[key].as<M>(); } catch (std::exception&) { vp::fail("file:" + key, key + " missing in " + str(k)); return; } if (m.rows() != rows || m.cols() != T) { vp::fail("file:" + key, key + " has the wrong size in " + str(k)); return; } for (int t = 0; t < T; t++) if (!((m.col(t) - f(t)).norm() <= 1e-9 * (1 + f(t).norm()))) { std::ostringstream o; o << key << " at step " << t << " is " << m.col(t).transpose() << " instead of " << f(t).transpose(); vp::fail("file:" + key, o.str() + " in " + str(k)); return; } };
    cmp("com_motion", 3, [&](int t) { return V(q.dynamicsState(t).centerOfMass()); }); cmp("lin_mom", 3, [&](int t) { return V(q.dynamicsState(t).linearMomentum()); }); cmp("ang_mom", 3, [&](int t) { return V(q.dynamicsState(t).angularMomentum()); });
    cmp("com_motion_ref", 3, [&](int t) { return V(k.rc[t]); }); cmp("lin_mom_ref", 3, [&](int t) { return V(k.rl[t]); }); cmp("ang_mom_ref", 3, [&](int t) { return V(k.ra[t]); });
    cmp("time_vec", 1, [&](int t) { double d = 0; for (int u = 0; u <= t; u++) d += q.dynamicsState(u).time(); return V(V::Constant(1, d)); });
    for (int e = 0; e < nact; e++) { cmp("eef_frc_" + std::to_string(e), 3, [&](int t) { return V(at(k, e, t) ? q.dynamicsState(t).endeffectorForce(e) : V3::Zero()); }); cmp("eef_trq_" + std::to_string(e), 1, [&](int t) { return V(V::Constant(1, at(k, e, t) ? q.dynamicsState(t).endeffectorTorque(e).z() : 0)); }); }
    if (!(std::fabs(n["time_step"].as<double>() - k.dt) < 1e-9) || !(std::fabs(n["robot_mass"].as<double>() - k.mass) < 1e-9) || n["n_act_eefs"].as<int>() != nact || !((n["end_com"].as<V3>() - k.com - k.disp).norm() < 1e-9) || !((n["ini_com"].as<V3>() - k.com).norm() < 1e-9) || root["contact_plan"]["effcnt_rf"].size() != k.c[0].size()) vp::fail("file:params", "parameters in the file are wrong for " + str(k));
    vp::nontrivial(); }
  return vp::finish();
}
