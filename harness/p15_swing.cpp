// Swing motions: interpolated trajectories against their closed form, and the poses written for every step of a
// flight against the schedule.
#define P14_NO_MAIN
#include "p14_contacts.cpp"
#include <momentumopt/utilities/TrajectoryGenerator.hpp>
// sixth order polynomial from a through v (half way) to b, at rest with zero acceleration at both ends
static void closed(double a, double v, double b, double D, double s, double& p, double& d, double& dd) {
  s = std::min(std::max(s, 0.), 1.); double w = 64 * (v - 0.5 * (a + b)), u = 1 - s;
  p = a + (b - a) * s * s * s * (10 - 15 * s + 6 * s * s) + w * s * s * s * u * u * u;
  d = ((b - a) * 30 * s * s * u * u + w * 3 * s * s * u * u * (1 - 2 * s)) / D;
  dd = ((b - a) * 60 * s * u * (1 - 2 * s) + w * (6 * s * u * (u - s) * (1 - 2 * s) - 6 * s * s * u * u)) / (D * D);
}
// one effector's poses over the steps of a filled sequence against its schedule
static bool judge(const Plan& p, int e, const DynamicsState& ini, DynamicsSequence& q, int T, double dt, const std::vector<double>& time, const std::string& key, const std::string& tag) {
    auto at = [&](int t) { int id = -1; for (size_t i = 0; i < p.c[e].size(); i++) if ((t + 1) * dt >= p.c[e][i].t0 && (t + 1) * dt < p.c[e][i].t1) id = i; return id; };
    for (int t = 0; t < T; t++) { auto& x = q.dynamicsState(t); std::string w = std::string(" of ") + EFF[e] + " at step " + std::to_string(t) + " of " + std::to_string(T) + " in" + str(p) + " dt " + num(dt) + tag; int id = at(t);
      if (id >= 0) { if (x.endeffectorPosition(e) != p.c[e][id].p || x.endeffectorVelocity(e).norm() > 0 || x.endeffectorAcceleration(e).norm() > 0 || x.endeffectorOrientation(e).angularDistance(p.c[e][id].q) > 1e-7) { vp::fail(key + ":contact", "moves in contact" + w); return false; } continue; }
      int a = t, b = t; while (a > 0 && at(a - 1) < 0) a--; while (b + 1 < T && at(b + 1) < 0) b++;
      int from = a > 0 ? at(a - 1) : -1, to = b + 1 < T ? at(b + 1) : -1; V3 P = from >= 0 ? p.c[e][from].p : ini.endeffectorPosition(e), E = to >= 0 ? p.c[e][to].p : V3(ini.endeffectorPosition(e) + V3(0.3, -0.2, 0.1)), M = 0.5 * (P + E);
      Q qa = from >= 0 ? p.c[e][from].q : ini.endeffectorOrientation(e), qb = to >= 0 ? p.c[e][to].q : ini.endeffectorOrientation(e); for (auto& y : p.v[e]) if (y.id == from) { M = y.p; break; }
      double ti = time[a + 1], te = time[b + 1], r = 0; if (a == b) { ti = time[a]; if (b + 1 < T) te = time[b + 2]; }
      V3 X, W, A; for (int i = 0; i < 3; i++) { closed(P[i], M[i], E[i], te - ti, (time[t + 1] - ti) / (te - ti), X[i], W[i], A[i]); } double D = te - ti, tol = 1e-9; r = std::max((x.endeffectorPosition(e) - X).norm(), std::max((x.endeffectorVelocity(e) - W).norm() * D / 10, (x.endeffectorAcceleration(e) - A).norm() * D * D / 100));
      bool finite = x.endeffectorPosition(e).allFinite() && x.endeffectorVelocity(e).allFinite() && x.endeffectorAcceleration(e).allFinite() && x.endeffectorOrientation(e).coeffs().allFinite();
      if (!finite) { vp::fail(key + ":finite", "pose is not finite" + w); return false; }
      if (!(r <= tol)) { std::ostringstream o; o << "position " << x.endeffectorPosition(e).transpose() << " velocity " << x.endeffectorVelocity(e).transpose() << " instead of " << X.transpose() << " and " << W.transpose() << w; vp::fail(key + ":motion", o.str()); return false; }
      double f = std::min(2. * (t - a) / (b + 1. - a), 1.); if (!(x.endeffectorOrientation(e).angularDistance(qa.slerp(f, qb)) <= 1e-6)) { vp::fail(key + ":orientation", "orientation" + w); return false; } }
  return true;
}
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet quiet; unsigned s = 3;
  for (double t0 : {0., 0.05, 0.4, 1., 2.5, 5., 9.6, 60.}) for (double D : {0.1, 0.2, 0.25, 0.5, 1., 2.}) for (int n = 0; n < (th ? 40 : 10); n++) if (vp::next("curve")) {
    s = n * 11 + 5; V3 a(val(s), val(s), val(s)), b(val(s), val(s), val(s)), v(val(s), val(s), val(s)); if (n == 0) a = b = v = V3::Zero(); if (n == 1) { b = a; v = a; } if (n == 2) { b = a; v = a + V3(0, 0, 0.1); }
    TrajectoryGenerator g; if (n % 2) g.initialize(0.3, b, 0.9, v, a); g.initialize(t0, a, t0 + D, b, v); double tol = 1e-9; vp::nontrivial();
    for (int k = -2; k <= 18; k++) { double q = k / 16., p[3], d[3], dd[3]; g.update(t0 + q * D); for (int i = 0; i < 3; i++) { closed(a[i], v[i], b[i], D, q, p[i], d[i], dd[i]); double r = std::max(std::fabs(g.desPos()[i] - p[i]), std::max(std::fabs(g.desVel()[i] - d[i]) * D / 10, std::fabs(g.desAcc()[i] - dd[i]) * D * D / 100));
        if (!(r <= tol)) { std::ostringstream o; o << "at " << q << " of the way from " << a[i] << " through " << v[i] << " to " << b[i] << " (time " << t0 << " to " << t0 + D << "): " << g.desPos()[i] << ", " << g.desVel()[i] << ", " << g.desAcc()[i] << " instead of " << p[i] << ", " << d[i] << ", " << dd[i]; vp::fail("curve:point", o.str()); k = 99; break; } } } }
  // interpolation through any number of waypoints
  for (int np = 2; np <= 4; np++) for (int nv = 1; nv <= np; nv++) for (int na = 1; na <= nv; na++) for (int n = 0; n < 8; n++) if (vp::next("waypoints")) {
    s = n * 7 + np * 3 + nv * 5 + na; Interpolator I; Interpolator::InterpMat P(np, 2), W(nv, 2), A(na, 2); auto times = [&](Interpolator::InterpMat& m, double o) { for (int i = 0; i < m.rows(); i++) { m(i, 0) = n % 2 * 0.5 + o + i * 0.5; m(i, 1) = val(s); } }; times(P, 0); times(W, 0); times(A, 0); I.initialize(P, W, A); vp::nontrivial(); double p, d, dd, m = 0;
    for (int i = 0; i < np; i++) { I.interpolate(P(i, 0), p, d, dd); m = std::max(m, std::fabs(p - P(i, 1))); if (!(p == p)) m = 1e9; } for (int i = 0; i < nv; i++) { I.interpolate(W(i, 0), p, d, dd); m = std::max(m, std::fabs(d - W(i, 1))); if (!(d == d)) m = 1e9; } for (int i = 0; i < na; i++) { I.interpolate(A(i, 0), p, d, dd); m = std::max(m, std::fabs(dd - A(i, 1))); if (!(dd == dd)) m = 1e9; }
    double lo = std::min(std::min(P(0, 0), W(0, 0)), A(0, 0)), hi = std::max(std::max(P(np - 1, 0), W(nv - 1, 0)), A(na - 1, 0)), p1, d1, a1; I.interpolate(lo, p, d, dd); I.interpolate(lo - 1, p1, d1, a1); if (!(std::fabs(p - p1) < 1e-12)) vp::fail("waypoints:before", "moves before the first waypoint"); I.interpolate(hi, p, d, dd); I.interpolate(hi + 1, p1, d1, a1); if (!(std::fabs(p - p1) < 1e-12)) vp::fail("waypoints:after", "moves after the last waypoint");
    if (!(m <= 1e-7)) vp::fail("waypoints:met", "a waypoint is missed by " + num(m) + " with " + std::to_string(np) + "/" + std::to_string(nv) + "/" + std::to_string(na) + " waypoints"); }
  // flights: every activation pattern of one effector over T steps, runs optionally split into two contacts
  for (int T = 1; T <= (th ? 8 : 7); T++) for (int bits = 0; bits < 1 << T; bits++) for (int v = 0; v < (th ? 12 : 6); v++) if (vp::next("flight")) {
    double dt = v % 2 ? 0.25 : 0.125; int e = (bits + v) % 4; Plan p; s = bits * 5 + v; bool split = v % 3 == 1; Loaded l;
    for (int t = 0, k = 0; t < T;) { if (!(bits >> t & 1)) { t++; continue; } int u = t; while (u < T && (bits >> u & 1)) u++; if (split && u - t > 1) { int m = t + (u - t) / 2; p.c[e].push_back(contact(s, (t + 1) * dt, (m + 1) * dt, k++)); t = m; } p.c[e].push_back(contact(s, (t + 1) * dt, (u + 1) * dt, k++)); t = u; }
    if (v == 2) p.c[e].push_back(contact(s, (T + 2) * dt, (T + 4) * dt, 1));   // a contact beyond the horizon
    if (p.c[e].empty()) p.c[e].push_back(contact(s, 0, 0, 0));                 // a contact that is never active, as in the configuration of bolt
    int none = v == 3 ? -99 : 0; if (!none) for (int i = -1; i < (int)p.c[e].size(); i++) if (v % 2 || i % 2) { p.v[e].push_back({i, V3(val(s), val(s), val(s)), quat(s)}); if (v == 5) p.v[e].push_back({i, V3(9, 9, 9), quat(s)}); }
    l.load(p, dt, T, true); DynamicsState ini = l.ini; ini.endeffectorActivation(e) = v == 4 || (bits & 1); DynamicsSequence q; q.resize(T); std::vector<double> time(T + 2, 0.); for (int t = 0; t < T; t++) { q.dynamicsState(t).time() = v >= 4 ? dt * (0.5 + 0.25 * (t * 7 % 4)) : dt; time[t + 1] = time[t] + q.dynamicsState(t).time(); }
    l.plan.fillDynamicsSequence(ini, q); if (v == 1) for (int t = 0; t < T; t++) q.dynamicsState(t).endeffectorPosition((e + 1) % 4) = V3(7, 7, 7); l.plan.updateEndeffectorTrajectories(ini, q); vp::nontrivial();
    judge(p, e, ini, q, T, dt, time, "flight", " v" + std::to_string(v));
    for (int t = 0; t < T; t++) for (int o = 0; o < 4; o++) if (o != e) { auto& x = q.dynamicsState(t); if (!(x.endeffectorPosition(o) - (v == 1 && o == (e + 1) % 4 ? V3(7, 7, 7) : V3::Zero())).isZero() || x.endeffectorActivation(o)) { vp::fail("flight:others", "an effector without contacts was moved"); t = T; break; } } }
  // two effectors with schedules and viapoints of their own, then another plan read by the same object into the same sequence
  for (int T = 2; T <= (th ? 6 : 5); T++) for (int bits = 0; bits < 1 << T; bits++) for (int v = 0; v < (th ? 6 : 3); v++) if (vp::next("again")) {
    double dt = v % 2 ? 0.25 : 0.125; s = bits * 11 + v + T; Loaded l; DynamicsSequence q; q.resize(T); std::vector<double> time(T + 2, 0.); for (int t = 0; t < T; t++) { q.dynamicsState(t).time() = v % 3 == 2 ? dt * (0.5 + 0.25 * (t * 5 % 4)) : dt; time[t + 1] = time[t] + q.dynamicsState(t).time(); }
    bool ok = true; std::string tag = " v" + std::to_string(v); for (int use = 0; use < 3 && ok; use++) {
      Plan p; int pat[4] = {bits, (bits * 5 + 3 + use) % (1 << T), (bits ^ (1 << T) - 1), (bits >> 1) ^ use}; std::vector<int> who = {(bits + use) % 4, (bits + use + 1 + v % 3) % 4};
      for (int e : who) { int b = pat[(e + use) % 4]; for (int t = 0, k = 0; t < T;) { if (!(b >> t & 1)) { t++; continue; } int u = t; while (u < T && (b >> u & 1)) u++; p.c[e].push_back(contact(s, (t + 1) * dt, (u + 1) * dt, k++)); t = u; } if (p.c[e].empty()) p.c[e].push_back(contact(s, 0, 0, 0));
        for (int i = -1; i < (int)p.c[e].size(); i++) if ((i + e + use) % 2) p.v[e].push_back({i, V3(val(s), val(s), val(s)), quat(s)}); }
      l.load(p, dt, T, true); DynamicsState ini = l.ini; for (int e = 0; e < 4; e++) ini.endeffectorPosition(e) += V3(0.01 * use, 0, 0.02 * e); l.plan.fillDynamicsSequence(ini, q); l.plan.updateEndeffectorTrajectories(ini, q); if (v == 1) l.plan.updateEndeffectorTrajectories(ini, q); vp::nontrivial();
      for (int e : who) ok = ok && judge(p, e, ini, q, T, dt, time, "again", tag + " use " + std::to_string(use)); } }
  // without kinematics nothing is added
  for (int bits = 0; bits < 32; bits++) if (vp::next("off")) { Plan p; s = bits; for (int t = 0; t < 5; t++) if (bits >> t & 1) p.c[t % 4].push_back(contact(s, (t + 1) * 0.25, (t + 2) * 0.25, t)); Loaded l; l.load(p, 0.25, 5, false); DynamicsSequence q; q.resize(5); l.plan.fillDynamicsSequence(l.ini, q); l.plan.updateEndeffectorTrajectories(l.ini, q); check_steps(p, q, 5, 0.25, "off", " in" + str(p)); vp::nontrivial(); for (int t = 0; t < 5; t++) for (int e = 0; e < 4; e++) if (!q.dynamicsState(t).endeffectorActivation(e) && !q.dynamicsState(t).endeffectorPosition(e).isZero()) vp::fail("off:moved", "moved without kinematics"); }
  return vp::finish();
}
