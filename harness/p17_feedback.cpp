// Momentum feedback: the linear-quadratic controller around a planned motion uses the physics of the plan, and its
// force gains are those of the Riccati recursion on the momentum dynamics.
#define P16_NO_MAIN
#include "p16_lqr.cpp"
#include <momentumopt/dynopt/DynamicsFeedback.hpp>
#include <dynplan.hpp>
using namespace momentumopt;
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
static M3 skew(const V3& v) { M3 m; m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0; return m; }
struct Plan { int n, T; std::vector<std::vector<bool>> act; std::vector<double> dt; std::vector<std::vector<V3>> pos, frc; std::vector<V3> com, lm, am; V3 c0, l0, a0; };
struct Weights { V3 u, c, l, a, cf, lf, af; };
static V3 rnd() { double a = val(), b = val(), c = val(); return V3(a, b, c); }
// a plan that obeys physics (noise 0) or deviates from it
static Plan plan(int n, int T, unsigned bits, int seed, double m, const V3& g, int noise, bool vardt) {
  rs = seed * 2654435761u + 99; Plan p; p.n = n; p.T = T; p.c0 = V3(0.1, -0.05, 0.9) + 0.1 * rnd(); p.l0 = 0.2 * rnd(); p.a0 = 0.1 * rnd(); V3 c = p.c0, l = p.l0, a = p.a0;
  for (int t = 0; t < T; t++) { p.dt.push_back(vardt ? 0.1 + 0.05 * (t % 3) : 0.1); std::vector<bool> ac; std::vector<V3> po, fr; int k = 0; for (int e = 0; e < n; e++) { ac.push_back(bits >> (t * n + e) & 1); k += ac.back(); } V3 F = V3::Zero();
    for (int e = 0; e < n; e++) { po.push_back(V3(e % 2 ? 0.2 : -0.15, e / 2 ? 0.3 : -0.1, 0) + 0.05 * rnd()); fr.push_back(ac[e] ? V3(-m * g / k + 0.3 * rnd()) : V3::Zero()); F += fr.back(); }
    V3 c1 = c + p.dt[t] / m * (l + p.dt[t] * (m * g + F)); l += p.dt[t] * (m * g + F); c = c1; for (int e = 0; e < n; e++) if (ac[e]) a += p.dt[t] * (po[e] - c).cross(fr[e]);
    p.act.push_back(ac); p.pos.push_back(po); p.frc.push_back(fr); p.com.push_back(c + (noise ? V3(0.05 * rnd()) : V3::Zero())); p.lm.push_back(l + (noise ? V3(0.1 * rnd()) : V3::Zero())); p.am.push_back(a + (noise ? V3(0.1 * rnd()) : V3::Zero())); }
  return p; }
static void fill(DynamicsSequence& q, DynamicsState& s, const Plan& p, double mg) { q.resize(p.T); s = DynamicsState(); s.centerOfMass() = p.c0; s.linearMomentum() = p.l0; s.angularMomentum() = p.a0;
  for (int t = 0; t < p.T; t++) { auto& d = q.dynamicsState(t); d.time() = p.dt[t]; d.centerOfMass() = p.com[t]; d.linearMomentum() = p.lm[t]; d.angularMomentum() = p.am[t]; for (int e = 0; e < 4; e++) { bool a = e < p.n && p.act[t][e]; d.endeffectorActivation(e) = a; d.endeffectorPosition(e) = e < p.n ? p.pos[t][e] : V3(7, 8, 9); d.endeffectorForce(e) = a ? V3(p.frc[t][e] / mg) : V3(3, 2, 1); } } }
static V step(const Plan& p, int t, const V& x, const V& u, double m, const V3& g) { V y(9); V3 F = m * g; for (int e = 0; e < p.n; e++) if (p.act[t][e]) F += u.segment<3>(3 * e); V3 l = x.segment<3>(3) + p.dt[t] * F, c = x.segment<3>(0) + p.dt[t] / m * l, a = x.segment<3>(6); for (int e = 0; e < p.n; e++) if (p.act[t][e]) a += p.dt[t] * (p.pos[t][e] - c).cross(u.segment<3>(3 * e)); y << c, l, a; return y; }
static V W(const Weights& w, bool last) { V r(9); if (last) r << w.cf, w.lf, w.af; else r << w.c, w.l, w.a; return r; }
static V ref(const Plan& p, int t) { int i = t ? t - 1 : 0; V r(9); r << p.com[i], p.lm[i], p.am[i]; return r; }
static double cost(const Plan& p, const Weights& w, const std::vector<V>& x, const std::vector<V>& u) { double c = 0; for (int t = 0; t <= p.T; t++) { V e = x[t] - ref(p, t); c += e.dot(W(w, t == p.T).cwiseProduct(e)); if (t < p.T) for (int k = 0; k < p.n; k++) if (p.act[t][k]) { V3 f = u[t].segment<3>(3 * k); c += f.dot(w.u.cwiseProduct(f)); } } return c; }
static void jac(const Plan& p, int t, const V& x, const V& u, double m, const V3& g, M& A, M& B) { double h = p.dt[t]; A = M::Identity(9, 9); B = M::Zero(9, 3 * p.n); A.block<3, 3>(0, 3) = h / m * M3::Identity(); V y = step(p, t, x, u, m, g); V3 c = y.segment<3>(0), F = V3::Zero(); for (int e = 0; e < p.n; e++) if (p.act[t][e]) F += u.segment<3>(3 * e);
  // angular momentum: sum (r - c) x f, and c depends on x and u
  M3 dc = skew(F) * h;   // d(-c x F) = F x dc
  A.block<3, 3>(6, 0) = dc; A.block<3, 3>(6, 3) = dc * h / m;
  for (int e = 0; e < p.n; e++) if (p.act[t][e]) { B.block<3, 3>(3, 3 * e) = h * M3::Identity(); B.block<3, 3>(0, 3 * e) = h * h / m * M3::Identity(); B.block<3, 3>(6, 3 * e) = h * skew(p.pos[t][e] - c) + dc * h * h / m; } }
static std::string desc(const Plan& p) { std::ostringstream o; o << " for " << p.n << " end-effectors, contacts "; for (int t = 0; t < p.T; t++) { for (int e = 0; e < p.n; e++) o << (p.act[t][e] ? 1 : 0); o << " "; } return o.str(); }
static void check(OcpBase& o, const Plan& p, const Weights& w, double m, const V3& g, const std::string& key, const std::string& txt) {
  auto x = states(o), u = controls(o); V x0(9); x0 << p.c0, p.l0, p.a0; if ((x[0] - x0).norm() > 1e-12) { vp::fail(key + ":start", "motion starts at " + show({x[0]}) + txt); return; }
  for (int t = 0; t < p.T; t++) { V y = step(p, t, x[t], u[t], m, g); if (!((y - x[t + 1]).norm() <= 1e-9 * (1 + y.norm()))) { vp::fail(key + ":physics", "state " + std::to_string(t + 1) + " is " + show({x[t + 1]}) + " instead of " + show({y}) + txt); return; } }
  // no control change lowers the cost (adjoint gradient), and the gains are those of the Riccati recursion
  M S = 2 * W(w, true).asDiagonal(); V s = 2 * W(w, true).cwiseProduct(x[p.T] - ref(p, p.T)); double c = cost(p, w, x, u), gn = 0; std::vector<M> K(p.T);
  for (int t = p.T - 1; t >= 0; t--) { M A, B; jac(p, t, x[t], u[t], m, g, A, B); V R = V::Zero(3 * p.n); std::vector<int> on; for (int e = 0; e < p.n; e++) if (p.act[t][e]) { R.segment<3>(3 * e) = 2 * w.u; for (int i = 0; i < 3; i++) on.push_back(3 * e + i); }
    V gu = B.transpose() * s + R.cwiseProduct(u[t]); gn = std::max(gn, gu.norm() / (1 + u[t].norm())); s = A.transpose() * s + 2 * W(w, false).cwiseProduct(x[t] - ref(p, t)); M H = M(R.asDiagonal()) + B.transpose() * S * B, G = B.transpose() * S * A; K[t] = M::Zero(3 * p.n, 9);
    if (!on.empty()) { int k = on.size(); M h(k, k), gg(k, 9); for (int i = 0; i < k; i++) { gg.row(i) = G.row(on[i]); for (int j = 0; j < k; j++) h(i, j) = H(on[i], on[j]); } M kk = -h.ldlt().solve(gg); for (int i = 0; i < k; i++) K[t].row(on[i]) = kk.row(i); }
    S = M(2 * W(w, false).asDiagonal()) + A.transpose() * S * A + A.transpose() * S * B * K[t]; S = 0.5 * (S + S.transpose().eval()); }
  double lim = 2e-4 * (1 + c); vp::count("states", p.T + 1);
  if (getenv("P17_DEBUG")) { std::ofstream z(getenv("P17_DEBUG"), std::ios::app); z << "cost " << c << " grad " << gn << " x " << show(x) << " u " << show(u) << "\n"; }
  if (!(gn <= lim)) { vp::fail(key + ":optimum", "gradient " + num(gn) + " at cost " + num(c) + txt); return; }
  for (int t = 0; t < p.T; t++) { for (int e = 0; e < p.n; e++) if (!p.act[t][e] && u[t].segment<3>(3 * e).norm() > 1e-9) { vp::fail(key + ":idle", "force on an end-effector out of contact at step " + std::to_string(t) + txt); return; }
    const M& L = o.controlSeq().control(t).feedback(); if (L.rows() != 3 * p.n || L.cols() != 9 || !((L - K[t]).norm() <= 2e-3 * (1 + K[t].norm()))) { std::ostringstream q; q << "gain at step " << t << " is\n" << L << "\ninstead of\n" << K[t] << txt; vp::fail(key + ":gain", q.str()); return; } }
}
static std::string user(const Weights& w) { std::ostringstream o; auto put = [&](const char* k, const V3& v) { o << k << ": " << seq(v) << "\n    "; }; put("control_cost", w.u); put("com_tracking", w.c); put("lmom_tracking", w.l); put("amom_tracking", w.a); put("com_final_tracking", w.cf); put("lmom_final_tracking", w.lf); put("amom_final_tracking", w.af); return o.str() + "\n"; }
static Weights weights(int k) { Weights w; w.u = V3(0.01, 0.02, 0.005) * (k == 1 ? 10 : 1); w.c = V3(10, 20, 30); w.l = V3(1, 2, 0.5); w.a = V3(4, 3, 2); w.cf = V3(100, 50, 60); w.lf = V3(5, 6, 7); w.af = V3(9, 8, 11); if (k == 2) w.c = w.l = w.a = V3::Zero(); if (k == 3) { w.cf = w.lf = w.af = V3::Zero(); } return w; }
static void settings(PlannerSetting& s, int n, int T, double m, double g) { dp::Case k; k.nact = n; k.T = T; k.dt = 0.1; k.mass = m; k.g = g; std::string f = dp::cfgfile(); { std::ofstream o(f); o << dp::yaml(k); } s.initialize(f); unlink(f.c_str()); }
static Set lqrset(int n, int T, const Weights& w) { Set g; g.T = T; g.dt = 0.1; g.x = 9; g.u = 3 * n; g.user = user(w); g.iters = 60; return g; }
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet quiet;
  auto one = [&](int n, int T, unsigned bits, int seed, int wk, int noise, bool vd, int reuse) {
    double m = seed % 2 ? 2 : 5, gr = 9.81; Plan p = plan(n, T, bits, seed, m, V3(0, 0, -gr), noise, vd); Weights w = weights(wk); PlannerSetting ps; settings(ps, n, T, m, gr); V3 g = ps.get(PlannerVectorParam_GravityVector); if ((g - V3(0, 0, -gr)).norm() > 1e-12) vp::fail("gravity", "gravity is " + show({g}));
    SolverLqrSetting ls; load(ls, lqrset(n, T, w)); DynamicsSequence q; DynamicsState ini; std::string txt = desc(p) + "weights " + std::to_string(wk) + " noise " + std::to_string(noise) + " seed " + std::to_string(seed); vp::sample([&] { return txt; });
    DynamicsFeedback d; SolverLqr l; d.initialize(ls); d.setPlannerSetting(ps); l.initialize(&d, ls); DynamicsFeedbackWrapper wr; wr.initialize(ls, ps);
    if (reuse) { Plan a = plan(n, T, reuse == 1 ? ~0u : ~bits, seed + 77, m, g, 1, !vd); DynamicsSequence q0; DynamicsState i0; fill(q0, i0, a, m * gr); d.setStatesAndControls(i0, q0); l.optimize(); wr.optimize(i0, q0); }
    fill(q, ini, p, m * gr); d.setStatesAndControls(ini, q); double before = 0; { std::vector<V> u0; for (int t = 0; t < T; t++) { V u(3 * n); for (int e = 0; e < n; e++) u.segment<3>(3 * e) = p.frc[t][e]; u0.push_back(u); if ((u - d.controlSeq().control(t).feedforward()).norm() > 1e-9 * (1 + u.norm())) vp::fail("forces", "first controls are not the planned forces" + txt); } V x0(9); x0 << p.c0, p.l0, p.a0; std::vector<V> x = {x0}; for (int t = 0; t < T; t++) x.push_back(step(p, t, x[t], u0[t], m, g)); before = cost(p, w, x, u0); }
    l.optimize(); vp::nontrivial(); vp::count("transitions", T); check(d, p, w, m, g, reuse ? "again" : "plan", txt); double after = cost(p, w, states(d), controls(d)); if (!(after <= before * (1 + 1e-9) + 1e-12)) vp::fail("worse", "tracking cost " + num(after) + " after " + num(before) + txt);
    wr.optimize(ini, q); for (int t = -1; t <= T + 1; t++) { M a = wr.forceGain(t), b = d.controlSeq().control(std::min(std::max(t, 0), T - 1)).feedback(); if (a.rows() != b.rows() || a.cols() != b.cols() || (a - b).norm() > 1e-9 * (1 + b.norm())) { vp::fail("wrapper", "gain " + std::to_string(t) + " differs" + txt); break; } } };
  for (int n = 1; n <= 4; n++) for (int T = 1; T <= 3; T++) for (unsigned b = 0; b < (1u << (n * T)); b++) { unsigned h = b * 2654435761u + n * 40503u + T * 9176u; h ^= h >> 15; if (n * T > (th ? 8 : 6) && h % (th ? 8 : 64)) continue; if (vp::next("pattern")) one(n, T, b, h % 1000, h % 4, h / 4 % 3 > 0, h / 16 % 2, h / 32 % 3); }
  for (int n = 1; n <= 2; n++) for (int T = 4; T <= (th ? 10 : 6); T++) for (int k = 0; k < (th ? 24 : 8); k++) if (vp::next("long")) one(n, T, 0x9b5d37f1u * (k + 3) + T, k * 13 + T, k % 4, k % 3, k % 2, k / 2 % 3);
  // sizes that do not match are refused
  for (int n = 1; n <= 4; n++) for (int T = 1; T <= 4; T++) for (int S = 1; S <= 5; S++) if (vp::next("sizes")) {
    Plan p = plan(n, S, ~0u, 3, 2, V3(0, 0, -9.81), 0, false); PlannerSetting ps; settings(ps, n, T, 2, 9.81); SolverLqrSetting ls; load(ls, lqrset(n, T, weights(0))); DynamicsSequence q; DynamicsState ini; fill(q, ini, p, 2 * 9.81); DynamicsFeedbackWrapper wr; wr.initialize(ls, ps); bool thrown = false; try { wr.optimize(ini, q); } catch (std::exception&) { thrown = true; } vp::nontrivial();
    if (thrown != (S != T)) vp::fail("sizes", std::string(thrown ? "refused " : "accepted ") + std::to_string(S) + " planned steps for " + std::to_string(T)); }
  vp::finish();
}
