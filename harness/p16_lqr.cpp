// Optimal control: solutions of linear-quadratic problems are optimal with the gains of the Riccati recursion, limits
// hold, no run makes a trajectory worse or inconsistent, and derivatives are those of the model.
#include <solver_lqr/SolverLqr.hpp>
#include <vp.hpp>
#include <unistd.h>
using namespace solverlqr;
typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
static std::string num(double d) { char b[40]; snprintf(b, 40, "%.17g", d); return b; }
static std::string seq(const V& v) { std::string s = "["; for (int i = 0; i < v.size(); i++) s += (i ? ", " : "") + num(v[i]); return s + "]"; }
struct Set { int T = 3, x = 1, u = 1, iters = 40, ncoef = 10; double dt = 0.5, reg = 0, minreg = 1e-6, maxreg = 1e10, mult = 1.6, grad = 1e-6, cost = 1e-12, coef = 1.1, div = 1e6; bool limits = false, store = false; V lo, hi; std::string user = "weight: 3.5\n"; };
static std::string file() { return "lqr_" + std::to_string(getpid()) + ".yaml"; }
static std::string yaml(const Set& s) {
  std::ostringstream o; o << "solverlqr_variables:\n"; auto put = [&](const char* k, const std::string& v) { o << "  " << k << ": " << v << "\n"; };
  put("verbosity", "0"); put("lqr_max_iters", num(s.iters)); put("decimal_digits", "4"); put("bpass_regularization_type", "2"); put("cost_change_tolerance", num(s.cost)); put("divergence_limit_check", num(s.div));
  put("bpass_min_regularization", num(s.minreg)); put("bpass_max_regularization", num(s.maxreg)); put("control_gradient_tolerance", num(s.grad)); put("bpass_initial_regularization", num(s.reg)); put("min_expected_cost_improvement", "0.2");
  put("bpass_mult_regularization_incr", num(s.mult)); put("bpass_initial_mult_regularization_incr", "1.0"); put("linesearch_coeff", num(s.coef)); put("linesearch_num_coeffs", num(s.ncoef)); put("store_data", s.store ? "true" : "false");
  put("time_step", num(s.dt)); put("time_horizon", num(s.dt * s.T)); put("state_dimension", num(s.x)); put("control_dimension", num(s.u)); put("initial_state", seq(V::Zero(s.x))); put("has_control_limits", s.limits ? "true" : "false");
  if (s.limits) { put("min_control_limits", seq(s.lo)); put("max_control_limits", seq(s.hi)); } o << "  user_parameters:\n    " << s.user; return o.str();
}
static void load(SolverLqrSetting& g, const Set& s) { { std::ofstream o(file()); o << yaml(s); } g.initialize(file()); unlink(file().c_str()); }
// x' = A x + B u + c at every step, cost 1/2 x'Qx + u'Px + 1/2 u'Ru + q'x + r'u, final cost 1/2 x'Fx + f'x
struct Stage { M A, B, Q, P, R; V c, q, r; };
struct Lq : OcpBase {
  std::vector<Stage> s; M F; V f, x0; double weight = 0; long calls = 0;
  void configure(const YAML::Node& n) { weight = n["weight"].as<double>(); }
  StateBase dynamics(const StateBase& x, const ControlBase& u, int t) { calls++; StateBase d(x.stateVector().size()); const Stage& g = s.at(t); d.stateVector() = g.A * x.stateVector() - x.stateVector() + g.B * u.feedforward() + g.c; return d; }
  double objective(const StateBase& X, const ControlBase& U, int t, bool last) { const V& x = X.stateVector(); const V& u = U.feedforward(); if (last) return 0.5 * x.dot(F * x) + f.dot(x); const Stage& g = s.at(t); return 0.5 * x.dot(g.Q * x) + u.dot(g.P * x) + 0.5 * u.dot(g.R * u) + g.q.dot(x) + g.r.dot(u); }
};
static double total(OcpBase& o, const std::vector<V>& x, const std::vector<V>& u) { double c = 0; StateBase X(x[0].size()); ControlBase U(u[0].size(), x[0].size()); for (size_t t = 0; t < u.size(); t++) { X.stateVector() = x[t]; U.feedforward() = u[t]; c += o.objective(X, U, t, false); } X.stateVector() = x.back(); U.feedforward().setZero(); return c + o.objective(X, U, u.size(), true); }
static std::vector<V> roll(OcpBase& o, const V& x0, const std::vector<V>& u) { std::vector<V> x = {x0}; StateBase X(x0.size()); ControlBase U(x0.size(), u[0].size()); for (size_t t = 0; t < u.size(); t++) { X.stateVector() = x[t]; U.feedforward() = u[t]; x.push_back(x[t] + o.dynamics(X, U, t).stateVector()); } return x; }
static std::vector<V> states(OcpBase& o) { std::vector<V> r; for (int t = 0; t <= o.tdim(); t++) r.push_back(o.stateSeq().state(t).stateVector()); return r; }
static std::vector<V> controls(OcpBase& o) { std::vector<V> r; for (int t = 0; t < o.tdim(); t++) r.push_back(o.controlSeq().control(t).feedforward()); return r; }
static std::string show(const std::vector<V>& v) { std::ostringstream o; for (auto& x : v) o << "[" << x.transpose() << "]"; return o.str(); }
// dense optimum over all controls, optionally within limits (projected coordinate descent to high accuracy)
static std::vector<V> optimum(const Lq& o, const V& x0, int nu, const V* lo = nullptr, const V* hi = nullptr) {
  int T = o.s.size(), nx = x0.size(), n = T * nu; M H = M::Zero(n, n), G = M::Zero(nx, n); V g = V::Zero(n), a = x0;
  for (int t = 0; t < T; t++) { auto& s = o.s[t]; M E = M::Zero(nu, n); E.middleCols(t * nu, nu).setIdentity(); H += G.transpose() * s.Q * G + E.transpose() * s.P * G + G.transpose() * s.P.transpose() * E + E.transpose() * s.R * E; g += G.transpose() * (s.Q * a + s.q) + E.transpose() * (s.P * a + s.r); if (0) g += G.transpose() * s.P.transpose() * V::Zero(nu); a = s.A * a + s.c; G = s.A * G + s.B * E; }
  H += G.transpose() * o.F * G; g += G.transpose() * (o.F * a + o.f); V z;
  if (!lo) z = H.ldlt().solve(-g); else { z = V::Zero(n); for (int i = 0; i < n; i++) z[i] = std::min(std::max(0., (*lo)[i % nu]), (*hi)[i % nu]); for (int k = 0; k < 20000; k++) { double m = 0; for (int i = 0; i < n; i++) { double d = z[i] - (H.row(i).dot(z) + g[i]) / H(i, i); d = std::min(std::max(d, (*lo)[i % nu]), (*hi)[i % nu]); m = std::max(m, std::fabs(d - z[i])); z[i] = d; } if (m < 1e-13) break; } }
  std::vector<V> u; for (int t = 0; t < T; t++) u.push_back(z.segment(t * nu, nu)); return u;
}
static std::vector<M> gains(const Lq& o, double lambda = 0) { int T = o.s.size(); std::vector<M> K(T); M S = o.F; for (int t = T - 1; t >= 0; t--) { auto& s = o.s[t]; M H = s.R + s.B.transpose() * S * s.B + lambda * M::Identity(s.R.rows(), s.R.rows()), G = s.P + s.B.transpose() * S * s.A; K[t] = -H.ldlt().solve(G); S = s.Q + s.A.transpose() * S * s.A + K[t].transpose() * G + G.transpose() * K[t] + K[t].transpose() * H * K[t]; S = 0.5 * (S + S.transpose().eval()); } return K; }
static void start(OcpBase& o, const V& x0, const std::vector<V>& u) { o.stateSeq().state(0).stateVector() = x0; for (size_t t = 0; t < u.size(); t++) o.controlSeq().control(t).feedforward() = u[t]; }
// x0 is kept, states follow from the controls
static bool consistent(OcpBase& o, const V& x0, const std::string& key, const std::string& w) {
  auto x = states(o), r = roll(o, x0, controls(o)); double m = 0; for (size_t t = 0; t < x.size(); t++) { if (x[t].size() != x0.size() || !x[t].allFinite()) { m = 1e9; break; } m = std::max(m, (x[t] - r[t]).norm() / (1 + r[t].norm())); }
  if (!(m <= 1e-9)) { vp::fail(key + ":rollout", "states " + show(x) + " are not those of the controls " + show(controls(o)) + w); return false; } return true; }
static unsigned rs; static double val() { rs = rs * 1103515245u + 12345u; return ((rs >> 12) % 9 - 4.0) / 4.0; }
static M mat(int r, int c) { M m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = val(); return m; }
// sizes x, u, T; kind 0: general, 1: no linear terms (optimum at zero from zero), 2: constant matrices
static Lq lq(int x, int u, int T, int seed, int kind) {
  rs = seed * 2654435761u + 17; Lq o; for (int t = 0; t < T; t++) { if (t && kind == 2) { o.s.push_back(o.s[0]); continue; } Stage s; s.A = M::Identity(x, x) + 0.5 * mat(x, x); s.B = mat(x, u); M W = mat(x + u, x + u); M N = 0.5 * W * W.transpose(); s.Q = N.topLeftCorner(x, x); s.P = N.bottomLeftCorner(u, x); s.R = N.bottomRightCorner(u, u) + 0.5 * M::Identity(u, u); s.c = kind == 1 ? V::Zero(x) : V(mat(x, 1)); s.q = kind == 1 ? V::Zero(x) : V(mat(x, 1)); s.r = kind == 1 ? V::Zero(u) : V(mat(u, 1)); o.s.push_back(s); }
  M W = mat(x, x); o.F = W * W.transpose(); o.f = kind == 1 ? V::Zero(x) : V(mat(x, 1)); o.x0 = mat(x, 1); return o; }
static void check_optimum(Lq& o, const V& x0, int nu, double tol, bool fb, const std::string& key, const std::string& w) {
  auto u = controls(o), z = optimum(o, x0, nu); double m = 0, n = 1; for (size_t t = 0; t < u.size(); t++) { m = std::max(m, (u[t] - z[t]).norm()); n = std::max(n, z[t].norm()); }
  double c = total(o, roll(o, x0, u), u), b = total(o, roll(o, x0, z), z);
  if (!(c <= b + tol * (1 + std::fabs(b)))) { vp::fail(key + ":cost", "cost " + num(c) + " although " + num(b) + " is possible" + w); return; }
  if (!(m <= 30 * std::sqrt(tol) * n)) { vp::fail(key + ":controls", "controls " + show(u) + " instead of " + show(z) + w); return; }
  if (fb) { auto K = gains(o); for (size_t t = 0; t < u.size(); t++) { const M& L = o.controlSeq().control(t).feedback(); if (L.rows() != K[t].rows() || L.cols() != K[t].cols() || !((L - K[t]).norm() <= 2e-3 * (1 + K[t].norm()))) { std::ostringstream s; s << "gain at step " << t << " is\n" << L << "\ninstead of\n" << K[t] << w; vp::fail(key + ":gain", s.str()); return; } } }
}
// smooth nonlinear problems with bounded dynamics
struct Nl : OcpBase {
  int kind = 0; V goal; double wu = 0.1; void configure(const YAML::Node&) {}
  StateBase dynamics(const StateBase& X, const ControlBase& U, int t) { const V& x = X.stateVector(); const V& u = U.feedforward(); StateBase d(x.size()); double h = 0.25; V& r = d.stateVector();
    if (kind == 0) { r << h * x[1], h * (std::sin(x[0]) + u[0]); } else if (kind == 1) { r << h * std::cos(x[1]) * u[0], h * (u[1] + 0.1 * t); } else r << h * (x[1] + 0.2 * x[0] * x[0]), h * (u[0] - x[0] * x[0] * x[0]); return d; }
  double objective(const StateBase& X, const ControlBase& U, int, bool last) { V e = X.stateVector() - goal; double c = (last ? 10 : 0.5) * e.squaredNorm(); if (!last) c += wu * U.feedforward().squaredNorm(); return c; }
};
// polynomial model of degree two for the derivatives; every coefficient distinct
struct Poly : OcpBase {
  int nx, nu; std::vector<M> h; M g; V k; M Hc; V gc; void configure(const YAML::Node&) {}
  V z(const StateBase& X, const ControlBase& U) { V r(nx + nu); r << X.stateVector(), U.feedforward(); return r; }
  StateBase dynamics(const StateBase& X, const ControlBase& U, int t) { V v = z(X, U); StateBase d(nx); for (int i = 0; i < nx; i++) d.stateVector()[i] = (1 + 0.5 * t) * 0.5 * v.dot(h[i] * v) + g.row(i).dot(v) + k[i] - v[i]; return d; }
  double objective(const StateBase& X, const ControlBase& U, int t, bool last) { V v = z(X, U); return (last ? 2 : 1) * ((1 + 0.25 * t) * 0.5 * v.dot(Hc * v) + gc.dot(v)); }
};
struct Bare : OcpBase { void configure(const YAML::Node&) {} std::function<V(const V&, const V&, int)> fn; StateBase dynamics(const StateBase& x, const ControlBase& u, int t) { StateBase d(x.stateVector().size()); d.stateVector() = fn(x.stateVector(), u.feedforward(), t); return d; } double objective(const StateBase& x, const ControlBase& u, int, bool l) { return x.stateVector().squaredNorm() + (l ? 0 : u.feedforward().squaredNorm()); } };
#ifndef P16_NO_MAIN
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet quiet;
  // scalar problems on a grid
  const double AS[] = {-1, 0, 0.5, 1, 2}, BS[] = {-1, 0, 0.5, 2};
  for (double A : AS) for (double B : BS) for (int qp = 0; qp < 4; qp++) for (double R : {0.5, 2.}) for (int T = 1; T <= (th ? 5 : 3); T++) for (double x0 : {0., 1., -2.}) for (int lin = 0; lin < 4; lin++) for (double u0 : {0., 1.5}) if (vp::next("scalar")) {
    Lq o; Stage s; auto m = [](double v) { return M::Constant(1, 1, v); }; auto v = [](double x) { return V::Constant(1, x); }; s.A = m(A); s.B = m(B); s.Q = m(qp ? 1 : 0); s.P = m(qp == 2 ? 0.5 : qp == 3 ? -0.5 : 0); s.R = m(R); s.c = v(lin == 2 ? 0.5 : 0); s.q = v(lin == 1 ? 1 : 0); s.r = v(lin == 3 ? -1 : 0); for (int t = 0; t < T; t++) o.s.push_back(s); o.F = m(qp % 2 ? 3 : 1); o.f = v(lin == 1 ? -1 : 0);
    Set g; g.T = T; SolverLqrSetting st; load(st, g); o.initialize(st); start(o, v(x0), std::vector<V>(T, v(u0))); SolverLqr l; l.initialize(&o, st); l.optimize(); vp::nontrivial(); std::string w = " for a=" + num(A) + " b=" + num(B) + " q" + std::to_string(qp) + " r=" + num(R) + " T=" + std::to_string(T) + " x0=" + num(x0) + " lin" + std::to_string(lin) + " u0=" + num(u0); vp::sample([&] { return w; });
    if (consistent(o, v(x0), "scalar", w)) check_optimum(o, v(x0), 1, 1e-7, true, "scalar", w); }
  // problems of several dimensions, times, starts; regularisation and line search settings
  for (int x = 1; x <= 3; x++) for (int u = 1; u <= 3; u++) for (int T = 1; T <= (th ? 8 : 4); T++) for (int n = 0; n < (th ? 30 : 9); n++) if (vp::next("lq")) {
    Lq o = lq(x, u, T, n + 100 * T + 1000 * x + 10000 * u, n % 3); Set g; g.T = T; g.x = x; g.u = u; g.reg = n % 3 == 2 ? 0.1 : 0; g.coef = n % 2 ? 1.1 : 2; SolverLqrSetting st; load(st, g); o.initialize(st); if (o.weight != 3.5) vp::fail("lq:parameters", "user parameters were not handed on");
    V x0 = n == 4 ? V::Zero(x) : o.x0; std::vector<V> u0(T, V::Zero(u)); if (n % 4 == 1) u0 = optimum(o, x0, u); if (n % 4 == 2) for (auto& y : u0) y = mat(u, 1); start(o, x0, u0);
    SolverLqr l; l.initialize(&o, st); l.optimize(); vp::nontrivial(); std::string w = " x" + std::to_string(x) + " u" + std::to_string(u) + " T" + std::to_string(T) + " n" + std::to_string(n);
    if (!consistent(o, x0, "lq", w)) continue; check_optimum(o, x0, u, g.reg > 0 ? 1e-5 : 1e-7, g.reg == 0, "lq", w);
    // again from another state with the same solver
    V x1 = o.x0.reverse() + V::Constant(x, 0.25); o.stateSeq().state(0).stateVector() = x1; l.optimize(); if (consistent(o, x1, "again", w)) check_optimum(o, x1, u, g.reg > 0 ? 1e-5 : 1e-7, g.reg == 0, "again", w); }
  // one solver for several problems
  for (int n = 0; n < (th ? 200 : 60); n++) if (vp::next("reuse")) {
    int x1 = 1 + n % 3, u1 = 1 + n / 3 % 2, x2 = n % 5 < 2 ? x1 : 1 + n / 2 % 3, u2 = n % 5 < 2 ? u1 : 1 + n / 7 % 3, T1 = 1 + n % 4, T2 = n % 5 == 0 ? T1 : 1 + n / 3 % 5; Lq a = lq(x1, u1, T1, n, 0), b = lq(x2, u2, T2, n + 5000, 0); Set ga, gb; ga.T = T1; ga.x = x1; ga.u = u1; gb.T = T2; gb.x = x2; gb.u = u2; SolverLqrSetting sa, sb; load(sa, ga); load(sb, gb); std::string w = " after another problem, n" + std::to_string(n); SolverLqr l;
    a.initialize(sa); start(a, a.x0, std::vector<V>(T1, V::Zero(u1))); l.initialize(&a, sa); l.optimize(); check_optimum(a, a.x0, u1, 1e-7, true, "first", w); vp::nontrivial();
    if (n % 2) { b.initialize(sb); start(b, b.x0, std::vector<V>(T2, V::Zero(u2))); l.initialize(&b, sb); l.optimize(); if (consistent(b, b.x0, "reuse", w)) check_optimum(b, b.x0, u2, 1e-7, true, "reuse", w); }
    else { Lq c = b; static_cast<OcpBase&>(c) = static_cast<OcpBase&>(a); c.initialize(sb); if (c.stateSeq().size() != T2 + 1 || c.controlSeq().size() != T2) vp::fail("reuse:sizes", std::to_string(c.stateSeq().size()) + " states for " + std::to_string(T2) + " steps" + w);
      else { start(c, b.x0, std::vector<V>(T2, V::Zero(u2))); SolverLqr k; k.initialize(&c, sb); k.optimize(); if (consistent(c, b.x0, "again", w)) check_optimum(c, b.x0, u2, 1e-7, true, "again", w); } } }
  // control limits
  for (int x = 1; x <= 2; x++) for (int u = 1; u <= 2; u++) for (int T = 1; T <= 3; T++) for (int n = 0; n < (th ? 60 : 24); n++) if (vp::next("limits")) {
    Lq o = lq(x, u, T, n + 100 * T + 1000 * x + 10000 * u, n % 3); if (u == 2 && n % 2) for (auto& s : o.s) { double d = s.R(0, 0) + s.R(1, 1); s.R << d, 0, 0, d + 1; } double b[] = {0.1, 0.4, 1, 50}; Set g; g.T = T; g.x = x; g.u = u; g.limits = true; g.iters = 200; g.grad = 1e-7; g.lo = V::Constant(u, -b[n % 4]); g.hi = V::Constant(u, b[(n + n / 4) % 4]); if (n % 6 == 5) { g.lo = V::Constant(u, 0.2); g.hi = V::Constant(u, 0.2 + b[n % 4]); }
    if (u == 2 && n / 2 % 2 && g.hi[0] < 50) { if (n % 2) { g.hi[1] = g.lo[1] + 0.6 * (g.hi[1] - g.lo[1]); g.lo[0] *= 0.5; } else { g.lo[1] = g.hi[1] - 0.6 * (g.hi[1] - g.lo[1]); g.hi[0] *= 1.5; } } if (n % 7 == 3) g.iters = n % 3;
    SolverLqrSetting st; load(st, g); o.initialize(st); std::vector<V> u0(T, V::Zero(u)); if (n % 3 == 1) for (auto& y : u0) y = (n % 2 ? 1 : 4) * mat(u, 1); std::vector<V> c0; { std::vector<V> k = u0; for (auto& y : k) for (int i = 0; i < u; i++) y[i] = std::min(std::max(y[i], g.lo[i]), g.hi[i]); c0 = k; } double before = total(o, roll(o, o.x0, c0), c0); start(o, o.x0, u0);
    SolverLqr l; l.initialize(&o, st); l.optimize(); vp::nontrivial(); std::string w = " x" + std::to_string(x) + " u" + std::to_string(u) + " T" + std::to_string(T) + " n" + std::to_string(n) + " limits " + show({g.lo}) + " to " + show({g.hi}) + " iterations " + std::to_string(g.iters);
    if (!consistent(o, o.x0, "limits", w)) continue; auto z = controls(o); bool in = true; for (auto& y : z) for (int i = 0; i < u; i++) if (!(y[i] >= g.lo[i] - 1e-9 && y[i] <= g.hi[i] + 1e-9)) in = false; if (!in) { vp::fail("limits:exceeded", "controls " + show(z) + " exceed their limits" + w); continue; }
    double c = total(o, roll(o, o.x0, z), z); if (!(c <= before + 1e-9 * (1 + std::fabs(before)))) { vp::fail("limits:worse", "cost rose from " + num(before) + " to " + num(c) + w); continue; }
    if (g.iters < 3) continue; auto best = optimum(o, o.x0, u, &g.lo, &g.hi); double cb = total(o, roll(o, o.x0, best), best); if (!(c <= cb + 1e-4 * (1 + std::fabs(cb)))) vp::fail("limits:cost", "cost " + num(c) + " with " + show(z) + " although " + num(cb) + " is possible with " + show(best) + w);
    if (!(g.lo[0] == -50 && g.hi[0] == 50)) continue;
    // limits that do not bind change nothing, whatever the number of iterations
    for (int it : {1, 2, 40}) { Set h = g; h.iters = it; Lq a = lq(x, u, T, n + 100 * T + 1000 * x + 10000 * u, n % 3), b = a; SolverLqrSetting sa, sb; load(sa, h); h.limits = false; load(sb, h); SolverLqr la, lb; a.initialize(sa); b.initialize(sb); start(a, a.x0, u0); start(b, a.x0, u0); la.initialize(&a, sa); lb.initialize(&b, sb); la.optimize(); lb.optimize(); auto ua = controls(a), ub = controls(b); double m = 0; for (int t = 0; t < T; t++) m = std::max(m, std::max((ua[t] - ub[t]).norm() / (1 + ub[t].norm()), it > 2 ? 0. : (a.controlSeq().control(t).feedback() - b.controlSeq().control(t).feedback()).norm())); if (!(m <= 1e-4)) { vp::fail("inactive:same", "controls " + show(ua) + " with limits that do not bind, " + show(ub) + " without, after " + std::to_string(it) + " iterations" + w); break; } } }
  // one problem object and one solver for two horizons
  for (int n = 0; n < (th ? 100 : 40); n++) if (vp::next("horizons")) {
    int x = 1 + n % 3, u = 1 + n / 3 % 2, T1 = 1 + n % 4, T2 = 1 + n / 4 % 5; Lq a = lq(x, u, std::max(T1, T2), n + 900, n % 3); auto all = a.s; std::string w = " with " + std::to_string(T1) + " and then " + std::to_string(T2) + " steps, n" + std::to_string(n); SolverLqr l; SolverLqrSetting st[2]; vp::nontrivial();
    for (int k = 0; k < 2; k++) { int T = k ? T2 : T1; Set g; g.T = T; g.x = x; g.u = u; load(st[k], g); a.s.assign(all.begin(), all.begin() + T); a.initialize(st[k]); V x0 = k ? V(a.x0.reverse()) : a.x0; start(a, x0, std::vector<V>(T, V::Zero(u))); l.initialize(&a, st[k]); l.optimize(); if (!consistent(a, x0, "horizons", w)) break; check_optimum(a, x0, u, 1e-7, true, "horizons", w); } }
  // a goal beyond the bound on the states: the best motion is out of bounds, the one returned is not
  for (int n = 0; n < 36; n++) if (vp::next("bounded")) {
    double lim = 1.5 + n % 3, goal = std::vector<double>{2, 5, 20, 1000}[n / 3 % 4]; Nl o; o.kind = n / 12 % 3; o.wu = 1e-3; o.goal = V::Constant(2, goal); int T = 2 + n % 6, u = o.kind == 1 ? 2 : 1; Set g; g.T = T; g.x = 2; g.u = u; g.iters = 30; g.div = lim; g.coef = n % 2 ? 1.1 : 2; SolverLqrSetting st; load(st, g); o.initialize(st); V x0 = V::Zero(2); std::vector<V> u0(T, V::Zero(u)); start(o, x0, u0); double before = total(o, roll(o, x0, u0), u0); SolverLqr l; l.initialize(&o, st); l.optimize(); vp::nontrivial(); std::string w = " kind" + std::to_string(o.kind) + " T" + std::to_string(T) + " bound " + num(lim) + " goal " + num(goal);
    if (!consistent(o, x0, "bounded", w)) continue; double m = 0; for (auto& x : states(o)) m = std::max(m, x.cwiseAbs().maxCoeff()); if (!(m <= lim)) { vp::fail("bounded:limit", "a state of " + num(m) + w); continue; } auto z = controls(o); double c = total(o, roll(o, x0, z), z); if (!(c <= before + 1e-9 * (1 + before))) vp::fail("bounded:worse", "cost rose from " + num(before) + " to " + num(c) + w); }
  // derivatives of models of degree two, for every state, control, step and pair
  for (int nx = 1; nx <= 3; nx++) for (int nu = 1; nu <= 3; nu++) for (int T = 1; T <= 2; T++) for (int n = 0; n < (th ? 12 : 4); n++) if (vp::next("derivatives")) {
    rs = n * 977 + nx * 31 + nu * 7 + T; Poly p; p.nx = nx; p.nu = nu; int N = nx + nu; auto sym = [&] { M m = mat(N, N); return M(m + m.transpose()); }; for (int i = 0; i < nx; i++) p.h.push_back(sym()); p.g = mat(nx, N); p.k = mat(nx, 1); p.Hc = sym(); p.gc = mat(N, 1); Set g; g.T = T; g.x = nx; g.u = nu; SolverLqrSetting st; load(st, g); p.initialize(st);
    std::vector<V> X, U; for (int t = 0; t <= T; t++) { X.push_back(mat(nx, 1)); U.push_back(t < T ? V(mat(nu, 1)) : V::Zero(nu)); p.stateSeq().state(t).stateVector() = X[t]; if (t < T) p.controlSeq().control(t).feedforward() = U[t]; }
    FiniteDifferences d; if (n % 2) { Poly q = p; d.initialize(&q, true, true, true, true); } d.initialize(&p, true, true, true, true); d.computeDerivatives(); vp::nontrivial(); std::string bad; auto cmp = [&](const M& a, const M& b, double tol, const std::string& what) { if (bad.empty() && !(a.rows() == b.rows() && a.cols() == b.cols() && (a - b).norm() <= tol * (1 + b.norm()))) { std::ostringstream o; o << what << " is\n" << a << "\ninstead of\n" << b; bad = o.str(); } };
    for (int t = 0; t <= T; t++) { V z(N); z << X[t], U[t]; double s = (1 + 0.25 * t), e = t == T ? 2 : 1; V gr = e * (s * (p.Hc * z) + p.gc); M H = e * s * p.Hc; std::string at = " at step " + std::to_string(t) + " of " + std::to_string(T) + " with " + std::to_string(nx) + " states and " + std::to_string(nu) + " controls";
      cmp(d.cx(t), gr.head(nx), 1e-7, "cost by state" + at); cmp(d.cu(t), gr.tail(nu), 1e-7, "cost by control" + at); cmp(d.cxx(t), H.topLeftCorner(nx, nx), 1e-3, "cost by states" + at); cmp(d.cxu(t), H.topRightCorner(nx, nu), 1e-3, "cost by state and control" + at); cmp(d.cuu(t), H.bottomRightCorner(nu, nu), 1e-3, "cost by controls" + at);
      if (t == T) continue; M J(nx, N); for (int i = 0; i < nx; i++) J.row(i) = (1 + 0.5 * t) * (p.h[i] * z).transpose() + p.g.row(i); J.leftCols(nx) += M::Zero(nx, nx); cmp(d.fx(t), J.leftCols(nx), 1e-7, "dynamics by state" + at); cmp(d.fu(t), J.rightCols(nu), 1e-7, "dynamics by control" + at);
      for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) { V w(nx); for (int i = 0; i < nx; i++) w[i] = (1 + 0.5 * t) * p.h[i](a, b); if (a < nx && b < nx) cmp(d.fxx(t)[a].col(b), w, 1e-3, "dynamics by states" + at); if (a >= nx && b < nx) cmp(d.fxu(t)[a - nx].col(b), w, 1e-3, "dynamics by control and state" + at); if (a >= nx && b >= nx) cmp(d.fuu(t)[a - nx].col(b - nx), w, 1e-3, "dynamics by controls" + at); } }
    if (!bad.empty()) vp::fail("derivatives:value", bad); if (d.getOcpDescription() != &p) vp::fail("derivatives:problem", "another problem is differentiated"); auto x = states(p); auto u = controls(p); for (int t = 0; t <= T; t++) if (x[t] != X[t] || (t < T && u[t] != U[t])) vp::fail("derivatives:point", "differentiation moved the trajectory"); }
  // integration of linear rates by one Euler or Runge-Kutta step
  for (int nx = 1; nx <= 3; nx++) for (int n = 0; n < 20; n++) for (int rk = 0; rk < 2; rk++) if (vp::next("integration")) {
    rs = n * 31 + nx; M A = mat(nx, nx), B = mat(nx, 1); Bare p; p.fn = [&](const V& x, const V& u, int) { return V(0.5 * (A * x + B * u)); }; Set g; g.T = 3; g.x = nx; g.iters = n % 2 ? 30 : 0; SolverLqrSetting st; load(st, g); if (st.get(SolverLqrBoolParam_UseRungeKuttaIntegration)) vp::fail("integration:default", "Runge-Kutta steps by default"); st.get(SolverLqrBoolParam_UseRungeKuttaIntegration) = rk; p.initialize(st); V x0 = mat(nx, 1); std::vector<V> u; for (int t = 0; t < 3; t++) u.push_back(mat(1, 1)); start(p, x0, u); SolverLqr l; l.initialize(&p, st); l.optimize(); vp::nontrivial();
    auto X = states(p), U = controls(p); M Z = 0.5 * A, I = M::Identity(nx, nx), F = I + Z, G = I; if (rk) { F = I + Z + Z * Z / 2 + Z * Z * Z / 6 + Z * Z * Z * Z / 24; G = I + Z / 2 + Z * Z / 6 + Z * Z * Z / 24; } V x = x0; for (int t = 0; t < 3; t++) { x = F * x + G * 0.5 * B * U[t]; if (!((X[t + 1] - x).norm() <= 1e-9 * (1 + x.norm()))) { vp::fail("integration:step", std::string(rk ? "Runge-Kutta" : "Euler") + " step " + std::to_string(t) + " from " + show(X) + " controls " + show(U)); break; } }
    if (!g.iters && U != u) vp::fail("integration:controls", "controls changed without iterations"); }
  // nonlinear problems
  for (int kind = 0; kind < 3; kind++) for (int T : {1, 2, 4, 8, 12}) for (int n = 0; n < (th ? 40 : 12); n++) if (vp::next("nonlinear")) {
    Nl o; o.kind = kind; rs = n * 99 + T + kind * 7; int u = kind == 1 ? 2 : 1; o.goal = mat(2, 1); Set g; g.T = T; g.x = 2; g.u = u; g.iters = 300; g.reg = n % 3 == 1 ? 0.1 : 0; g.limits = n % 4 == 3; g.lo = V::Constant(u, -0.5); g.hi = V::Constant(u, 0.75); SolverLqrSetting st; load(st, g); o.initialize(st); V x0 = mat(2, 1); std::vector<V> u0; for (int t = 0; t < T; t++) u0.push_back(0.5 * mat(u, 1)); start(o, x0, u0); double before = total(o, roll(o, x0, u0), u0);
    SolverLqr l; l.initialize(&o, st); l.optimize(); vp::nontrivial(); std::string w = " kind" + std::to_string(kind) + " T" + std::to_string(T) + " n" + std::to_string(n); if (!consistent(o, x0, "nonlinear", w)) continue; auto z = controls(o); double c = total(o, roll(o, x0, z), z);
    if (!(c <= before + 1e-9)) { vp::fail("nonlinear:worse", "cost rose from " + num(before) + " to " + num(c) + w); continue; } double m = 0; for (int t = 0; t < T; t++) for (int i = 0; i < u; i++) { auto p = z, q = z; p[t][i] += 1e-5; q[t][i] -= 1e-5; double d = (total(o, roll(o, x0, p), p) - total(o, roll(o, x0, q), q)) / 2e-5; if (g.limits && ((d > 0 && z[t][i] <= g.lo[i] + 1e-5) || (d < 0 && z[t][i] >= g.hi[i] - 1e-5))) d = 0; if (g.limits && (z[t][i] < g.lo[i] - 1e-9 || z[t][i] > g.hi[i] + 1e-9)) m = 1e9; m = std::max(m, std::fabs(d)); } if (!(m <= 1e-3 * (1 + c))) vp::fail("nonlinear:stationary", "cost " + num(c) + " changes by " + num(m) + " per control" + w); }
  // trajectories that diverge from the first guess
  for (int n = 0; n < 40; n++) if (vp::next("diverging")) {
    double a = std::vector<double>{2, 3, 10, 100}[n % 4], u0 = std::vector<double>{1e-3, 1, 100, 1e7, 1e200}[n / 4 % 5]; bool nanat = n >= 20; Bare p; p.fn = [&](const V& x, const V& u, int) { V r = (a - 1) * x + u; if (nanat && std::fabs(x[0]) > 50) r[0] = std::sqrt(-std::fabs(x[0])); return r; }; Set g; g.T = 6; g.div = 1e4; g.coef = 2; SolverLqrSetting st; load(st, g); p.initialize(st); std::vector<V> u(6, V::Constant(1, u0)); start(p, V::Constant(1, 0.5), u); for (int t = 1; t <= 6; t++) p.stateSeq().state(t).stateVector()[0] = 7 + t; auto X = states(p); SolverLqr l; l.initialize(&p, st); l.optimize(); vp::nontrivial(); std::string w = " growth " + num(a) + " control " + num(u0) + (nanat ? " with undefined states" : "");
    bool some = false; for (int i = 0; i < 10; i++) { auto v = u; for (auto& y : v) y *= std::pow(2., -(i * i)); bool ok = true; for (auto& x : roll(p, V::Constant(1, 0.5), v)) if (!(std::fabs(x[0]) <= 1e4)) ok = false; some = some || ok; }
    if (!some) { if (states(p) != X || controls(p) != u) vp::fail("diverging:kept", "a problem without any bounded start was changed to " + show(states(p)) + w); continue; }
    bool ok = true; for (auto& x : states(p)) if (!(std::fabs(x[0]) <= 1e4)) ok = false; if (!ok) vp::fail("diverging:bound", "states " + show(states(p)) + " beyond the limit" + w); else consistent(p, V::Constant(1, 0.5), "diverging", w); }
  // settings and stored solutions
  for (int n = 0; n < 60; n++) if (vp::next("settings")) {
    rs = n; Set g; g.T = 1 + n % 30; g.dt = std::vector<double>{0.1, 0.05, 0.01, 0.25, 0.2, 0.3}[n % 6]; g.x = 1 + n % 5; g.u = 2 + n % 3; g.iters = 100 + n; g.reg = 0.1 + n; g.minreg = 0.2 + n; g.maxreg = 0.3 + n; g.mult = 0.4 + n; g.grad = 0.5 + n; g.cost = 0.6 + n; g.div = 0.7 + n; g.coef = 1.1 + n; g.ncoef = 1 + n % 5; g.limits = n % 2; g.store = n % 3 == 0; g.lo = mat(g.u, 1); g.hi = g.lo + V::Constant(g.u, 1 + n); SolverLqrSetting s; char hz[40]; snprintf(hz, 40, "%.2f", g.dt * g.T); std::string y = yaml(g), k = "  time_horizon: "; size_t i = y.find(k); y.replace(i, y.find('\n', i) - i, k + hz); i = y.find("initial_state: ") + 15; V x0 = mat(g.x, 1); y.replace(i, y.find('\n', i) - i, seq(x0)); for (auto& r : {std::make_pair("verbosity: 0", "verbosity: 7"), std::make_pair("digits: 4", "digits: 9"), std::make_pair("_type: 2", "_type: 5"), std::make_pair("improvement: 0.2", "improvement: 0.8"), std::make_pair("initial_mult_regularization_incr: 1.0", "initial_mult_regularization_incr: 1.9")}) { i = y.find(r.first); if (i != y.npos) y.replace(i, strlen(r.first), r.second); }
    { std::ofstream o(file()); o << y; } s.initialize(file()); unlink(file().c_str()); vp::nontrivial(); std::string bad; const SolverLqrSetting& c = s; auto D = [&](SolverLqrDoubleParam p, double v, const char* nm) { if (s.get(p) != v || c.get(p) != v) bad += std::string(" ") + nm; }; auto I = [&](SolverLqrIntParam p, int v, const char* nm) { if (s.get(p) != v || c.get(p) != v) bad += std::string(" ") + nm + "=" + std::to_string(s.get(p)); };
    D(SolverLqrDoubleParam_CostChangeTolerance, g.cost, "cost_change"); D(SolverLqrDoubleParam_DivergenceLimitCheck, g.div, "divergence"); D(SolverLqrDoubleParam_ControlGradientTolerance, g.grad, "gradient"); D(SolverLqrDoubleParam_BackPassMinRegularization, g.minreg, "min_regularization"); D(SolverLqrDoubleParam_BackPassMaxRegularization, g.maxreg, "max_regularization"); D(SolverLqrDoubleParam_MinExpectedCostImprovement, 0.8, "expected_improvement"); D(SolverLqrDoubleParam_BackPassInitialRegularization, g.reg, "initial_regularization"); D(SolverLqrDoubleParam_BackPassMultRegularizationIncr, g.mult, "mult_incr"); D(SolverLqrDoubleParam_BackPassInitialMultRegularizationIncr, 1.9, "initial_mult_incr"); D(SolverLqrDoubleParam_TimeStep, g.dt, "time_step"); D(SolverLqrDoubleParam_TimeHorizon, std::atof(hz), "time_horizon");
    I(SolverLqrIntParam_Verbosity, 7, "verbosity"); I(SolverLqrIntParam_PrecisionDigits, 9, "digits"); I(SolverLqrIntParam_LqrMaxIterations, g.iters, "max_iters"); I(SolverLqrIntParam_BackPassRegulatizationType, 5, "type"); I(SolverLqrIntParam_TimeDimension, g.T, (std::string("time_dimension of ") + hz + " by " + num(g.dt)).c_str()); I(SolverLqrIntParam_StateDimension, g.x, "state_dimension"); I(SolverLqrIntParam_ControlDimension, g.u, "control_dimension");
    if (s.get(SolverLqrBoolParam_StoreData) != g.store || s.get(SolverLqrBoolParam_HasControlLimits) != g.limits || c.get(SolverLqrBoolParam_StoreData) != g.store || c.get(SolverLqrBoolParam_HasControlLimits) != g.limits) bad += " flags"; if (c.get(SolverLqrVectorParam_InitialState) != x0 || s.get(SolverLqrVectorParam_InitialState) != x0) bad += " initial_state"; if (g.limits && (c.get(SolverLqrVectorParam_MinControlLimits) != g.lo || c.get(SolverLqrVectorParam_MaxControlLimits) != g.hi || s.get(SolverLqrVectorParam_MinControlLimits) != g.lo || s.get(SolverLqrVectorParam_MaxControlLimits) != g.hi)) bad += " limits";
    const V& al = c.get(SolverLqrVectorParam_LineSearchCoeffs); bool ok = al.size() == g.ncoef && s.get(SolverLqrVectorParam_LineSearchCoeffs) == al; for (int q = 0; ok && q < al.size(); q++) ok = std::fabs(al[q] - std::pow(g.coef, -double(q * q))) <= 1e-12 * al[q]; if (!ok) bad += " linesearch"; if (c.get(SolverLqrYamlParam_UserParameters)["weight"].as<double>() != 3.5) bad += " user_parameters"; if (c.get(SolverLqrStringParam_ConfigFile) != file()) bad += " file"; if (!bad.empty()) vp::fail("settings:value", "wrong" + bad + " n" + std::to_string(n)); }
  for (int n = 0; n < 24; n++) if (vp::next("store")) {
    int x = 1 + n % 3, u = 1 + n / 3 % 3, T = 1 + n % 5; Lq o = lq(x, u, T, n + 77, n % 3); Set g; g.T = T; g.x = x; g.u = u; g.store = true; SolverLqrSetting st; { std::ofstream f(file()); f << yaml(g); } st.initialize(file()); o.initialize(st); start(o, o.x0, std::vector<V>(T, V::Zero(u))); SolverLqr l; l.initialize(&o, st); l.optimize(); std::string r = file().substr(0, file().size() - 5) + "_lqr_results.yaml"; vp::nontrivial(); std::string w = " n" + std::to_string(n); bool ok = access(r.c_str(), R_OK) == 0; if (!ok) { vp::fail("store:file", "no results stored" + w); unlink(file().c_str()); continue; }
    { YAML::Node y = YAML::LoadFile(r)["solverlqr_variables"]; M X = y["states"].as<M>(), U = y["control_ff"].as<M>(); auto sx = states(o), su = controls(o); ok = X.rows() == x && X.cols() == T + 1 && U.rows() == u && U.cols() == T && y["tdim"].as<int>() == T && y["xdim"].as<int>() == x && y["udim"].as<int>() == u && y["dt"].as<double>() == g.dt; for (int t = 0; ok && t <= T; t++) ok = (X.col(t) - sx[t]).norm() <= 1e-9 && (t == T || (U.col(t) - su[t]).norm() <= 1e-9); if (!ok) vp::fail("store:trajectory", "stored trajectory differs" + w); }
    Lq p = lq(x, u, T, n + 77, n % 3); p.initialize(st); SolverLqr k; k.initialize(&p, st); k.loadSolution(r); for (int t = 0; t < T; t++) if (!((p.controlSeq().control(t).feedback() - o.controlSeq().control(t).feedback()).norm() <= 1e-9)) { vp::fail("store:gains", "loaded gains differ" + w); break; } unlink(r.c_str()); unlink(file().c_str()); }
  // stored motions are the ones returned, also when the last steps tried were turned down
  for (int n = 0; n < 24; n++) if (vp::next("store_rejected")) {
    Nl o; o.kind = n % 3; rs = n * 7 + 3; int u = o.kind == 1 ? 2 : 1, T = 2 + n % 5; o.goal = mat(2, 1); Set g; g.T = T; g.x = 2; g.u = u; g.store = true; g.iters = 60; g.ncoef = 1 + n % 2; g.coef = 1.1; g.grad = 1e-14; g.cost = 1e-15; SolverLqrSetting st; { std::ofstream f(file()); f << yaml(g); } st.initialize(file()); o.initialize(st); start(o, mat(2, 1), std::vector<V>(T, V::Zero(u))); SolverLqr l; l.initialize(&o, st); l.optimize(); std::string r = file().substr(0, file().size() - 5) + "_lqr_results.yaml"; vp::nontrivial(); std::string w = " n" + std::to_string(n);
    if (access(r.c_str(), R_OK)) { vp::fail("store:file", "no results stored" + w); unlink(file().c_str()); continue; }
    { YAML::Node y = YAML::LoadFile(r)["solverlqr_variables"]; M X = y["states"].as<M>(), U = y["control_ff"].as<M>(); auto sx = states(o), su = controls(o); bool ok = X.cols() == T + 1 && U.cols() == T; double m = 0; for (int t = 0; ok && t <= T; t++) { m = std::max(m, (X.col(t) - sx[t]).norm()); if (t < T) m = std::max(m, (U.col(t) - su[t]).norm()); } if (!ok || !(m <= 1e-12)) { std::ostringstream e; e << "stored motion differs by " << m << w; vp::fail("store:rejected", e.str()); } } unlink(r.c_str()); unlink(file().c_str()); }
  return vp::finish();
}
#endif
