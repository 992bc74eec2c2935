// L-BFGS: every answer of lbfgs() is checked against what it claims (values, convergence, stopping reason, descent,
// step conditions, search directions against dense BFGS products), and the solver class on penalised problems.
#include <vp.hpp>
#include <memory>
#include <solver/optimizer/LbfgsSolver.hpp>
using namespace solver; typedef Eigen::VectorXd V; typedef Eigen::MatrixXd M;
struct Fn { const char* name; int n; bool bounded, convex, easy; std::function<double(const V&, V&)> f; };
static std::vector<Fn> functions(bool th) {
  std::vector<Fn> F;
  auto quad = [&](const char* nm, M H, V b) { F.push_back({nm, (int)b.size(), true, true, true, [H, b](const V& x, V& g) { g = H * x + b; return 0.5 * x.dot(H * x) + b.dot(x); }}); };
  M h1(1, 1); h1 << 2; V b1(1); b1 << -3; quad("2x^2/2-3x", h1, b1);
  M h2(2, 2); h2 << 1, 0, 0, 1; V b2(2); b2 << 1, -2; quad("identity", h2, b2);
  h2 << 1, 0, 0, 10; quad("diag(1,10)", h2, b2);
  h2 << 2, 1, 1, 3; quad("rotated", h2, b2);
  h2 << 1, 0, 0, 1000; quad("diag(1,1000)", h2, b2); F.back().easy = false;
  M h3(3, 3); h3 << 4, 1, 0, 1, 3, -1, 0, -1, 2; V b3(3); b3 << -1, 2, 0.5; quad("three", h3, b3);
  F.push_back({"quartic", 2, true, true, false, [](const V& x, V& g) { g.resize(2); g << 4 * pow(x(0) - 1, 3), 2 * x(1); return pow(x(0) - 1, 4) + x(1) * x(1); }});
  F.push_back({"smooth abs", 2, true, true, true, [](const V& x, V& g) { double a = sqrt(1 + x(0) * x(0)), b = sqrt(0.25 + x(1) * x(1)); g.resize(2); g << x(0) / a, x(1) / b; return a + b; }});
  F.push_back({"logsumexp", 2, true, true, true, [](const V& x, V& g) { double a = exp(x(0) + x(1)), b = exp(-x(0)), c = exp(-x(1)), s = a + b + c; g.resize(2); g << (a - b) / s, (a - c) / s; return log(s); }});
  F.push_back({"rosenbrock", 2, true, false, false, [](const V& x, V& g) { double t = x(1) - x(0) * x(0); g.resize(2); g << -2 * (1 - x(0)) - 40 * x(0) * t, 20 * t; return pow(1 - x(0), 2) + 10 * t * t; }});
  F.push_back({"himmelblau", 2, true, false, false, [](const V& x, V& g) { double u = x(0) * x(0) + x(1) - 11, v = x(0) + x(1) * x(1) - 7; g.resize(2); g << 4 * x(0) * u + 2 * v, 2 * u + 4 * x(1) * v; return u * u + v * v; }});
  F.push_back({"double well", 1, true, false, false, [](const V& x, V& g) { g.resize(1); g << 4 * x(0) * (x(0) * x(0) - 1); return pow(x(0) * x(0) - 1, 2); }});
  F.push_back({"cosine", 2, true, false, false, [](const V& x, V& g) { g.resize(2); g << -sin(x(0)), 0.5 * x(1); return cos(x(0)) + 0.25 * x(1) * x(1); }});
  F.push_back({"linear", 2, false, true, false, [](const V& x, V& g) { g.resize(2); g << 1, -2; return x(0) - 2 * x(1); }});
  F.push_back({"concave", 1, false, false, false, [](const V& x, V& g) { g.resize(1); g << -2 * x(0) - 1; return -x(0) * x(0) - x(0); }});
  F.push_back({"log barrier", 1, true, true, false, [](const V& x, V& g) { g.resize(1); g << 1 - 1 / (x(0) + 4); return x(0) - log(x(0) + 4); }});
  F.push_back({"square root of a domain", 1, true, true, false, [](const V& x, V& g) { g.resize(1); double s = sqrt(6 + x(0)); g << -1 / s + 1; return -2 * s + x(0); }});
  return F;
}
struct Run {
  const Fn* fn; lbfgs_parameter_t prm; long evals = 0; int calls = 0; int cancel_at = 0; std::string err, key; V x0; double f0 = 0;
  std::vector<V> xs, gs; std::vector<double> fs; int expect = 99;   // result the last progress call implies, 99: keep going
  void bad(const std::string& k, const std::string& m) { if (err.empty()) { key = k; err = m; } }
};
struct TooMany {};
static double ev(void* p, const double* x, double* g, const int n, const double) {
  Run& r = *(Run*)p; vp::tick(); if (++r.evals > 200000) throw TooMany();
  V g2; double f = r.fn->f(Eigen::Map<const V>(x, n), g2); Eigen::Map<V>(g, n) = g2; return f;
}
// direction by dense BFGS products over the last pairs (null when the pairs have no positive curvature to speak of)
static bool dense_direction(const Run& r, int m, V& d) {
  int k = r.xs.size() - 1; if (k == 0) { d = -r.gs[0]; return true; }
  int first = std::max(0, k - m); V s = r.xs[k] - r.xs[k - 1], y = r.gs[k] - r.gs[k - 1];
  int n = s.size(); M H = M::Identity(n, n) * (s.dot(y) / y.dot(y));
  for (int i = first; i < k; i++) { V a = r.xs[i + 1] - r.xs[i], b = r.gs[i + 1] - r.gs[i]; double ys = a.dot(b); if (!(ys > 1e-6 * a.norm() * b.norm()) || a.norm() < 1e-7 * (1 + r.xs[i].norm()) || b.norm() < 1e-7 * (1 + r.gs[i].norm())) return false;
    M E = M::Identity(n, n) - b * a.transpose() / ys; H = E.transpose() * H * E + a * a.transpose() / ys; }
  d = -H * r.gs[k]; return d.allFinite();
}
static int pg(void* p, const double* x, const double* g, const double fx, const double xnorm, const double gnorm, const double step, int n, int k, int ls) {
  Run& r = *(Run*)p; r.calls++; V X = Eigen::Map<const V>(x, n), G = Eigen::Map<const V>(g, n), gt; double ft = r.fn->f(X, gt); std::ostringstream o; o << " at iteration " << k;
  if (r.expect != 99) r.bad("went_on", "iterates after a stopping test was met" + o.str());
  if (k != r.calls) r.bad("iteration_number", "iteration number" + o.str());
  if (!(std::fabs(ft - fx) <= 1e-12 * (1 + std::fabs(ft))) || (gt - G).norm() > 1e-12 * (1 + gt.norm()) || std::fabs(gnorm - G.norm()) > 1e-9 * (1 + gnorm) || std::fabs(xnorm - X.norm()) > 1e-9 * (1 + xnorm)) r.bad("progress_values", "progress reports values of another point" + o.str());
  if (ls < 1 || ls > r.prm.max_linesearch) r.bad("line_search_budget", "line search evaluations" + o.str());
  const V& xp = r.xs.back(); double fp = r.fs.back(), dg = r.gs.back().dot(X - xp), tol = 1e-10 * (1 + std::fabs(fp));
  double ftol = r.prm.ftol; if (!(fx <= fp + ftol * dg + tol)) r.bad("no_sufficient_decrease", "accepted a step without sufficient decrease" + o.str());
  double d1 = G.dot(X - xp), rt = 1e-9 * (1 + std::fabs(dg));
  if (r.prm.linesearch == LBFGS_LINESEARCH_MORETHUENTE && !(step <= r.prm.max_step && step >= r.prm.min_step)) r.bad("step_bounds", "a step of " + std::to_string(step) + o.str());
  if (r.prm.linesearch == LBFGS_LINESEARCH_MORETHUENTE && !(std::fabs(d1) <= r.prm.gtol * std::fabs(dg) + rt)) r.bad("curvature", "step without the curvature condition" + o.str());
  if (r.prm.linesearch == LBFGS_LINESEARCH_BACKTRACKING_WOLFE && !(d1 >= r.prm.wolfe * dg - rt)) r.bad("curvature", "step without the Wolfe condition" + o.str());
  if (r.prm.linesearch == LBFGS_LINESEARCH_BACKTRACKING_STRONG_WOLFE && !(std::fabs(d1) <= r.prm.wolfe * std::fabs(dg) + rt)) r.bad("curvature", "step without the strong Wolfe condition" + o.str());
  V d; if (dense_direction(r, r.prm.m, d) && (X - xp).norm() > 1e-6 * (1 + xp.norm())) {
    vp::count("transitions"); V q = (X - xp).normalized() - d.normalized(); if (q.norm() > 1e-4) r.bad("direction", "step not along the quasi-Newton direction" + o.str());
    if (std::fabs((X - xp).norm() - step * d.norm()) > 1e-4 * (X - xp).norm()) r.bad("step_length", "step length reported" + o.str()); }
  r.xs.push_back(X); r.gs.push_back(G); r.fs.push_back(fx);
  if (r.cancel_at && k == r.cancel_at) { r.expect = 7; return 7; }
  double rel = G.norm() / std::max(1.0, X.norm()) / r.prm.epsilon;
  if (rel < 1 - 1e-9) r.expect = LBFGS_SUCCESS;
  else if (rel < 1 + 1e-9) r.expect = 98;
  else if (r.prm.past > 0 && r.prm.past <= k) { double pf = r.fs[k - r.prm.past], rate = (pf - fx) / fx; if (rate < r.prm.delta) r.expect = LBFGS_STOP; }
  if (r.expect == 99 && r.prm.max_iterations && k >= r.prm.max_iterations) r.expect = LBFGSERR_MAXIMUMITERATION;
  return 0;
}
static std::string ds(const V& x) { std::ostringstream o; o << "["; for (int i = 0; i < x.size(); i++) o << (i ? " " : "") << x(i); o << "]"; return o.str(); }
static void one(const char* sec, const Fn& fn, const V& x0, const lbfgs_parameter_t& prm, int cancel) {
  Run r; r.fn = &fn; r.prm = prm; r.cancel_at = cancel; r.x0 = x0; V g0; r.f0 = fn.f(x0, g0); r.xs.push_back(x0); r.gs.push_back(g0); r.fs.push_back(r.f0);
  V x = x0; double fx = 12345; int ret; lbfgs_parameter_t p = prm; std::ostringstream o;
  o << fn.name << " from " << ds(x0) << " linesearch " << prm.linesearch << " m " << prm.m << " past " << prm.past << " iterations " << prm.max_iterations << " trials " << prm.max_linesearch << " max step " << prm.max_step << " min step " << prm.min_step;
  std::string S = std::string(sec) + ":";
  try { ret = lbfgs(fn.n, x.data(), &fx, ev, pg, &r, &p); } catch (TooMany&) { vp::fail(S + "does_not_end", "no end after 200000 evaluations: " + o.str()); return; }
  o << " -> " << ret << " f " << fx << " x " << ds(x); vp::count("states", r.calls + 1); vp::count("return_" + std::to_string(ret));
  V g; double ft = fn.f(x, g);
  if (!r.err.empty()) vp::fail(S + r.key, r.err + ": " + o.str());
  if (!(std::fabs(ft - fx) <= 1e-12 * (1 + std::fabs(ft)))) vp::fail(S + "value_of_another_point", "reported value is not that of the returned point (" + std::to_string(ft) + "): " + o.str());
  if (!(ft <= r.f0)) vp::fail(S + "worse_than_start", "worse than the starting point: " + o.str());
  // a failed line search may leave its last trial point, but only if that one is better
  bool lsfail = ret < 0 && ret != LBFGSERR_MAXIMUMITERATION;
  if (!(x - r.xs.back()).isZero(0) && !(lsfail && ft < r.fs.back())) vp::fail(S + "last_iterate", "returned point is not the last accepted one: " + o.str());
  double rel = g.norm() / std::max(1.0, x.norm());
  if ((ret == LBFGS_SUCCESS || ret == LBFGS_ALREADY_MINIMIZED) && !(rel <= prm.epsilon * (1 + 1e-9))) vp::fail(S + "claims_convergence", "claims convergence: " + o.str());
  if (ret == LBFGS_ALREADY_MINIMIZED && r.calls) vp::fail(S + "already", "already minimised after iterating: " + o.str());
  if (ret == LBFGSERR_MAXIMUMITERATION && (prm.max_iterations == 0 || r.calls != prm.max_iterations)) vp::fail(S + "iteration_budget", "wrong use of the iteration budget: " + o.str());
  if (prm.max_iterations && r.calls > prm.max_iterations) vp::fail(S + "iteration_budget", "too many iterations: " + o.str());
  if (r.expect != 99 && r.expect != 98 && ret != r.expect) vp::fail(S + "reason", "should have ended with " + std::to_string(r.expect) + ": " + o.str());
  if (r.expect == 99 && (ret == LBFGS_STOP || ret == 7 || (ret == LBFGS_SUCCESS))) vp::fail(S + "reason", "ended without its stopping test: " + o.str());
  bool dflt = prm.max_linesearch == 40 && prm.max_iterations == 0 && prm.past == 0 && prm.max_step > 1e10 && prm.min_step < 1e-10 && prm.m > 1 && !cancel;
  if (dflt && fn.easy && ret != LBFGS_SUCCESS && ret != LBFGS_ALREADY_MINIMIZED) vp::fail(S + "not_solved", "a well conditioned convex problem is not solved: " + o.str());
  V x2 = x0; double f2 = 0; Run r2 = r; r2.evals = 0; r2.calls = 0; r2.expect = 99; r2.xs = {x0}; r2.gs = {g0}; r2.fs = {r.f0}; int ret2 = lbfgs(fn.n, x2.data(), &f2, ev, pg, &r2, &p);
  if (ret2 != ret || std::memcmp(&f2, &fx, sizeof f2) || std::memcmp(x2.data(), x.data(), sizeof(double) * fn.n)) vp::fail(S + "not_repeatable", "another answer the second time: " + o.str());
  vp::nontrivial(r.calls > 0); vp::sample([&] { return o.str(); });
}
// penalised problems through the solver class
struct Nlp : NlpDescription {
  int n, m; V lo, up, gl, gu, start, c; M Q; std::vector<V> rows; bool ball; int evals = 0;
  void getNlpParameters(int& a, int& b) override { a = n; b = m; }
  void getNlpBounds(int, int, double* xl, double* xu, double* l, double* u) override { Eigen::Map<V>(xl, n) = lo; Eigen::Map<V>(xu, n) = up; Eigen::Map<V>(l, m) = gl; Eigen::Map<V>(u, m) = gu; }
  void getStartingPoint(int, double* x) override { Eigen::Map<V>(x, n) = start; }
  double evaluateObjective(int, const double* x) override { vp::tick(); evals++; if (evals > 2000000) throw TooMany(); V v = Eigen::Map<const V>(x, n); return 0.5 * v.dot(Q * v) + c.dot(v); }
  void evaluateConstraintsVector(int, int, const double* x, double* g) override { V v = Eigen::Map<const V>(x, n); for (int i = 0; i < m; i++) g[i] = i < (int)rows.size() ? rows[i].dot(v) : v.squaredNorm(); }
  double penalised(const V& v, double w, V* grad = nullptr) {
    double p = 0; if (grad) *grad = Q * v + c;
    for (int i = 0; i < n; i++) { double d = v(i) < lo(i) ? v(i) - lo(i) : v(i) > up(i) ? v(i) - up(i) : 0; p += d * d; if (grad) (*grad)(i) += 2 * w * d; }
    for (int i = 0; i < m; i++) { double g = i < (int)rows.size() ? rows[i].dot(v) : v.squaredNorm(); double d = g < gl(i) ? g - gl(i) : g > gu(i) ? g - gu(i) : 0; p += d * d; if (grad) *grad += 2 * w * d * (i < (int)rows.size() ? rows[i] : V(2 * v)); }
    return 0.5 * v.dot(Q * v) + c.dot(v) + w * p; }
};
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet q;
  auto F = functions(th);
  std::vector<std::vector<double>> grid = {{0, 1, -3, 2.5}, {0.5, -1, 2, -2.2}};
  for (auto& fn : F) for (int ix = 0; ix < (th ? 16 : 8); ix++) for (int ls = 0; ls < 4; ls++) for (int m : {1, 2, 5, 6}) for (int pi = 0; pi < 3; pi++) for (int mi : {0, 1, 2, 5}) for (int ml : {1, 3, 40}) for (int st = 0; st < 4; st++) for (int cancel : {0, 2}) {
    if (cancel && (mi || pi || ml != 40)) continue; if (!th && (m == 2 || m == 6) && (mi || ml != 40)) continue;
    if (!vp::next("functions")) continue;
    V x0(fn.n); for (int i = 0; i < fn.n; i++) x0(i) = grid[i % 2][(i == 0 ? ix : ix / 4 + i) % 4] + (ix >= 8 ? 0.37 : 0);
    lbfgs_parameter_t p; lbfgs_parameter_init(&p); p.m = m; p.linesearch = ls; p.past = pi == 0 ? 0 : pi == 1 ? 1 : 3; p.delta = pi ? 1e-3 : 0; p.max_iterations = mi; p.max_linesearch = ml;
    if (st == 1) p.max_step = 0.3; if (st == 2) { p.min_step = 0.1; } if (st == 3) { p.ftol = 0.3; p.gtol = 0.35; p.wolfe = 0.4; p.epsilon = 1e-3; }
    if ((st == 1 || st == 2 || !fn.bounded) && !mi) p.max_iterations = 200;
    V g0; if (!std::isfinite(fn.f(x0, g0))) continue;
    one("functions", fn, x0, p, cancel);
  }
  // parameter checks come first, leave x alone and name the parameter
  struct Bad { const char* name; int code; std::function<void(lbfgs_parameter_t&, int&)> set; };
  std::vector<Bad> B = {{"n", LBFGSERR_INVALID_N, [](lbfgs_parameter_t&, int& n) { n = 0; }}, {"n-", LBFGSERR_INVALID_N, [](lbfgs_parameter_t&, int& n) { n = -2; }}, {"epsilon", LBFGSERR_INVALID_EPSILON, [](lbfgs_parameter_t& p, int&) { p.epsilon = -1e-9; }},
    {"past", LBFGSERR_INVALID_TESTPERIOD, [](lbfgs_parameter_t& p, int&) { p.past = -1; }}, {"delta", LBFGSERR_INVALID_DELTA, [](lbfgs_parameter_t& p, int&) { p.delta = -1; }}, {"min_step", LBFGSERR_INVALID_MINSTEP, [](lbfgs_parameter_t& p, int&) { p.min_step = -1; }},
    {"max_step", LBFGSERR_INVALID_MAXSTEP, [](lbfgs_parameter_t& p, int&) { p.min_step = 1; p.max_step = 0.5; }}, {"ftol", LBFGSERR_INVALID_FTOL, [](lbfgs_parameter_t& p, int&) { p.ftol = -0.1; }},
    {"wolfe", LBFGSERR_INVALID_WOLFE, [](lbfgs_parameter_t& p, int&) { p.linesearch = 2; p.wolfe = p.ftol; }}, {"wolfe1", LBFGSERR_INVALID_WOLFE, [](lbfgs_parameter_t& p, int&) { p.linesearch = 3; p.wolfe = 1; }}, {"gtol", LBFGSERR_INVALID_GTOL, [](lbfgs_parameter_t& p, int&) { p.gtol = -1; }},
    {"xtol", LBFGSERR_INVALID_XTOL, [](lbfgs_parameter_t& p, int&) { p.xtol = -1; }}, {"max_linesearch", LBFGSERR_INVALID_MAXLINESEARCH, [](lbfgs_parameter_t& p, int&) { p.max_linesearch = 0; }}, {"linesearch", LBFGSERR_INVALID_LINESEARCH, [](lbfgs_parameter_t& p, int&) { p.linesearch = 4; }}, {"linesearch-", LBFGSERR_INVALID_LINESEARCH, [](lbfgs_parameter_t& p, int&) { p.linesearch = -1; }}};
  for (auto& b : B) for (auto& fn : F) { if (!vp::next("parameters")) continue;
    Run r; r.fn = &fn; lbfgs_parameter_t p; lbfgs_parameter_init(&p); int n = fn.n; b.set(p, n); r.prm = p; V x = V::Constant(fn.n, 0.25); r.x0 = x; r.xs = {x}; V g; r.fs = {fn.f(x, g)}; r.gs = {g}; double fx = 3;
    int ret = lbfgs(n, x.data(), &fx, ev, pg, &r, &p); vp::nontrivial(); vp::count("states"); vp::count("transitions");
    if (ret != b.code || r.evals || !(x.array() == 0.25).all()) vp::fail("parameters:rejected", std::string("invalid ") + b.name + " gives " + std::to_string(ret)); }
  // penalised problems, several solver objects, copies, reuse
  for (int n : {1, 2}) for (int nr = 0; nr < 3; nr++) for (int ball = 0; ball < 2; ball++) for (int bnd = 0; bnd < 4; bnd++) for (int cost = 0; cost < 4; cost++) for (double w : {0.0, 1.0, 5.0, 50.0}) for (int st = 0; st < 3; st++) for (int use = 0; use < 4; use++) {
    if (!vp::next("penalised")) continue;
    Nlp P; P.n = n; P.Q = M::Identity(n, n) * (cost == 1 ? 3 : 1); if (n == 2) P.Q(1, 1) = 2; P.c = V::Constant(n, cost == 2 ? -4 : cost == 3 ? 2.5 : 1); if (n == 2) P.c(1) = cost - 1.0;
    P.lo = V::Constant(n, bnd == 0 ? -1e20 : bnd == 1 ? -0.5 : bnd == 2 ? 0.5 : 1); P.up = V::Constant(n, bnd == 0 ? 1e20 : bnd == 1 ? 0.5 : bnd == 2 ? 3 : 1);
    for (int i = 0; i < nr; i++) { V a(n); for (int j = 0; j < n; j++) a(j) = 1 + i - 2 * j * i; P.rows.push_back(a); } P.ball = ball; P.m = nr + ball;
    P.gl = V::Constant(P.m, -1e10); P.gu = V::Constant(P.m, 0.7); if (nr) P.gl(0) = 0.2; if (nr > 1) P.gl(1) = P.gu(1) = 1.5; if (ball) P.gu(P.m - 1) = 1.2;
    P.start = V::Constant(n, st == 0 ? 0 : st == 1 ? 2 : -1.5);
    std::ostringstream o; o << "n " << n << " rows " << nr << " ball " << ball << " bounds " << bnd << " cost " << cost << " weight " << w << " start " << st << " use " << use;
    Nlp other = P; other.c = -P.c; other.start = V::Constant(n, 0.3);
    try {
      if (st == 1) P.optimalVector().resize(n + 2);   // left over from a larger problem
      LbfgsSolver a; a.initialize(&P, w);
      if (use == 0) a.optimize();
      else if (use == 1) { LbfgsSolver b; b.initialize(&other, 2 * w + 1); b.optimize(); a.optimize(); b.optimize(); }
      else if (use == 2) { LbfgsSolver b; b.initialize(&other, w); b.optimize(); b.initialize(&P, w); b.optimize(); }
      else { std::unique_ptr<LbfgsSolver> t(new LbfgsSolver); t->initialize(&other, 2 * w + 1); LbfgsSolver b(a); a.initialize(&other, 2 * w + 1); b.optimize(); }   // a copy works on its own
    } catch (TooMany&) { vp::fail("penalised:does_not_end", o.str()); continue; }
    V x = P.optimalVector(), g; double f = x.size() == n ? P.penalised(x, w, &g) : 0; vp::count("states"); vp::count("transitions");
    o << " -> " << P.optimalValue() << " at " << ds(x);
    if (x.size() != n || !(std::fabs(P.optimalValue() - f) <= 1e-9 * (1 + std::fabs(f)))) vp::fail("penalised:value", "value is not that of the point (" + std::to_string(f) + "): " + o.str());
    else if (!(f <= P.penalised(P.start, w) + 1e-12)) vp::fail("penalised:worse_than_start", o.str());
    // heavy penalties have kinks at which a line search on difference quotients may stop early; light ones have to be minimised
    else if (w < 10 && !(g.norm() <= 2e-3 * std::max(1.0, x.norm()))) vp::fail("penalised:not_minimal", "gradient " + std::to_string(g.norm()) + ": " + o.str());
    vp::nontrivial(); vp::sample([&] { return o.str(); });
  }
  return vp::finish();
}
