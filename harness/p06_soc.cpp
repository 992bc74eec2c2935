// Convex problems with quadratic and second-order cone constraints through the modelling
// interface, against a cutting plane reference.
#include <vp.hpp>
#include <conic.hpp>
using namespace cn;
static bool recession(const Qp& p) {
  Qp q; q.n = p.n; q.c = p.c; for (auto& r : p.rows) { Row s = r; s.b = 0; q.rows.push_back(s); } for (auto& t : p.terms) q.rows.push_back({t.a, 0, '='});
  for (auto& k : p.cones) if (k.soc) { Conic c = k; c.b = 0; for (auto& t : c.terms) t.b = 0; q.cones.push_back(c); } else { for (auto& t : k.terms) q.rows.push_back({t.a, 0, '='}); q.rows.push_back({k.a, 0, '<'}); }
  V x; double f; cutmin(q, 1, x, f); return f < -1e-6;
}
static bool regular(const Qp& p) {
  Qp q = p; for (auto& r : q.rows) { if (r.sense == '<') r.b -= 0.05; else if (r.sense == '>') r.b += 0.05; } for (auto& k : q.cones) k.b += 0.05;
  V x; double g; if (!cutmin(q, 50, x, g)) return false;
  for (int i = 0; i < p.n; i++) for (double s : {-0.05, 0.05}) { Qp r = p; r.c(i) += s; V y; double a; if (solve(r, y, a, 50) != Solved) return false; }
  return true;
}
// optimum with all constraints tightened a little: what a solver with tolerances may return when the
// feasible set is degenerate (a single point, say)
static double tightened(const Qp& p, double f0) {
  Qp q = p; for (auto& r : q.rows) { if (r.sense == '<') r.b -= 1e-6; else if (r.sense == '>') r.b += 1e-6; } for (auto& k : q.cones) k.b += 1e-6;
  V x; double f; return cutmin(q, 200, x, f) ? f : f0 + 0.05 * (1 + std::fabs(f0));
}
static void check(const char* sec, const Qp& p, int form, Model* reuse = nullptr, int iters = 100) {
  Model own; Model& m = reuse ? *reuse : own; settings(m.getSetting()); if (reuse) m.clean();
  bool cut = iters < 100;   // stopped early: only verdicts at full precision are judged at full precision
  if (cut) { auto& s = m.getSetting(); s.set(SolverIntParam_SolverMaxIters, iters); s.set(SolverDoubleParam_FeasibilityTolInacc, 1e-2); s.set(SolverDoubleParam_DualityGapAbsTolInacc, 1e-2); s.set(SolverDoubleParam_DualityGapRelTolInacc, 1e-2); }
  std::vector<Var> v; load(m, v, p, form);
  ExitCode e = m.optimize(); V x = values(v), xr; double fr; Verdict w = solve(p, xr, fr);
  std::string S(sec); auto say = [&](const char* what) { std::ostringstream o; o.precision(9); o << what << ": " << name(e) << " x=" << str(x) << " for " << str(p); if (w == Solved) o << " whose optimum is " << fr << " at " << str(xr); else o << (w == Infeasible ? " which is infeasible" : " which is unbounded"); return o.str(); };
  double sc = std::max(1., x.cwiseAbs().maxCoeff()); sc *= sc;
  vp::count(std::string("verdict_") + name(e));
  if (e == ExitCode::Optimal || e == ExitCode::OptimalInacc) {
    bool full = e == ExitCode::Optimal; if (cut && !full && w != Solved) return;
    if (w == Infeasible || (w == Unbounded && recession(p))) { vp::fail(S + ":claims_optimal", say("claimed optimal")); return; }  // an infimum that is not attained only has to be approached
    if (!(p.viol(x) <= (full ? 1e-5 : cut ? 0.1 : 2e-3) * sc)) { vp::fail(S + ":infeasible_point", say("constraint violated")); return; }
    if (!(p.cost(x) - fr <= (full ? 2e-5 : cut ? 0.2 : 5e-3) * (1 + std::fabs(fr))) && !(p.cost(x) <= tightened(p, fr) + (full ? 2e-5 : cut ? 0.2 : 5e-3) * (1 + std::fabs(fr)))) { vp::fail(S + ":suboptimal", say("not optimal")); return; }
    double act = -1e9; for (auto& k : p.cones) act = std::max(act, k.value(x)); vp::nontrivial(act > -1e-3);
  } else if (e == ExitCode::PrimalInf || e == ExitCode::PrimalInfInacc) {
    if (cut && e == ExitCode::PrimalInfInacc) return;
    if (w != Infeasible) { vp::fail(S + ":claims_infeasible", say("claimed infeasible")); return; } vp::nontrivial();
  } else if (e == ExitCode::DualInf || e == ExitCode::DualInfInacc) {
    if (cut && e == ExitCode::DualInfInacc) return;
    if (!recession(p)) { vp::fail(S + ":claims_unbounded", say("claimed unbounded")); return; } vp::nontrivial();
  } else { if (cut) return; vp::count("no_answer"); if (w == Solved && regular(p)) vp::fail(S + ":no_answer", say("no answer on a regular problem")); }
  vp::sample([&] { std::ostringstream o; o << str(p) << " -> " << name(e) << " " << str(x); return o.str(); });
}
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet q;
  auto v2 = [](double a, double b) { V v(2); v << a, b; return v; };
  V z = v2(0, 0), X = v2(1, 0), Y = v2(0, 1);
  std::vector<Conic> K = {
    {false, {{1, X, 0}, {1, Y, 0}}, z, -4},                       // disc
    {false, {{2, X, -1}, {0.5, Y, 1}}, z, -1},                    // ellipse off centre
    {false, {{1, X, 0}}, v2(0, -1), 0},                           // parabola x0^2 <= x1
    {false, {{1, v2(1, 1), -1}}, v2(1, -1), 0.5},                 // tilted parabola
    {false, {{3, v2(1, -1), 0}, {1, v2(1, 1), 2}, {1, Y, 0}}, v2(1, 0), -6},
    {false, {{1, v2(1, 1), 0}}, z, -1},                           // strip
    {true, {{1, X, 0}, {1, Y, 0}}, z, -1.5},                      // ball
    {true, {{1, X, -2}, {1, Y, 1}}, v2(0, 0.5), -2},              // sheared ball
    {true, {{1, X, 1}}, v2(0, -1), 0},                            // |x0 + 1| <= x1
    {true, {{1, X, 0}, {1, Y, 0}, {1, z, 1}}, v2(-1, -1), -0.5},  // hyperbola branch
    {true, {{1, v2(1, 2), 0}, {1, v2(2, -1), 1}, {1, X, -1}}, v2(0.25, 0), -3},
    {true, {{1, Y, 0.5}}, v2(2, 0), 1},
    {false, {{1, X, 0}, {1, Y, 0}}, z, 1},                        // empty
    {true, {{1, X, -3}, {1, Y, 0}}, z, -1}};
  std::vector<std::vector<Row>> R = {{}}; std::vector<Row> rows; for (auto& d : {v2(1, 0), v2(0, 1), v2(1, 1), v2(-1, 2)}) for (double k : {-1., 0.5, 2.}) for (char s : {'<', '>', '='}) rows.push_back({d, k, s});
  for (auto& r : rows) R.push_back({r}); for (size_t i = 0; i < rows.size(); i++) for (size_t j = i + 5; j < rows.size(); j += (th ? 3 : 7)) R.push_back({rows[i], rows[j]});
  std::vector<std::vector<Term>> T = {{}, {{1, X, -1}, {2, Y, 2}}, {{0.5, v2(1, 1), 1}}, {{3, v2(1, -2), 0.5}, {0.25, v2(1, 1), -2}, {1, Y, 0}}};
  std::vector<V> C = {v2(-1, 0), v2(0, 1), v2(1, 1), v2(2, -1), v2(0, 0), v2(-1, -3)};
  int n = K.size(); long k = 0; Model reused;
  for (auto& t : T) for (auto& c : C) for (auto& r : R) for (int i = 0; i < n; i++) { if (r.size() > 1 && !th && (k + i) % 3) { k++; continue; } if (k++, vp::next("one_cone")) check("one_cone", {2, r, t, c, {K[i]}}, k % 9, k % 2 ? &reused : nullptr); }
  for (size_t t = 0; t < T.size(); t++) for (size_t c = 0; c < C.size(); c++) for (size_t r = 0; r < R.size(); r++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if ((i + 3 * j + 5 * r + 7 * t + 11 * c) % (th ? 5 : 29)) continue; if (k++, vp::next("two_cones")) check("two_cones", {2, R[r], T[t], C[c], {K[i], K[j]}}, k % 9, k % 2 ? &reused : nullptr); }
  for (size_t t = 0; t < T.size(); t++) for (size_t c = 0; c < C.size(); c++) for (size_t r = 0; r < R.size(); r += 3) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int l = 0; l < n; l++) { if ((i + 3 * j + 5 * r + 7 * t + 11 * c + 13 * l) % (th ? 41 : 241)) continue; if (k++, vp::next("three_cones")) check("three_cones", {2, R[r], T[t], C[c], {K[i], K[j], K[l]}}, k % 9); }
  // runs that are stopped early
  for (auto& t : T) for (auto& c : C) for (size_t r = 0; r < R.size(); r += 2) for (int i = 0; i < n; i++) for (int it : {3, 4, 5, 6, 7, 8, 10, 12}) { if ((i + 3 * r + it + k) % (th ? 3 : 17)) { k++; continue; } if (k++, vp::next("few_iterations")) check("few_iterations", {2, R[r], t, c, {K[i]}}, k % 9, k % 2 ? &reused : nullptr, it); }
  // three variables on a plane through a ball, a cone and a paraboloid
  {
    auto v3 = [](double a, double b, double c) { V v(3); v << a, b, c; return v; }; V o = V::Zero(3);
    std::vector<Conic> K3 = {{false, {{1, v3(1, 0, 0), 0}, {1, v3(0, 1, 0), 1}, {1, v3(0, 0, 1), -1}}, o, -4}, {true, {{1, v3(1, 0, 0), 0}, {1, v3(0, 1, 0), 0}}, v3(0, 0, -1), 0}, {false, {{1, v3(1, 0, 0), 0}, {2, v3(0, 1, -1), 0}}, v3(0, 0, -1), 0.5}, {true, {{1, v3(1, 1, 0), 0}, {1, v3(0, 1, 0), 2}, {1, v3(0, 0, 2), 0}}, o, -3}};
    for (auto& e : {v3(1, 1, 1), v3(1, -1, 0), v3(0, 0, 1)}) for (double b : {0., 1.}) for (auto& c : {v3(1, 0, 0), v3(0, -1, 1), v3(-1, 2, -1)}) for (auto& t : {std::vector<Term>{}, std::vector<Term>{{1, v3(1, 0, 1), 0}, {0.5, v3(0, 1, 0), -3}}}) for (size_t i = 0; i < K3.size(); i++) for (size_t j = i; j < K3.size(); j++) {
      if (k++, vp::next("three_variables")) check("three_variables", {3, {{e, b, '='}}, t, c, {K3[i], K3[j]}}, k % 9); }
  }
  return vp::finish();
}
