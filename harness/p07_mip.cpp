// Mixed-integer convex programs (branch and bound) against enumeration of the binary variables.
#include <vp.hpp>
#include <conic.hpp>
using namespace cn;
// a direction that keeps every constraint and lowers the cost
static bool direction(const Mip& m) {
  Qp q; q.n = m.p.n; q.c = m.p.c; for (auto& r : m.p.rows) q.rows.push_back({r.a, 0, r.sense}); for (auto& t : m.p.terms) q.rows.push_back({t.a, 0, '='});
  for (int i : m.bin) { V u = V::Zero(q.n); u(i) = 1; q.rows.push_back({u, 0, '='}); }
  for (auto& k : m.p.cones) if (k.soc) { Conic c = k; c.b = 0; for (auto& t : c.terms) t.b = 0; q.cones.push_back(c); } else { for (auto& t : k.terms) q.rows.push_back({t.a, 0, '='}); q.rows.push_back({k.a, 0, '<'}); }
  V x; double f; cutmin(q, 1, x, f); return f < -1e-6;
}
static void check(const char* sec, const Mip& mp, int form, Model* reuse = nullptr, int cap = 200, double gap = 1e-3) {
  Best b = best(mp);
  Model own; Model& m = reuse ? *reuse : own; settings(m.getSetting()); m.getSetting().set(SolverIntParam_BnBMaxIters, cap); m.getSetting().set(SolverDoubleParam_BnBAbsSubOptGap, gap); if (reuse) m.clean();
  std::vector<Var> v; const Qp& p = mp.p;
  for (int i = 0; i < p.n; i++) { bool bn = std::count(mp.bin.begin(), mp.bin.end(), i); v.push_back(m.addVar(bn ? VarType::Binary : VarType::Continuous, bn ? 0 : -1e3, bn ? 1 : 1e3, 0)); }
  load(m, v, p, form);
  ExitCode e = m.optimize(); V x = values(v);
  std::string S(sec); auto say = [&](const char* what) { std::ostringstream o; o.precision(9); o << what << ": " << name(e) << " x=" << cn::str(x) << " for " << str(mp); if (b.feasible) o << " whose optimum is " << b.f << " at " << cn::str(b.x); else o << (b.unbounded ? " which is unbounded" : " which is infeasible"); return o.str(); };
  vp::count(std::string("verdict_") + name(e));
  if (e == ExitCode::Optimal || e == ExitCode::OptimalInacc) {
    double sc = std::max(1., x.cwiseAbs().maxCoeff());
    if (!b.feasible) { vp::fail(S + ":claims_optimal", say("claimed optimal")); return; }
    for (int i : mp.bin) if (!(std::min(std::fabs(x(i)), std::fabs(x(i) - 1)) <= 1e-3)) { vp::fail(S + ":fractional", say("binary variable not integral")); return; }
    if (!(p.viol(x) <= 1e-3 * sc)) { vp::fail(S + ":infeasible_point", say("constraint violated")); return; }
    if (e == ExitCode::Optimal && !(p.cost(x) - b.f <= 2 * gap + (gap < 1e-3 ? 1e-5 : 1e-4) * std::fabs(b.f))) { vp::fail(S + ":suboptimal", say("not optimal")); return; }
    if (b.unbounded) { vp::fail(S + ":claims_optimal", say("claimed optimal")); return; }
  } else if (e == ExitCode::DualInf || e == ExitCode::DualInfInacc) { if (!b.unbounded && !direction(mp)) { vp::fail(S + ":claims_unbounded", say("claimed unbounded")); return; } vp::nontrivial();
  } else if (b.unbounded) { if (e == ExitCode::PrimalInf) { vp::fail(S + ":claims_infeasible", say("claimed infeasible")); return; }
  } else if (e == ExitCode::PrimalInf || (e == ExitCode::PrimalInfInacc && cap == 200)) { if (b.feasible && b.strict) { vp::fail(S + ":claims_infeasible", say("claimed infeasible")); return; } vp::nontrivial(); }
  else if (cap == 200 && e != ExitCode::PrimalInfInacc) { vp::count("no_answer"); if (b.feasible && b.strict) { vp::fail(S + ":no_answer", say("no answer")); return; } }
  // the relaxation alone does not already solve it
  if (b.feasible && !b.unbounded) { Qp q = p; for (int i : mp.bin) { V u = V::Zero(p.n); u(i) = 1; q.rows.push_back({u, 0, '>'}); q.rows.push_back({u, 1, '<'}); } V y; double g; solve(q, y, g, 200); vp::nontrivial(g < b.f - 1e-3); }
  vp::sample([&] { std::ostringstream o; o << str(mp) << " -> " << name(e) << " " << cn::str(x); return o.str(); });
}
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet q; long k = 0; Model reused;
  auto vec = [](std::initializer_list<double> l) { V v(l.size()); int i = 0; for (double d : l) v(i++) = d; return v; };
  // one binary and one continuous variable
  std::vector<Row> R; for (auto& d : {vec({1, 0}), vec({0, 1}), vec({1, 1}), vec({2, -1})}) for (double b : {-0.5, 0.5, 1.5}) for (char s : {'<', '>', '='}) R.push_back({d, b, s});
  std::vector<std::vector<Term>> T = {{{1, vec({0, 1}), -1}}, {{1, vec({1, 0}), -0.25}, {2, vec({0, 1}), 2}}, {{10, vec({1, 1}), -0.75}, {1, vec({0, 1}), 0}}, {}};
  std::vector<Conic> K = {{false, {{1, vec({1, 0}), 0}, {1, vec({0, 1}), 0}}, vec({0, 0}), -1.5}, {true, {{1, vec({1, 1}), -0.5}, {1, vec({0, 1}), 1}}, vec({0, 0}), -2.2}};
  for (auto& t : T) for (auto& c : {vec({0, 0}), vec({-3, 1}), vec({2, -1})}) for (size_t i = 0; i < R.size(); i++) for (size_t j = i; j < R.size(); j++) for (int w = 0; w < 2; w++) {
    if (k++, vp::next("one_binary")) check("one_binary", {{2, {R[i], R[j]}, t, c}, {w}}, k % 9, k % 2 ? &reused : nullptr); }
  for (auto& t : T) for (auto& c : {vec({0, 0}), vec({-3, 1}), vec({2, -1})}) for (size_t i = 0; i < R.size(); i++) for (auto& cone : K) for (int w = 0; w < 3; w++) {
    Mip m{{2, {R[i]}, t, c, {cone}}, w == 2 ? std::vector<int>{0, 1} : std::vector<int>{w}};
    if (k++, vp::next("cone")) check("cone", m, k % 9, k % 2 ? &reused : nullptr); }
  // knapsacks and set problems over two to four binaries
  std::vector<V> W2 = {vec({1, 1}), vec({2, 3}), vec({-1, 2}), vec({3, -2})}, W3 = {vec({1, 1, 1}), vec({2, 3, 4}), vec({-2, 3, 1}), vec({1, 0, -1}), vec({5, 4, 3})}, W4 = {vec({1, 1, 1, 1}), vec({2, 3, 4, 5}), vec({-2, 3, 1, -4}), vec({7, 5, 4, 3})};
  auto all = [&](const std::vector<V>& W, int n, int stride, const char* sec, double scale = 1, double gap = 1e-3) {
    std::vector<int> bin; for (int i = 0; i < n; i++) bin.push_back(i);
    std::vector<std::vector<Term>> Q(1); { std::vector<Term> t; for (int i = 0; i < n; i++) { V u = V::Zero(n); u(i) = 1; t.push_back({1. + i, u, -0.3 * (i + 1)}); } Q.push_back(t); V o = V::Ones(n); Q.push_back({{2, o, -1.3}}); }
    for (auto& c : W) for (double sg : {-1., 1.}) for (auto& t : Q) for (auto& a : W) for (char s : {'<', '>', '='}) for (double b : {0., 1., 2.5, 4., 7.}) for (auto& a2 : W) for (char s2 : {'<', '>'}) for (double b2 : {0.5, 3.}) {
      if (!th && k % stride) { k++; continue; }
      if (k++, vp::next(sec)) { std::vector<Term> ts = t; for (auto& x : ts) x.w *= scale; if (gap < 1e-3 && k % 2) ts.push_back({1, V::Zero(n), 3}); check(sec, {{n, {{a, b, s}, {a2, b2, s2}}, ts, sg * scale * c}, bin}, k % 9, k % 3 ? &reused : nullptr, 200, gap); } } };
  all(W2, 2, 5, "two_binaries"); all(W3, 3, 23, "three_binaries"); all(W4, 4, 29, "four_binaries");
  // costs that differ by little, with a gap smaller than that
  all(W2, 2, 11, "close_costs_two", 0.01, 1e-5); all(W3, 3, 41, "close_costs_three", 0.004, 1e-5);
  // two binaries switching two continuous variables (big-M style), and exhausted node budgets
  for (double M1 : {2., 5.}) for (double d : {-1., 1., 3.}) for (double f1 : {0.5, 2.}) for (double f2 : {1., 4.}) for (char s : {'<', '>', '='}) for (double tq : {0.1, 2.}) for (double tgt : {-1., 0.5, 1.5}) for (int cap : {200, 3, 2}) {
    Qp p; p.n = 4; p.c = vec({f1, f2, 0, 0});
    p.rows = {{vec({-M1, 0, 1, 0}), 0, '<'}, {vec({0, -M1, 0, 1}), 0, '<'}, {vec({-M1, 0, -1, 0}), 0, '<'}, {vec({0, -M1, 0, -1}), 0, '<'}, {vec({0, 0, 1, 1}), d, s}};
    p.terms = {{tq, vec({0, 0, 1, 0}), -tgt}, {tq, vec({0, 0, 0, 1}), tgt / 2}};
    if (k++, vp::next("switched")) check("switched", {p, {0, 1}}, k % 9, k % 2 ? &reused : nullptr, cap); }
  return vp::finish();
}
