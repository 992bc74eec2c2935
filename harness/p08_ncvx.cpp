// Non-convex quadratic constraints (trust region and soft constraint heuristics): every stage of the
// successive convexification is computed by the reference and the final answer compared.
#include <vp.hpp>
#include <conic.hpp>
using namespace cn;
struct Ncvx { Qp p; std::vector<std::pair<Conic, char>> q; V guess; int warm, refs; double thr, weight; std::vector<int> bin; };
static std::string str(const Ncvx& m) { std::ostringstream o; o << cn::str(m.p) << " guess " << cn::str(m.guess); for (auto& k : m.q) { Qp t; t.n = m.p.n; t.c = V::Zero(t.n); t.cones = {k.first}; o << (k.second == 't' ? " trust-region" : k.second == 's' ? " soft" : " convex") << cn::str(t).substr(cn::str(t).find("s.t.") + 4); } o << " warm=" << m.warm << " refinements=" << m.refs << " threshold=" << m.thr << " weight=" << m.weight; return o.str(); }
static Qp stage(const Ncvx& m, const V& g, int iter, bool warm) {
  Qp p = m.p;
  for (auto& k : m.q) { p.cones.push_back(k.first); if (warm || k.second == 'n') continue;
    V a = k.first.grad(g); double d = k.first.value(g) - a.dot(g);   // lin(x) = a'x + d
    if (k.second == 't') p.rows.push_back({a, -d - std::pow(m.thr, iter), '>'}); else p.terms.push_back({m.weight, a, d}); }
  return p;
}
static void check(const char* sec, const Ncvx& mp, int form, Model* reuse = nullptr) {
  Model own; Model& m = reuse ? *reuse : own; settings(m.getSetting()); if (reuse) m.clean(); auto& s = m.getSetting();
  s.set(SolverIntParam_WarmStartIters, mp.warm); s.set(SolverIntParam_NumberRefinementsTrustRegion, mp.refs); s.set(SolverDoubleParam_TrustRegionThreshold, mp.thr); s.set(SolverDoubleParam_SoftConstraintWeightReduced, mp.weight); s.set(SolverDoubleParam_SoftConstraintWeightFull, 3 * mp.weight + 1);
  std::vector<Var> v; const Qp& p = mp.p; for (int i = 0; i < p.n; i++) { bool bn = std::count(mp.bin.begin(), mp.bin.end(), i); v.push_back(m.addVar(bn ? VarType::Binary : VarType::Continuous, bn ? 0 : -1e3, bn ? 1 : 1e3, mp.guess(i))); }
  int kk = 0; auto add = [&] { for (auto& k : mp.q) { DCPQuadExpr q; for (auto& t : k.first.terms) q.addQuaTerm(t.w, lin(v, t.a, t.b, form)); LinExpr r; if ((form + kk++) % 2) q.addLinTerm(lin(v, k.first.a, k.first.b, form)); else r = lin(v, -k.first.a, -k.first.b, form);
      m.addQuaConstr(q, "<", r, k.second == 't' ? QuadConstrApprox::TrustRegion : k.second == 's' ? QuadConstrApprox::SoftConstraint : QuadConstrApprox::None); } };
  if (form % 2) add(); load(m, v, p, form); if (form % 2 == 0) add();
  Var late; bool hasLate = form % 3 == 0; if (hasLate) { late = m.addVar(VarType::Continuous, -1e3, 1e3, 0); m.addLinConstr(LinExpr(late), "=", LinExpr(v[0]) + 1.0); }  // a variable that comes after everything else
  ExitCode e = m.optimize(); V x = values(v);
  std::string S(sec); vp::count(std::string("verdict_") + name(e));
  auto say = [&](const std::string& what) { std::ostringstream o; o.precision(9); o << what << ": " << name(e) << " x=" << cn::str(x) << " for " << str(mp); return o.str(); };
  double sc = std::max(1., x.cwiseAbs().maxCoeff()); sc *= sc;
  // whatever the path, an answer meets the constraints and lies in the last trust region
  if (e == ExitCode::Optimal || e == ExitCode::OptimalInacc) {
    double tol = (e == ExitCode::Optimal ? 1e-5 : 2e-3) * sc; if (!mp.bin.empty()) tol = 2e-3 * sc;
    if (hasLate && !(std::fabs(late.get(SolverDoubleParam_X) - x(0) - 1) <= tol)) { vp::fail(S + ":last_variable", say("a variable tied to the first one plus one reads " + std::to_string(late.get(SolverDoubleParam_X)))); return; }
    if (!(p.viol(x) <= tol)) { vp::fail(S + ":infeasible_point", say("constraint violated")); return; }
    for (int i : mp.bin) if (!(std::min(std::fabs(x(i)), std::fabs(x(i) - 1)) <= 1e-3)) { vp::fail(S + ":fractional", say("binary variable not integral")); return; }
    for (auto& k : mp.q) { double q = k.first.value(x); if (!(q <= tol)) { vp::fail(S + ":quadratic_violated", say("quadratic constraint violated by " + std::to_string(q))); return; }
      if (k.second == 't' && !(q >= -std::pow(mp.thr, mp.refs + 1) - tol)) { vp::fail(S + ":outside_trust_region", say("quadratic equality missed by " + std::to_string(q))); return; } }
  }
  if (!mp.bin.empty() && mp.thr > 100) {  // the heuristics do not bite
    Mip mi{p, mp.bin}; for (auto& k : mp.q) mi.p.cones.push_back(k.first); Best b = best(mi);
    if (e == ExitCode::Optimal || e == ExitCode::OptimalInacc) { if (!b.feasible) { vp::fail(S + ":claims_optimal", say("claimed optimal, but infeasible")); return; } if (e == ExitCode::Optimal && !(p.cost(x) - b.f <= 3e-3 + 1e-4 * std::fabs(b.f))) { vp::fail(S + ":suboptimal", say("not optimal, the optimum is " + cn::str(b.x))); return; } }
    else if (e == ExitCode::PrimalInf) { if (b.feasible && b.strict) { vp::fail(S + ":claims_infeasible", say("claimed infeasible, but feasible is " + cn::str(b.x))); return; } }
    else { vp::count("no_answer"); if (b.feasible && b.strict) { vp::fail(S + ":no_answer", say("no answer")); return; } } }
  if (!mp.bin.empty()) { vp::nontrivial(e == ExitCode::Optimal); vp::sample([&] { return str(mp) + " -> " + name(e) + " " + cn::str(x); }); return; }
  bool heur = false; for (auto& k : mp.q) heur |= k.second != 'n';
  V g; Qp last; double f = 0; bool chain = true;
  auto run = [&](double eps) { g = mp.guess; chain = true; bool first = true;
    auto step = [&](int iter, bool warm) { if (!first) for (int i = 0; i < g.size(); i++) g(i) += eps * (1 - 0.3 * i); first = false; last = stage(mp, g, iter, warm); V y; if (!chain || solve(last, y, f, 50) != Solved) { chain = false; return; } g = y; };
    if (mp.warm && heur) step(0, true); step(1, false); if (heur) for (int r = 1; r <= mp.refs; r++) step(r + 1, false); };
  if (heur && mp.refs + (mp.warm > 0) > 0) {  // the chain may be unstable, e.g. where a gradient vanishes
    V lo; run(1e-4); if (chain) lo = g; bool c1 = chain; run(-1e-4); if (c1 && chain && (lo - g).norm() > 5e-3) { vp::count("unstable_chain"); return; } }
  run(0);
  if (!chain) { if (e == ExitCode::Optimal && mp.refs == 0 && !mp.warm) vp::fail(S + ":claims_optimal", say("claimed optimal, convexified problem has no solution")); vp::count("stage_without_solution"); return; }
  if (!(e == ExitCode::Optimal || e == ExitCode::OptimalInacc)) { vp::count("no_answer"); Qp t = last; for (auto& r : t.rows) if (r.sense != '=') r.b += r.sense == '<' ? -0.02 : 0.02; for (auto& k : t.cones) k.b += 0.02; V y; double fy; if (cutmin(t, 50, y, fy)) vp::fail(S + ":no_answer", say("no answer; expected " + cn::str(g))); return; }
  if (!((x - g).cwiseAbs().maxCoeff() <= 1e-2 * (1 + g.cwiseAbs().maxCoeff())) && !(last.viol(x) <= 1e-4 * sc && std::fabs(last.cost(x) - f) <= 1e-4 * (1 + std::fabs(f)))) {
    Qp t = last; for (auto& r : t.rows) if (r.sense != '=') r.b += r.sense == '<' ? -1e-4 : 1e-4; for (auto& k : t.cones) k.b += 1e-4; V y; double fy; if (!cutmin(t, 50, y, fy) || (y - g).norm() > 1e-2) { vp::count("ill_conditioned"); return; }
    vp::fail(S + ":wrong_solution", say("expected " + cn::str(g))); return; }
  vp::nontrivial(heur); vp::sample([&] { return str(mp) + " -> " + name(e) + " " + cn::str(x); });
}
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet q; long k = 0; Model reused;
  auto v2 = [](double a, double b) { V v(2); v << a, b; return v; }; V z = v2(0, 0), X = v2(1, 0), Y = v2(0, 1);
  std::vector<Conic> K = {{false, {{1, X, 0}, {1, Y, 0}}, z, -4}, {false, {{2, X, -1}, {0.5, Y, 1}}, v2(0.5, 0), -2}, {false, {{1, X, 0}}, v2(0, -1), 0}, {false, {{0.5, v2(1, 1), -1}}, v2(1, -1), 0.25},
    {false, {{0.25, v2(1, -1), 0.5}, {1, v2(1, 1), 0}, {1, Y, 0}}, v2(0, -1), -3}, {false, {}, v2(1, 1), -2}};
  std::vector<std::vector<Row>> R = {{}, {{X, 1.5, '<'}}, {{v2(1, 1), 1, '>'}}, {{v2(1, -1), 0.5, '='}}, {{Y, -0.5, '>'}, {v2(1, 2), 3, '<'}}, {{v2(-1, 2), 0, '<'}, {X, -1, '>'}}};
  std::vector<std::vector<Term>> T = {{{1, X, -1}, {2, Y, 2}}, {{1, X, 0}, {1, Y, 0}}, {{0.5, v2(1, 1), -2}, {1, v2(1, -1), 0}, {0.2, X, 0}}};
  std::vector<V> G = {v2(0, 0), v2(1, 1), v2(-1, 2), v2(2, -0.5), v2(0.3, -1.7)};
  std::vector<V> C = {z, v2(-1, 0.5), v2(2, 1)};
  for (char kind : {'t', 's'}) for (auto& c : K) for (auto& r : R) for (auto& t : T) for (auto& cc : C) for (auto& g : G) for (int warm : {0, 30}) for (int refs : {0, 1, 2}) for (double thr : {0.5, 0.1}) for (double w : {2., 200.}) {
    if (kind == 't' && w > 2) continue; if (kind == 's' && thr > 0.2) continue;
    if (!th && (k + refs) % 4) { k++; continue; }
    if (k++, vp::next("one_constraint")) check("one_constraint", {{2, r, t, cc}, {{c, kind}}, g, warm, refs, thr, w}, k % 9, k % 2 ? &reused : nullptr); }
  for (size_t a = 0; a < K.size(); a++) for (size_t b = 0; b < K.size(); b++) for (auto& kinds : {"ts", "st", "tt", "ss", "nt", "tn", "sn", "ns"}) for (size_t r = 0; r < R.size(); r++) for (size_t t = 0; t < T.size(); t++) for (size_t g = 0; g < G.size(); g++) for (int warm : {0, 30}) for (int refs : {0, 1}) {
    if ((a + 2 * b + 3 * r + 5 * t + 7 * g + warm + refs) % (th ? 2 : 7)) continue;
    if (k++, vp::next("two_constraints")) check("two_constraints", {{2, R[r], T[t], C[(a + b) % 3]}, {{K[a], kinds[0]}, {K[b], kinds[1]}}, G[g], warm, refs, 0.3, 20}, k % 9, k % 2 ? &reused : nullptr); }
  // with second-order cones and convex quadratic constraints in the same model
  for (auto& s : {Conic{true, {{1, X, 0}, {1, Y, 0}}, z, -2.5}, Conic{true, {{1, v2(1, 1), 0}}, v2(0.5, -1), -1}}) for (size_t a = 0; a < K.size(); a++) for (size_t b = 0; b < K.size(); b++) for (auto& kinds : {"tn", "sn", "st"}) for (size_t r = 0; r < R.size(); r += 2) for (size_t g = 0; g < G.size(); g++) for (int warm : {0, 30}) for (int refs : {0, 1}) {
    if ((a + 2 * b + 3 * r + 7 * g + warm + refs) % (th ? 1 : 3)) continue;
    if (k++, vp::next("mixed_cones")) check("mixed_cones", {{2, R[r], T[(a + g) % 3], C[b % 3], {s}}, {{K[a], kinds[0]}, {K[b], kinds[1]}}, G[g], warm, refs, 0.3, 20}, k % 9, k % 2 ? &reused : nullptr); }
  // binary and non-convex: a switched circle
  {
    auto v3 = [](double a, double b, double c) { V v(3); v << a, b, c; return v; };
    for (double r2 : {1., 4.}) for (char kind : {'t', 's'}) for (double w : {-1., 2.}) for (auto& g : {v3(0, 1, 1), v3(1, 0.5, -1), v3(0, 0, 0)}) for (int warm : {0, 30}) for (int refs : {0, 1}) for (double d : {-1., 0.5, 2.}) for (int rr = 0; rr < 3; rr++) {
      Conic c{false, {{1, v3(0, 1, 0), 0}, {1, v3(0, 0, 1), 0}}, v3(-r2, 0, 0), -1};
      Qp p; p.n = 3; p.c = v3(w, 0, 0); p.terms = {{1, v3(0, 1, 0), -d}, {1, v3(0, 0, 1), -1}, {1, v3(1, 0, 0), -0.4}}; if (rr == 1) p.rows = {{v3(-1, 1, 0), 0.5, '<'}}; if (rr == 2) p.rows = {{v3(1, 1, 1), 2, '>'}, {v3(1, 0, 0.5), 1.2, '<'}};
      if (k++, vp::next("binary")) check("binary", {p, {{c, kind}}, g, warm, refs, 0.3, 5, {0}}, k % 9, k % 2 ? &reused : nullptr); }
  }
  // binaries and heuristics that do not bite (wide trust region, negligible weight): the mixed-integer optimum
  for (char kind : {'t', 's'}) for (double M1 : {2., 5.}) for (double d : {-1., 1., 3.}) for (double f1 : {0.5, 2.}) for (double f2 : {1., 4.}) for (char s : {'<', '>', '='}) for (double tq : {0.1, 2.}) for (double tgt : {-1., 0.5, 1.5}) for (int warm : {0, 30}) for (int refs : {0, 1}) {
    if (!th && (k + refs) % 3) { k++; continue; }
    auto v4 = [](double a, double b, double c, double d) { V v(4); v << a, b, c, d; return v; };
    Qp p; p.n = 4; p.c = v4(f1, f2, 0, 0); p.rows = {{v4(-M1, 0, 1, 0), 0, '<'}, {v4(0, -M1, 0, 1), 0, '<'}, {v4(-M1, 0, -1, 0), 0, '<'}, {v4(0, -M1, 0, -1), 0, '<'}, {v4(0, 0, 1, 1), d, s}};
    p.terms = {{tq, v4(0, 0, 1, 0), -tgt}, {tq, v4(0, 0, 0, 1), tgt / 2}};
    Conic c{false, {{1, v4(0, 0, 1, 0), 0}, {1, v4(0, 0, 0, 1), 0}}, v4(0, 0, 0, 0), -16};
    if (k++, vp::next("switched")) check("switched", {p, {{c, kind}}, v4(k % 2, 0, 0.3 * (k % 3), 1), warm, refs, 300, 1e-7, {0, 1}}, k % 9, k % 3 ? &reused : nullptr); }
  { std::vector<int> bin = {0, 1, 2}; auto v3 = [](double a, double b, double c) { V v(3); v << a, b, c; return v; };
    std::vector<V> W = {v3(1, 1, 1), v3(2, 3, 4), v3(-2, 3, 1), v3(1, 0, -1), v3(5, 4, 3)};
    for (char kind : {'t', 's'}) for (auto& c : W) for (double sg : {-1., 1.}) for (int quad = 0; quad < 2; quad++) for (auto& a : W) for (char s : {'<', '>', '='}) for (double b : {1., 2.5, 4., 7.}) for (auto& a2 : W) for (char s2 : {'<', '>'}) {
      if (!th && k % 7) { k++; continue; }
      Qp p; p.n = 3; p.c = sg * c; p.rows = {{a, b, s}, {a2, 0.5, s2}}; if (quad) p.terms = {{1, v3(1, 0, 0), -0.3}, {2, v3(0, 1, 0), -0.6}, {3, v3(0, 0, 1), -0.9}};
      Conic q{false, {{1, v3(1, 1, 0), 0}, {1, v3(0, 0, 1), 0}}, v3(0, 0, 0), -8};
      if (k++, vp::next("three_binaries")) check("three_binaries", {p, {{q, kind}}, v3(k % 2, 1, 0.5), k % 4 ? 0 : 30, int(k % 3 == 0), 300, 1e-7, bin}, k % 9, k % 3 ? &reused : nullptr); } }
  return vp::finish();
}
