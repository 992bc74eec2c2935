// Linear and convex quadratic programs through the modelling interface: every verdict and
// every solution of the interior point solver against face enumeration.
#include <vp.hpp>
#include <conic.hpp>
using namespace cn;
// a direction along which constraints stay met, quadratic terms constant and cost decreases
static bool recession(const Qp& p) {
  Qp q; q.n = p.n; q.c = p.c; for (auto& r : p.rows) { Row s = r; s.b = 0; q.rows.push_back(s); } for (auto& t : p.terms) q.rows.push_back({t.a, 0, '='});
  V x; double f; boxmin(q, 1, x, f); return f < -1e-6;
}
// strictly feasible inequalities and bounded, isolated optimum
static bool regular(const Qp& p, double f) {
  Qp q = p; for (auto& r : q.rows) { if (r.a.norm() == 0) return false; if (r.sense == '<') r.b -= 0.05 * r.a.norm(); else if (r.sense == '>') r.b += 0.05 * r.a.norm(); }
  M E(0, p.n); for (auto& r : p.rows) if (r.sense == '=') { E.conservativeResize(E.rows() + 1, p.n); E.row(E.rows() - 1) = r.a.transpose(); }
  if (E.rows() && Eigen::FullPivLU<M>(E).rank() < E.rows()) return false;
  V x; double g; if (!boxmin(q, 200, x, g)) return false;
  // bounded for slightly different costs too
  for (int i = 0; i < p.n; i++) for (double s : {-0.05, 0.05}) { Qp r = p; r.c(i) += s; V y; double a; if (solve(r, y, a) != Solved) return false; }
  return true;
}
static void check(const char* sec, const Qp& p, int form, Model* reuse = nullptr, int iters = 100) {
  Model own; Model& m = reuse ? *reuse : own; settings(m.getSetting()); if (reuse) m.clean();
  bool cut = iters < 100;   // stopped early: only verdicts at full precision are judged at full precision
  if (cut) { auto& s = m.getSetting(); s.set(SolverIntParam_SolverMaxIters, iters); s.set(SolverDoubleParam_FeasibilityTolInacc, 1e-2); s.set(SolverDoubleParam_DualityGapAbsTolInacc, 1e-2); s.set(SolverDoubleParam_DualityGapRelTolInacc, 1e-2); }
  std::vector<Var> v; load(m, v, p, form);
  ExitCode e = m.optimize(); V x = values(v), xr; double fr; Verdict w = solve(p, xr, fr);
  std::string S(sec); auto say = [&](const char* what) { std::ostringstream o; o << what << ": " << name(e) << " x=" << str(x) << " for " << str(p); if (w == Solved) o << " whose optimum is " << fr << " at " << str(xr); else o << (w == Infeasible ? " which is infeasible" : " which is unbounded"); return o.str(); };
  double sc = 1; for (auto& r : p.rows) sc = std::max(sc, std::fabs(r.b)); sc = std::max(sc, x.cwiseAbs().maxCoeff());
  vp::count(std::string("verdict_") + name(e));
  if (e == ExitCode::Optimal || e == ExitCode::OptimalInacc) {
    bool full = e == ExitCode::Optimal; if (cut && !full && w != Solved) return;
    if (w != Solved) { vp::fail(S + ":claims_optimal", say("claimed optimal")); return; }
    if (!(p.viol(x) <= (full ? 1e-5 : cut ? 0.1 : 2e-3) * sc)) { vp::fail(S + ":infeasible_point", say("constraint violated")); return; }
    if (!(std::fabs(p.cost(x) - fr) <= (full ? 2e-5 : cut ? 0.2 : 5e-3) * (1 + std::fabs(fr)))) { vp::fail(S + ":suboptimal", say("not optimal")); return; }
    vp::nontrivial(!p.rows.empty() && p.viol(x) > -1);
  } else if (e == ExitCode::PrimalInf || e == ExitCode::PrimalInfInacc) {
    if (cut && e == ExitCode::PrimalInfInacc) return;
    if (w != Infeasible) { vp::fail(S + ":claims_infeasible", say("claimed infeasible")); return; } vp::nontrivial();
  } else if (e == ExitCode::DualInf || e == ExitCode::DualInfInacc) {
    if (cut && e == ExitCode::DualInfInacc) return;
    if (!recession(p)) { vp::fail(S + ":claims_unbounded", say("claimed unbounded")); return; } vp::nontrivial();
  }
  bool answered = e == ExitCode::Optimal || e == ExitCode::OptimalInacc || e == ExitCode::PrimalInf || e == ExitCode::PrimalInfInacc || e == ExitCode::DualInf || e == ExitCode::DualInfInacc;
  if (!answered && !cut) { vp::count("no_answer"); if (w == Solved && regular(p, fr)) vp::fail(S + ":no_answer", say("no answer on a regular problem")); }
  vp::sample([&] { std::ostringstream o; o << str(p) << " -> " << name(e) << " " << str(x); return o.str(); });
}
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet q;
  auto v2 = [](double a, double b) { V v(2); v << a, b; return v; }; auto v3 = [](double a, double b, double c) { V v(3); v << a, b, c; return v; };
  std::vector<Row> R, RI; for (auto& d : {v2(1, 0), v2(0, 1), v2(1, 1), v2(1, -1), v2(-1, 2)}) for (double k : {-1., 0., 2.}) for (char s : {'<', '>', '='}) R.push_back({d, k, s});
  std::vector<std::vector<Term>> T = {{}, {{1, v2(1, 0), -1}, {2, v2(0, 1), 2}}, {{0.5, v2(1, 1), 1}}, {{1, v2(1, 0), -1}}, {{3, v2(1, -2), 0.5}, {0.25, v2(1, 1), -2}, {1, v2(0, 1), 0}}};
  std::vector<V> C; for (double a : {-1., 0., 2.}) for (double b : {-1., 0., 1.}) C.push_back(v2(a, b));
  int N = R.size(); long k = 0; Model reused;
  for (auto& t : T) for (auto& c : C) { if (vp::next("no_constraints")) check("no_constraints", {2, {}, t, c}, 0); for (int i = 0; i < N; i++) if (k++, vp::next("one_row")) check("one_row", {2, {R[i]}, t, c}, k % 9); }
  for (auto& t : T) for (auto& c : C) for (int i = 0; i < N; i++) for (int j = i; j < N; j++) if (k++, vp::next("two_rows")) check("two_rows", {2, {R[i], R[j]}, t, c}, k % 9, k % 2 ? &reused : nullptr);
  for (size_t t = 0; t < T.size(); t++) for (size_t c = 0; c < C.size(); c++) for (int i = 0; i < N; i++) for (int j = i; j < N; j++) for (int l = j; l < N; l++) { if (!th && (i + 2 * j + 3 * l + c + t) % 11) continue; if (k++, vp::next("three_rows")) check("three_rows", {2, {R[j], R[l], R[i]}, T[t], C[c]}, k % 9, k % 2 ? &reused : nullptr); }
  // four inequalities: polygons
  for (size_t t = 0; t < T.size(); t++) for (size_t c = 0; c < C.size(); c++) for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) for (int l = j + 1; l < N; l++) for (int m = l + 1; m < N; m++) { if (R[i].sense == '=' || R[j].sense == '=' || R[l].sense == '=' || R[m].sense == '=') continue; if ((i + 2 * j + 3 * l + 5 * m + c + 7 * t) % (th ? 13 : 61)) continue; if (k++, vp::next("four_rows")) check("four_rows", {2, {R[j], R[l], R[i], R[m]}, T[t], C[c]}, k % 9); }
  // rows without variables
  for (auto& t : T) for (auto& c : C) for (double b : {-1., 0., 2.}) for (char s : {'<', '>', '='}) for (int i = 0; i < N; i += 2) if (k++, vp::next("constant_row")) check("constant_row", {2, {{v2(0, 0), b, s}, R[i]}, t, c}, k % 9);
  // runs that are stopped early
  for (size_t t = 0; t < T.size(); t++) for (size_t c = 0; c < C.size(); c++) for (int i = 0; i < N; i++) for (int j = i; j < N; j++) for (int it : {3, 4, 5, 6, 7, 8, 10}) { if (!th && (i + 2 * j + c + t + it) % 5) continue; if (k++, vp::next("few_iterations")) check("few_iterations", {2, {R[i], R[j]}, T[t], C[c]}, k % 9, k % 2 ? &reused : nullptr, it); }
  // badly scaled rows, variables and costs
  for (size_t t = 0; t < T.size(); t++) for (size_t c = 0; c < C.size(); c += 2) for (int i = 0; i < N; i += 1) for (int j = i + 1; j < N; j += 2) for (double s : {1e-3, 50.}) for (int w = 0; w < 3; w++) {
      if (!th && (i + j + c) % 3) continue;
      if (!(k++, vp::next("scaled"))) continue;
      Qp p{2, {R[i], R[j]}, T[t], C[c]};
      if (w == 0) { p.rows[0].a *= s; p.rows[0].b *= s; } else if (w == 1) { for (auto& r : p.rows) r.a(0) *= s; for (auto& x : p.terms) x.a(0) *= s; p.c(0) *= s; } else { p.c *= s; for (auto& x : p.terms) x.w *= s; }
      if (w == 1 && s < 1) continue;  // the optimum would lie outside the reference's box
      check("scaled", p, k % 9); }
  // three variables
  {
    std::vector<Row> R3; for (auto& d : {v3(1, 0, 0), v3(0, -1, 1), v3(1, 1, 1), v3(0, 0, -1), v3(-1, 2, 0)}) for (double b : {-1., 1.}) for (char s : {'<', '>', '='}) R3.push_back({d, b, s});
    std::vector<std::vector<Term>> T3 = {{}, {{1, v3(1, 0, 0), -1}, {2, v3(0, 1, 0), 2}, {1, v3(0, 0, 1), 0}}, {{1, v3(1, 1, 0), 1}, {2, v3(0, 1, -1), 0}}};
    int n3 = R3.size();
    for (size_t t = 0; t < T3.size(); t++) for (auto& c : {v3(1, -1, 0), v3(0, 0, 0), v3(-1, -1, 2), v3(0, 1, 0)}) for (int i = 0; i < n3; i++) for (int j = i; j < n3; j++) for (int l = j; l < n3; l++) { if (!th && (i + 2 * j + 3 * l) % 7) continue; if (k++, vp::next("three_variables")) check("three_variables", {3, {R3[j], R3[i], R3[l]}, T3[t], c}, k % 9); }
  }
  return vp::finish();
}
