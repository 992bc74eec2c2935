// Shared by the harnesses of the conic solver: solver settings (all of them explicit) and a
// reference for convex quadratic programs over polyhedra (candidate enumeration over faces).
#pragma once
#include <refqp.hpp>
#include <solver/interface/Solver.hpp>
namespace cn {
using ref::M; using ref::V; using namespace solver;
inline void settings(SolverSetting& s) {
  s.set(SolverBoolParam_Verbose, false); s.set(SolverBoolParam_BnBVerbose, false);
  s.set(SolverIntParam_BnBMaxIters, 200); s.set(SolverIntParam_EquilibrationIters, 3); s.set(SolverIntParam_NumIterRefinementsLinSolve, 9);
  s.set(SolverIntParam_MaxIters, 100); s.set(SolverIntParam_SolverMaxIters, 100); s.set(SolverIntParam_WarmStartIters, 0); s.set(SolverIntParam_NumberRefinementsTrustRegion, 0);
  s.set(SolverDoubleParam_BnBIntegerTol, 1e-4); s.set(SolverDoubleParam_BnBAbsSubOptGap, 1e-3); s.set(SolverDoubleParam_BnBRelSubOptGap, 1e-6);
  s.set(SolverDoubleParam_FeasibilityTol, 1e-8); s.set(SolverDoubleParam_DualityGapAbsTol, 1e-8); s.set(SolverDoubleParam_DualityGapRelTol, 1e-8);
  s.set(SolverDoubleParam_FeasibilityTolInacc, 1e-4); s.set(SolverDoubleParam_DualityGapAbsTolInacc, 5e-5); s.set(SolverDoubleParam_DualityGapRelTolInacc, 5e-5);
  s.set(SolverDoubleParam_LinearSystemAccuracy, 1e-14); s.set(SolverDoubleParam_ErrorReductionFactor, 6.0); s.set(SolverDoubleParam_DynamicRegularizationThresh, 1e-13);
  s.set(SolverDoubleParam_StaticRegularization, 7e-8); s.set(SolverDoubleParam_DynamicRegularization, 2e-7);
  s.set(SolverDoubleParam_SafeGuard, 500.0); s.set(SolverDoubleParam_MinimumStepLength, 1e-6); s.set(SolverDoubleParam_MaximumStepLength, 0.999);
  s.set(SolverDoubleParam_StepLengthScaling, 0.99); s.set(SolverDoubleParam_MinimumCenteringStep, 1e-4); s.set(SolverDoubleParam_MaximumCenteringStep, 1.0);
  s.set(SolverDoubleParam_TrustRegionThreshold, 0.1); s.set(SolverDoubleParam_SoftConstraintWeightFull, 1e4); s.set(SolverDoubleParam_SoftConstraintWeightReduced, 1e4);
}
inline const char* name(ExitCode e) {
  static const char* n[] = {"Optimal", "OptimalInacc", "PrimalInf", "PrimalInfInacc", "DualInf", "DualInfInacc", "ReachMaxIters", "NotConverged", "Indeterminate", "PrSearchDirection", "PrSlacksLeaveCone", "PrProjection"};
  int i = (int)e; return i >= 0 && i < 12 ? n[i] : "?";
}
struct Row { V a; double b; char sense; };           // a'x (sense) b
struct Term { double w; V a; double b; };            // w (a'x + b)^2
struct Conic { bool soc; std::vector<Term> terms; V a; double b;   // soc: norm of terms + a'x + b <= 0, else sum w t^2 + a'x + b <= 0
  double value(const V& x) const { double q = 0; for (auto& t : terms) q += (soc ? 1 : t.w) * std::pow(t.a.dot(x) + t.b, 2); return (soc ? std::sqrt(q) : q) + a.dot(x) + b; }
  V grad(const V& x) const { V g = V::Zero(a.size()); double q = 0; for (auto& t : terms) { double v = t.a.dot(x) + t.b; g += (soc ? 1 : 2 * t.w) * v * t.a; q += v * v; } if (soc && q > 0) g /= std::sqrt(q); return g + a; } };
struct Qp { int n; std::vector<Row> rows; std::vector<Term> terms; V c; std::vector<Conic> cones = {};
  double viol(const V& x) const {
    double v = 0; for (auto& r : rows) { double d = r.a.dot(x) - r.b; v = std::max(v, r.sense == '<' ? d : r.sense == '>' ? -d : std::fabs(d)); } for (auto& k : cones) v = std::max(v, k.value(x)); return v; }
  double cost(const V& x) const { double f = c.dot(x); for (auto& t : terms) f += t.w * std::pow(t.a.dot(x) + t.b, 2); return f; } };
inline std::string str(const V& v) { std::ostringstream o; o << "["; for (int i = 0; i < v.size(); i++) o << (i ? " " : "") << v(i); o << "]"; return o.str(); }
inline std::string str(const Qp& p) { std::ostringstream o; o << "min " << str(p.c) << "x"; for (auto& t : p.terms) o << " + " << t.w << "(" << str(t.a) << "x+" << t.b << ")^2"; o << " s.t."; for (auto& r : p.rows) o << " " << str(r.a) << "x" << r.sense << r.b;
  for (auto& k : p.cones) { o << (k.soc ? " soc(" : " qua("); for (auto& t : k.terms) { if (!k.soc) o << t.w; o << "(" << str(t.a) << "x+" << t.b << ")"; } o << " + " << str(k.a) << "x+" << k.b << "<0)"; } return o.str(); }
enum Verdict { Solved, Infeasible, Unbounded };
// minimum over the box |x_i| <= B, all faces enumerated
inline bool boxmin(const Qp& p, double B, V& xb, double& fb, double ftol = 1e-9) {
  int n = p.n; M E(0, n); V e(0); M A(0, n); V b(0);
  auto push = [&](M& X, V& y, const V& a, double v) { X.conservativeResize(X.rows() + 1, n); X.row(X.rows() - 1) = a.transpose(); y.conservativeResize(y.size() + 1); y(y.size() - 1) = v; };
  for (auto& r : p.rows) { if (r.sense == '=') push(E, e, r.a, r.b); else if (r.sense == '<') push(A, b, r.a, r.b); else push(A, b, -r.a, -r.b); }
  for (int i = 0; i < n; i++) { V u = V::Zero(n); u(i) = 1; push(A, b, u, B); push(A, b, -u, B); }
  M H = M::Zero(n, n); V g = p.c; for (auto& t : p.terms) { H += 2 * t.w * t.a * t.a.transpose(); g += 2 * t.w * t.b * t.a; }
  int m = A.rows(); bool found = false;
  std::vector<int> S; std::function<void(int)> rec = [&](int from) {
    M EE(E.rows() + S.size(), n); V ee(EE.rows()); if (E.rows()) { EE.topRows(E.rows()) = E; ee.head(E.rows()) = e; }
    for (size_t i = 0; i < S.size(); i++) { EE.row(E.rows() + i) = A.row(S[i]); ee(E.rows() + i) = b(S[i]); }
    ref::Affine a = ref::solveAffine(EE, ee, n);
    if (a.ok) {
      V x = a.xp; bool ok = true;
      if (a.Z.cols()) { M W = a.Z.transpose() * H * a.Z; if (Eigen::FullPivLU<M>(W).setThreshold(1e-9).rank() < W.rows()) ok = false; else x += a.Z * W.fullPivLu().solve(-a.Z.transpose() * (H * a.xp + g)); }
      if (ok) { double v = 0; for (int i = 0; i < m; i++) v = std::max(v, (A.row(i).dot(x) - b(i)) / (1 + std::fabs(b(i)))); if (v <= ftol) { double f = p.cost(x); if (!found || f < fb) { found = true; fb = f; xb = x; } } }
    }
    if ((int)S.size() >= n) return;
    for (int i = from; i < m; i++) { S.push_back(i); rec(i + 1); S.pop_back(); }
  };
  rec(0);
  return found;
}
// cutting planes: the constraints with cones are replaced by tangents until the relaxation's optimum satisfies them
inline bool cutmin(const Qp& p, double B, V& x, double& f, double ftol = 1e-9) {
  if (p.cones.empty()) return boxmin(p, B, x, f, ftol);
  Qp q = p; q.cones.clear(); 
  for (int it = 0; it < 60; it++) {
    if (!boxmin(q, B, x, f, ftol)) return false;
    bool ok = true;
    for (auto& k : p.cones) { double v = k.value(x); if (v <= 1e-7 * (1 + x.norm())) continue; V g = k.grad(x); if (g.norm() < 1e-12) return false; ok = false; double s = g.norm(); q.rows.push_back({g / s, (g.dot(x) - v) / s, '<'}); }
    if (ok) return true;
  }
  return true;  // degenerate (f is still a lower bound)
}
inline Verdict solve(const Qp& p, V& x, double& f, double B = 200, double ftol = 1e-9) {
  if (!cutmin(p, B, x, f, ftol)) return Infeasible;
  V x2; double f2; cutmin(p, 2 * B, x2, f2, ftol);
  return f2 < f - 1e-3 ? Unbounded : Solved;
}
// hand the problem to the model; form varies the way expressions are written
inline LinExpr lin(const std::vector<Var>& v, const V& a, double b, int form) {
  LinExpr l; int n = a.size();
  if (form % 3 == 0) { for (int i = 0; i < n; i++) l += LinExpr(v[i], a(i)); l += b; }
  else if (form % 3 == 1) { for (int i = n - 1; i >= 0; i--) l = l + LinExpr(v[i]) * a(i); l = b + l; }
  else { for (int i = 0; i < n; i++) l -= LinExpr(v[i], -a(i)); l -= -b; }
  return l;
}
inline void load(Model& m, std::vector<Var>& v, const Qp& p, int form) {
  if (v.empty()) for (int i = 0; i < p.n; i++) v.push_back(m.addVar(VarType::Continuous, -1e3, 1e3, 0.1 * i));
  int k = 0;
  for (auto& r : p.rows) { int w = (form / 3 + k++) % 3; std::string s(1, r.sense);
    if (w == 0) m.addLinConstr(lin(v, r.a, 0, form), s, LinExpr(r.b));
    else if (w == 1) m.addLinConstr(lin(v, r.a, -r.b, form), s, LinExpr());
    else { std::string t = r.sense == '<' ? ">" : r.sense == '>' ? "<" : "="; m.addLinConstr(LinExpr(r.b), t, lin(v, r.a, 0, form)); } }
  for (auto& c : p.cones) { DCPQuadExpr q; for (auto& t : c.terms) q.addQuaTerm(t.w, lin(v, t.a, t.b, form)); int w = (form + k++) % 3;
    LinExpr l, r; if (w == 0) l = lin(v, c.a, c.b, form); else if (w == 1) r = lin(v, -c.a, -c.b, form); else { l = lin(v, c.a, 0, form); r = LinExpr(-c.b); }
    q.addLinTerm(l); if (c.soc) m.addSocConstr(q, "<", r); else m.addQuaConstr(q, "<", r); }
  DCPQuadExpr q; for (auto& t : p.terms) q.addQuaTerm(t.w, lin(v, t.a, t.b, form));
  if (form & 1) { q.addLinTerm(lin(v, p.c, 0, form)); m.setObjective(q, LinExpr(1.5)); } else m.setObjective(q, lin(v, p.c, 0, form));
}
inline V values(const std::vector<Var>& v) { V x(v.size()); for (size_t i = 0; i < v.size(); i++) x(i) = v[i].get(SolverDoubleParam_X); return x; }
// mixed-integer programs: enumeration of the binary variables
struct Mip { Qp p; std::vector<int> bin; };
inline std::string str(const Mip& m) { std::string s = cn::str(m.p) + " binary:"; for (int i : m.bin) s += " " + std::to_string(i); return s; }
struct Best { bool feasible = false, unbounded = false, strict = false; double f = 0; V x; };
inline Best best(const Mip& m) {
  Best r; Qp s = m.p; for (auto& w : s.rows) { if (w.sense == '<') w.b -= 0.03; else if (w.sense == '>') w.b += 0.03; } for (auto& k : s.cones) k.b += 0.03;
  for (int a = 0; a < 1 << m.bin.size(); a++) {
    auto fix = [&](Qp q) { for (size_t i = 0; i < m.bin.size(); i++) { V u = V::Zero(q.n); u(m.bin[i]) = 1; q.rows.push_back({u, double(a >> i & 1), '='}); } return q; };
    V x; double f; Verdict w = solve(fix(m.p), x, f, 200); if (w == Infeasible) { V y; double g; if (cutmin(fix([&] { Qp t = m.p; for (auto& r : t.rows) if (r.sense != '=') r.b += r.sense == '<' ? 1e-5 : -1e-5; return t; }()), 200, y, g)) r.strict = false; continue; }
    if (w == Unbounded) { r.unbounded = true; continue; }
    if (!r.feasible || f < r.f) { r.feasible = true; r.f = f; r.x = x; V y; double g; r.strict = cutmin(fix(s), 200, y, g); }
  }
  return r;
}
}
