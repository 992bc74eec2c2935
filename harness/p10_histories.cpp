// Histories of model building, solving, cleaning and reuse over two models: after every solve the
// answer is that of the problem the history denotes.
#include <vp.hpp>
#include <conic.hpp>
using namespace cn;
struct Side { std::unique_ptr<Model> m; std::vector<Var> v; Qp p; bool bin = false; int tr = 0, so = 0; std::string log; };
static const int NOPS = 16;
static V v2(double a, double b) { V v(2); v << a, b; return v; }
static void fresh(Side& s) { s.m.reset(new Model); settings(s.m->getSetting()); s.m->getSetting().set(SolverIntParam_WarmStartIters, 40); s.p = Qp{2, {}, {{1, v2(1, 0), -1}, {1, v2(0, 1), 2}}, v2(0, 0)}; }
static void vars(Side& s, bool bin = false) { s.v.clear(); s.bin = bin; s.tr = s.so = 0; for (int i = 0; i < 2; i++) s.v.push_back(bin && i ? s.m->addVar(VarType::Binary, 0, 1, 0) : s.m->addVar(VarType::Continuous, -1e3, 1e3, 0)); }
static void objective(Side& s, std::vector<Term> t, V c) { s.p.terms = t; s.p.c = c; DCPQuadExpr q; for (auto& x : t) q.addQuaTerm(x.w, lin(s.v, x.a, x.b, 0)); s.m->setObjective(q, lin(s.v, c, 0, 1)); }
static std::vector<double> settings_of(const SolverSetting& s) {
  std::vector<double> r; for (auto k : {SolverIntParam_SolverMaxIters, SolverIntParam_WarmStartIters, SolverIntParam_BnBMaxIters, SolverIntParam_EquilibrationIters, SolverIntParam_NumIterRefinementsLinSolve, SolverIntParam_NumberRefinementsTrustRegion}) r.push_back(s.get(k));
  for (auto k : {SolverDoubleParam_BnBIntegerTol, SolverDoubleParam_BnBAbsSubOptGap, SolverDoubleParam_BnBRelSubOptGap, SolverDoubleParam_FeasibilityTol, SolverDoubleParam_DualityGapAbsTol, SolverDoubleParam_DualityGapRelTol, SolverDoubleParam_FeasibilityTolInacc, SolverDoubleParam_DualityGapAbsTolInacc, SolverDoubleParam_DualityGapRelTolInacc, SolverDoubleParam_LinearSystemAccuracy, SolverDoubleParam_StaticRegularization, SolverDoubleParam_DynamicRegularization, SolverDoubleParam_TrustRegionThreshold, SolverDoubleParam_SoftConstraintWeightFull, SolverDoubleParam_SoftConstraintWeightReduced}) r.push_back(s.get(k));
  return r; }
static bool counts(Side& s, const std::string& log) {
  auto& c = s.m->getProblem(); if (c.numTrustRegions() == s.tr && c.numSoftConstraints() == s.so && c.numBinaryVariables() == (s.bin ? 1 : 0)) return true;
  std::ostringstream o; o << "after " << log << ": the model counts " << c.numTrustRegions() << " trust regions, " << c.numSoftConstraints() << " soft constraints and " << c.numBinaryVariables() << " binaries instead of " << s.tr << ", " << s.so << ", " << s.bin; vp::fail("history:counts", o.str()); return false; }
static bool solve_and_compare(Side& s, const std::string& log) {
  auto before = settings_of(s.m->getSetting());
  ExitCode e = s.m->optimize(); V x = values(s.v), y; double f; Verdict w;
  if (before != settings_of(s.m->getSetting())) { vp::fail("history:settings", "after " + log + ": solving changed the solver settings"); return false; }
  if (!counts(s, log)) return false;
  if (s.tr + s.so) {   // heuristics: whatever is reported solved meets the convex constraints and the trust region
    if (e != ExitCode::Optimal && e != ExitCode::OptimalInacc) return true; double tol = e == ExitCode::Optimal && !s.bin ? 1e-5 : 3e-3; double q = x.squaredNorm() - 2;
    std::ostringstream o; o << "after " << log << ": " << name(e) << " x=" << str(x) << " for " << str(s.p);
    if (!(s.p.viol(x) < tol) || (s.tr && !(q >= -0.1 - tol))) { vp::fail("history:heuristic_violated", o.str()); return false; }
    if (s.bin && !(std::min(std::fabs(x(1)), std::fabs(x(1) - 1)) < 1e-3)) { vp::fail("history:fractional", o.str()); return false; }
    return true; }
  if (s.bin) { Best b = best({s.p, {1}}); w = b.feasible ? Solved : Infeasible; f = b.f; y = b.x; }
  else w = cn::solve(s.p, y, f, 100);
  std::ostringstream o; o << "after " << log << ": " << name(e) << " x=" << str(x) << " for " << str(s.p);
  vp::count(std::string("verdict_") + name(e));
  if (w == Solved) { bool red = e == ExitCode::OptimalInacc; if (e != ExitCode::Optimal && !red) { vp::fail("history:not_solved", o.str()); return false; } if (s.bin && !(std::min(std::fabs(x(1)), std::fabs(x(1) - 1)) < 1e-3)) { vp::fail("history:fractional", o.str()); return false; } if (s.bin) red = true; if (!(s.p.viol(x) < (red ? 2e-3 : 1e-5) && std::fabs(s.p.cost(x) - f) < (red ? 5e-3 : 1e-4) * (1 + std::fabs(f)))) { vp::fail("history:wrong_solution", o.str() + " expected " + str(y)); return false; } }
  else if (w == Infeasible && (e == ExitCode::Optimal || e == ExitCode::OptimalInacc || e == ExitCode::DualInf)) { vp::fail("history:infeasible_missed", o.str()); return false; }
  return true;
}
static bool apply(int op, Side* S, int& cur, std::string& log) {
  Side& s = S[cur]; auto row = [&](V a, double b, char c) { s.p.rows.push_back({a, b, c}); s.m->addLinConstr(lin(s.v, a, 0, s.p.rows.size()), std::string(1, c), LinExpr(b)); };
  static const char* N[NOPS] = {"solve", "clean", "row x0<0.5", "row x0+x1=1", "row x1>-1", "row x0>1", "ball", "cone", "objective (x0-1)^2+(x1+2)^2", "objective three terms", "objective linear + one term", "switch model", "new variables' guesses", "clean, no objective", "clean, x1 binary", "ring"};
  log += std::string(log.empty() ? "" : "; ") + N[op];
  switch (op) {
    case 0: return solve_and_compare(s, log);
    case 1: s.m->clean(); s.p.rows.clear(); s.p.cones.clear(); vars(s); objective(s, {{1, v2(1, 0), -1}, {1, v2(0, 1), 2}}, v2(0, 0)); break;
    case 2: row(v2(1, 0), 0.5, '<'); break; case 3: row(v2(1, 1), 1, '='); break; case 4: row(v2(0, 1), -1, '>'); break; case 5: row(v2(1, 0), 1, '>'); break;
    case 6: { Conic c{false, {{1, v2(1, 0), 0}, {1, v2(0, 1), 0}}, v2(0, 0), -3}; s.p.cones.push_back(c); DCPQuadExpr q; for (auto& t : c.terms) q.addQuaTerm(t.w, lin(s.v, t.a, t.b, 0)); s.m->addQuaConstr(q, "<", LinExpr(3)); break; }
    case 7: { Conic c{true, {{1, v2(1, 0), -1}, {1, v2(0, 1), 0}}, v2(0.5, 0), -2}; s.p.cones.push_back(c); DCPQuadExpr q; for (auto& t : c.terms) q.addQuaTerm(t.w, lin(s.v, t.a, t.b, 0)); s.m->addSocConstr(q, "<", lin(s.v, v2(-0.5, 0), 2, 0)); break; }
    case 8: objective(s, {{1, v2(1, 0), -1}, {1, v2(0, 1), 2}}, v2(0, 0)); break;
    case 9: objective(s, {{2, v2(1, 1), -3}, {1, v2(1, 0), 2}, {0.5, v2(0, 1), -1}}, v2(1, 0)); break;
    case 10: objective(s, {{1, v2(0, 1), -0.5}, {0.3, v2(1, -1), 0}}, v2(-1, 2)); break;
    case 11: cur = 1 - cur; break;
    case 13: s.m->clean(); s.p.rows.clear(); s.p.cones.clear(); vars(s); s.p.terms.clear(); s.p.c = v2(0, 0); break;
    case 14: s.m->clean(); s.p.rows.clear(); s.p.cones.clear(); vars(s, true); objective(s, {{1, v2(1, 0), -1}, {1, v2(0, 1), -0.6}}, v2(0, 0)); break;
    case 15: { Conic c{false, {{1, v2(1, 0), 0}, {1, v2(0, 1), 0}}, v2(0, 0), -2}; s.p.cones.push_back(c); DCPQuadExpr q; for (auto& t : c.terms) q.addQuaTerm(t.w, lin(s.v, t.a, t.b, 0)); bool tr = (s.tr + s.so) % 2 == 0; (tr ? s.tr : s.so)++; s.m->addQuaConstr(q, "<", LinExpr(2), tr ? QuadConstrApprox::TrustRegion : QuadConstrApprox::SoftConstraint); break; }
    case 12: for (auto& v : s.v) v.set(SolverDoubleParam_X, 0.7); break;
  }
  return counts(s, log);
}
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet q;
  for (int depth = 1; depth <= (th ? 6 : 5); depth++) { long total = 1; for (int i = 0; i < depth; i++) total *= NOPS;   // each history ends with a solve of both models
  for (long c = 0; c < total; c++) {
    if (depth == 5 && !th && c % 47) continue; if (depth == 4 && !th && c % 2 && (c / NOPS) % 3) continue; if (depth == 6 && c % 17 && (c / NOPS / NOPS) % 5) continue;
    long w = c; bool clean = true; int prev = -1; for (int d = 0; d < depth; d++, w /= NOPS) { int op = w % NOPS; if (op == prev && (op == 0 || op == 1 || op == 11)) clean = false; prev = op; } if (!clean) continue;
    if (!vp::next("history")) continue;
    Side S[2]; for (auto& s : S) { fresh(s); vars(s); objective(s, s.p.terms, s.p.c); } int cur = 0; std::string log; bool ok = true;
    w = c; for (int d = 0; d < depth && ok; d++, w /= NOPS) { ok = apply(w % NOPS, S, cur, log); vp::count("states"); vp::count("transitions"); }
    if (ok) ok = solve_and_compare(S[cur], log + "; solve"); if (ok) ok = solve_and_compare(S[1 - cur], log + "; switch model; solve");
    if (ok) vp::nontrivial(); vp::sample([&] { return log; });
  } }
  return vp::finish();
}
