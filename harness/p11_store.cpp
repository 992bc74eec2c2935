// P11: settings, variables and variable blocks hold exactly what was stored in them.
#include <conic.hpp>
#include <vp.hpp>
#include <solver/interface/Model.hpp>
#include <solver/interface/OptVar.hpp>
#include <memory>
using namespace solver;
struct Par { char t; int id; const char* key; };
static const std::vector<Par> P = {
  {'b', SolverBoolParam_BnBVerbose, "BnB_verbose"}, {'b', SolverBoolParam_Verbose, "verbose"},
  {'i', SolverIntParam_BnBMaxIters, "BnB_max_iterations"}, {'i', SolverIntParam_EquilibrationIters, "equil_iterations"}, {'i', SolverIntParam_NumIterRefinementsLinSolve, "num_iter_ref_lin_solve"},
  {'i', SolverIntParam_MaxIters, "max_iters"}, {'i', SolverIntParam_SolverMaxIters, "ipsolver_max_iters"}, {'i', SolverIntParam_WarmStartIters, "ipsolver_warm_iters"}, {'i', SolverIntParam_NumberRefinementsTrustRegion, "num_itrefs_trustregion"},
  {'d', SolverDoubleParam_BnBIntegerTol, "BnB_integer_tolerance"}, {'d', SolverDoubleParam_BnBAbsSubOptGap, "BnB_absolute_suboptimality_gap"}, {'d', SolverDoubleParam_BnBRelSubOptGap, "BnB_relative_suboptimality_gap"},
  {'d', SolverDoubleParam_FeasibilityTol, "feasibility_tolerance"}, {'d', SolverDoubleParam_DualityGapAbsTol, "absolute_suboptimality_gap"}, {'d', SolverDoubleParam_DualityGapRelTol, "relative_suboptimality_gap"},
  {'d', SolverDoubleParam_FeasibilityTolInacc, "feasibility_tolerance_inaccurate"}, {'d', SolverDoubleParam_DualityGapAbsTolInacc, "absolute_suboptimality_gap_inaccurate"}, {'d', SolverDoubleParam_DualityGapRelTolInacc, "relative_suboptimality_gap_inaccurate"},
  {'d', SolverDoubleParam_LinearSystemAccuracy, "lin_sys_accuracy"}, {'d', SolverDoubleParam_ErrorReductionFactor, "err_reduction_factor"}, {'d', SolverDoubleParam_StaticRegularization, "static_regularization"},
  {'d', SolverDoubleParam_DynamicRegularization, "dynamic_regularization"}, {'d', SolverDoubleParam_DynamicRegularizationThresh, "dyn_reg_thresh"},
  {'d', SolverDoubleParam_SafeGuard, "safeguard"}, {'d', SolverDoubleParam_MinimumStepLength, "min_step_length"}, {'d', SolverDoubleParam_MaximumStepLength, "max_step_length"}, {'d', SolverDoubleParam_StepLengthScaling, "step_length_scaling"},
  {'d', SolverDoubleParam_MinimumCenteringStep, "min_centering_step"}, {'d', SolverDoubleParam_MaximumCenteringStep, "max_centering_step"},
  {'d', SolverDoubleParam_TrustRegionThreshold, "trust_region_threshold"}, {'d', SolverDoubleParam_SoftConstraintWeightFull, "soft_constraint_weight_full"}, {'d', SolverDoubleParam_SoftConstraintWeightReduced, "soft_constraint_weight_reduced"}};
static void put(SolverSetting& s, const Par& p, double v) { if (p.t == 'b') s.set((SolverBoolParam)p.id, v != 0); else if (p.t == 'i') s.set((SolverIntParam)p.id, (int)v); else s.set((SolverDoubleParam)p.id, v); }
static double get(const SolverSetting& s, const Par& p) { return p.t == 'b' ? (double)s.get((SolverBoolParam)p.id) : p.t == 'i' ? (double)s.get((SolverIntParam)p.id) : s.get((SolverDoubleParam)p.id); }
static double base(int i) { return P[i].t == 'b' ? i % 2 : P[i].t == 'i' ? 10 + 3 * i : 0.5 + i * 1.25; }
static std::string differs(const SolverSetting& s, const std::vector<double>& want) {
  std::string o; for (size_t i = 0; i < P.size(); i++) if (get(s, P[i]) != want[i]) o += std::string(P[i].key) + " is " + std::to_string(get(s, P[i])) + " instead of " + std::to_string(want[i]) + "; "; return o; }
static std::string path() { return vp::ctx().out.empty() ? "/tmp/p11.yaml." + std::to_string(getpid()) : vp::ctx().out + ".yaml"; }

struct Blk { int rows, cols; double lo, up, guess; int kind; };
typedef OptimizationVariable::OptMatrix OM; typedef OptimizationVariable::OptVector OV;

int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet q; int N = P.size();
  // every pair (thorough: triple) of stores, in every order
  for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) for (int c = 0; c < (th ? N : 1); c++) { if (!vp::next("settings")) continue;
    SolverSetting s; std::vector<double> w(N); for (int i = 0; i < N; i++) { w[i] = base(i); put(s, P[i], w[i]); }
    SolverSetting untouched = s; std::vector<double> w0 = w; std::vector<int> seq = {a, b}; if (th) seq.push_back(c);
    for (size_t k = 0; k < seq.size(); k++) { int i = seq[k]; w[i] = P[i].t == 'b' ? 1 - w[i] : P[i].t == 'i' ? -7 - (int)k : 1e-9 * (k + 3); put(s, P[i], w[i]); vp::count("transitions"); vp::count("states");
      std::string d = differs(s, w); if (!d.empty()) vp::fail("settings:store", std::string("after setting ") + P[i].key + ": " + d); }
    std::string d = differs(untouched, w0); if (!d.empty()) vp::fail("settings:copy", d);
    vp::nontrivial(a != b); }
  // parameters that are not settings are refused and change nothing
  for (int p = 0; p < 60; p++) for (int t = 0; t < 3; t++) { bool valid = false; for (auto& x : P) if (x.t == "bid"[t] && x.id == p) valid = true; if (valid || (t == 0 && p > 1) || (t == 1 && p > SolverIntParam_NumRefsLinSolveCorrector) || (t == 2 && p > SolverDoubleParam_PrimalInfeasibility)) continue;
    if (!vp::next("refused")) continue;
    SolverSetting s; std::vector<double> w(N); for (int i = 0; i < N; i++) { w[i] = base(i); put(s, P[i], w[i]); } int thrown = 0; vp::nontrivial(); vp::count("states"); vp::count("transitions", 2);
    try { if (t == 1) s.set((SolverIntParam)p, 3); else if (t == 2) s.set((SolverDoubleParam)p, 3.0); } catch (std::runtime_error&) { thrown++; }
    try { if (t == 1) s.get((SolverIntParam)p); else if (t == 2) s.get((SolverDoubleParam)p); } catch (std::runtime_error&) { thrown++; }
    std::string d = differs(s, w); if (t && thrown != 2) vp::fail("refused:accepted", "parameter " + std::to_string(p) + " of type " + "bid"[t] + " accepted"); if (!d.empty()) vp::fail("refused:changed", d); }
  // files: all values of a section, whatever the order of keys; a key left out is an error
  for (int rot = 0; rot < N; rot++) for (int out = -1; out < N; out++) for (int two = 0; two < 2; two++) { if (!th && out >= 0 && two) continue; if (!vp::next("yaml")) continue;
    std::string f = path(); { std::ofstream o(f); o.precision(17);
      for (int sct = 0; sct < 1 + two; sct++) { o << (sct == 0 ? "first" : "solver_variables") << ":\n"; for (int j = 0; j < N; j++) { int i = (j + rot) % N; if (i == out && sct == two) continue; double v = base(i) + (P[i].t == 'i' ? sct : 0.125 * sct); if (P[i].t == 'b') o << "  " << P[i].key << ": " << ((i + sct) % 2 ? "true" : "false") << "\n"; else o << "  " << P[i].key << ": " << v << "\n"; } } }
    SolverSetting s; bool thrown = false; vp::count("states"); vp::count("transitions"); vp::nontrivial();
    try { if (two) s.initialize(f); else s.initialize(f, "first"); } catch (std::exception&) { thrown = true; }
    unlink(f.c_str());
    if (thrown != (out >= 0)) vp::fail("yaml:missing_key", std::string(out >= 0 ? "a file without " + std::string(P[out].key) + " is accepted" : "a complete file is refused"));
    if (!thrown && out < 0) { std::vector<double> w(N); for (int i = 0; i < N; i++) w[i] = P[i].t == 'b' ? (i + two) % 2 : base(i) + (P[i].t == 'i' ? two : 0.125 * two); std::string d = differs(s, w); if (!d.empty()) vp::fail("yaml:value", d); } }
  // variables: all sequences of additions with stores in between
  struct VK { VarType t; double lo, up, guess; };
  std::vector<VK> K = {{VarType::Continuous, -1, 1, 0.25}, {VarType::Continuous, -1, 1, -2}, {VarType::Continuous, -1, 1, 5}, {VarType::Binary, 0, 1, 0.5}, {VarType::Continuous, 2, 2, 0}, {VarType::Continuous, 1, -1, 0}, {VarType::Continuous, -SolverSetting::inf, SolverSetting::inf, 7}, {VarType::Binary, 0, 1, 3}};
  int L = th ? 5 : 4; long tot = 1; for (int i = 0; i < L; i++) tot *= K.size();
  for (int len = 1, cnt = K.size(); len <= L; len++, cnt *= K.size()) for (int code = 0; code < cnt; code++) { if (!vp::next("variables")) continue;
    Model m, other; cn::settings(m.getSetting()); cn::settings(other.getSetting()); std::vector<Var> v; std::vector<VK> want; std::vector<double> val; int bins = 0; bool bad = false; std::string hist;
    for (int k = 0, c = code; k < len; k++, c /= K.size()) { VK x = K[c % K.size()]; vp::count("transitions"); hist += std::to_string(c % K.size()) + " ";
      bool thrown = false; try { Var y = m.addVar(x.t, x.lo, x.up, x.guess); v.push_back(y); x.guess = std::min(std::max(x.guess, x.lo), x.up); want.push_back(x); val.push_back(x.guess); bins += x.t == VarType::Binary; } catch (std::runtime_error&) { thrown = true; }
      if (thrown != (x.lo > x.up)) { vp::fail("variables:bounds", "bounds " + std::to_string(x.lo) + " " + std::to_string(x.up) + (thrown ? " refused" : " accepted")); bad = true; break; }
      other.addVar(VarType::Continuous, -3, 3, 1);
      if (k % 2 && !v.empty()) { int w = (code + k) % v.size(); Var copy = v[w]; copy.set(SolverDoubleParam_X, 40 + k); val[w] = 40 + k; int u = (code / 3 + k) % v.size(); v[u].set(SolverDoubleParam_Guess, -40 - k); want[u].guess = -40 - k; v[w].set(SolverDoubleParam_LB, -9); want[w].lo = -9; }
      for (size_t i = 0; i < v.size(); i++) if (v[i].get(SolverIntParam_ColNum) != (int)i || v[i].get(SolverDoubleParam_LB) != want[i].lo || v[i].get(SolverDoubleParam_UB) != want[i].up || v[i].get(SolverDoubleParam_Guess) != want[i].guess || v[i].get(SolverDoubleParam_X) != val[i]) { bad = true;
        vp::fail("variables:store", "variable " + std::to_string(i) + " of history " + hist); }
      if (m.getProblem().numBinaryVariables() != bins) { bad = true; vp::fail("variables:binaries", "history " + hist); } if (bad) break; }
    vp::count("states"); vp::nontrivial(len > 1);
    if (!bad) { m.clean(); Var y = m.addVar(VarType::Continuous, 0, 4, 3); if (y.get(SolverIntParam_ColNum) != 0 || m.getProblem().numBinaryVariables() != 0 || y.get(SolverDoubleParam_X) != 3) vp::fail("variables:clean", "history " + hist);
      for (size_t i = 0; i < v.size(); i++) if (v[i].get(SolverDoubleParam_X) != val[i]) vp::fail("variables:clean", "values lost, history " + hist); } }
  // refused constraints leave the problem as it was
  const char* senses[] = {"<", "=", ">", "<=", "", ">=", "==", "x"};
  for (int pos = 0; pos < 3; pos++) for (int kind = 0; kind < 5; kind++) for (int sense = 0; sense < 8; sense++) for (int bin = 0; bin < 2; bin++) { bool ok = kind == 0 ? sense < 3 : sense == 0; if (ok) continue; if (!vp::next("senses")) continue;
    double xs[2]; ExitCode e[2]; bool thrown = false;
    for (int r = 0; r < 2; r++) { Model m; cn::settings(m.getSetting()); Var x = m.addVar(VarType::Continuous, -10, 10), y = bin ? m.addVar(VarType::Binary, 0, 1) : m.addVar(VarType::Continuous, -10, 10);
      auto bad = [&](int at) { if (!r || at != pos) return; DCPQuadExpr d; d.addQuaTerm(1, LinExpr(x) - 5.0); d.addQuaTerm(1, LinExpr(y) + 2.0);
        try { if (kind == 0) m.addLinConstr(LinExpr(x) + y, senses[sense], 0.0); else if (kind == 1) m.addSocConstr(d, senses[sense], LinExpr(1.0)); else m.addQuaConstr(d, senses[sense], LinExpr(1.0), kind == 2 ? QuadConstrApprox::None : kind == 3 ? QuadConstrApprox::TrustRegion : QuadConstrApprox::SoftConstraint); } catch (std::runtime_error&) { thrown = true; } };
      bad(0); DCPQuadExpr c; c.addQuaTerm(1, LinExpr(x)); c.addQuaTerm(1, LinExpr(y)); m.addQuaConstr(c, "<", LinExpr(2.0)); bad(1); m.addLinConstr(LinExpr(x), "<", LinExpr(1.25)); DCPQuadExpr o; m.setObjective(o, LinExpr(x) * -1.0 - LinExpr(y) * 0.2); bad(2);
      e[r] = m.optimize(); xs[r] = x.get(SolverDoubleParam_X) * 3 + y.get(SolverDoubleParam_X); vp::count("transitions"); }
    vp::count("states"); vp::nontrivial(); std::ostringstream o; o << "kind " << kind << " sense '" << senses[sense] << "' at " << pos << " binary " << bin << ": " << cn::name(e[0]) << " " << xs[0] << " / " << cn::name(e[1]) << " " << xs[1];
    if (!thrown) vp::fail("senses:accepted", o.str()); else if (e[0] != e[1] || !(std::fabs(xs[0] - xs[1]) < 1e-3)) vp::fail("senses:problem_changed", o.str()); }
  // blocks of variables: every sequence of initialisations keeps ids consecutive and disjoint, holds its bounds and guesses
  std::vector<std::pair<int,int>> shapes = {{1, 1}, {3, 1}, {1, 4}, {3, 2}, {2, 5}}; int NB = shapes.size() * 7;
  auto val = [](int what, int r, int c, int k) { return 1000.0 * what + 100 * k + 10 * r + c; };
  for (int len = 1; len <= (th ? 3 : 2); len++) { long cnt = 1; for (int i = 0; i < len; i++) cnt *= NB;
    for (long code = 0; code < cnt; code++) { if (!vp::next("blocks")) continue;
      int start = code % 3 * 5, pos = start; std::set<int> ids; std::vector<std::unique_ptr<OptimizationVariable>> vs; std::vector<OM> lo, up, gs; std::ostringstream h;
      for (long k = 0, c = code; k < len; k++, c /= NB) { int kd = c % NB / shapes.size(); auto sh = shapes[c % NB % shapes.size()]; int R = sh.first, C = sh.second; h << R << "x" << C << " kind " << kd << "; ";
        OM l(R, C), u(R, C), g(R, C); OV lv(R), uv(R); bool vec = kd == 1 || kd == 5, mat = kd == 2 || kd == 6;
        for (int r = 0; r < R; r++) { lv(r) = val(1, r, 0, k); uv(r) = val(2, r, 0, k); for (int cc = 0; cc < C; cc++) { l(r, cc) = mat ? val(1, r, cc, k) : vec ? lv(r) : -5 - k; u(r, cc) = mat ? val(2, r, cc, k) : vec ? uv(r) : 5 + k; g(r, cc) = kd < 3 ? 0 : kd == 3 ? 0.5 + k : val(3, r, cc, k); } }
        vs.emplace_back(new OptimizationVariable); auto& v = *vs.back(); int before = pos; OM L = l, U = u, G = g; char ty = "CB"[k % 2];
        if (code % 2 && k) { int junk = 0; v.initialize('C', 2, 3, -1.0, 1.0, junk, 9.0); }   // an object that was used before
        switch (kd) { case 0: v.initialize(ty, R, C, -5.0 - k, 5.0 + k, pos); break; case 1: v.initialize(ty, R, C, lv, uv, pos); break; case 2: v.initialize(ty, R, C, L, U, pos); break; case 3: v.initialize(ty, R, C, -5.0 - k, 5.0 + k, pos, 0.5 + k); break;
          case 4: v.initialize(ty, R, C, -5.0 - k, 5.0 + k, pos, G); break; case 5: v.initialize(ty, R, C, lv, uv, pos, G); break; case 6: v.initialize(ty, R, C, L, U, pos, G); break; }
        lo.push_back(l); up.push_back(u); gs.push_back(g); vp::count("transitions");
        if (pos != before + R * C || v.getStartIndex() != before || v.getNumElements() != R * C || v.getNumRows() != R || v.getNumCols() != C) vp::fail("blocks:extent", h.str());
        for (int cc = 0; cc < C; cc++) for (int r = 0; r < R; r++) { int id = v.id(r, cc); if (!ids.insert(id).second || id < before || id >= pos) vp::fail("blocks:ids", "identifier " + std::to_string(id) + " of (" + std::to_string(r) + "," + std::to_string(cc) + "): " + h.str()); }
        for (int r = -2; r <= R + 1; r++) for (int cc = -2; cc <= C + 1; cc++) if (v.id(r, cc) != v.id(std::min(std::max(r, 0), R - 1), std::min(std::max(cc, 0), C - 1))) vp::fail("blocks:outside", h.str());
        for (int r = 0; r + 1 < R; r++) for (int cc = 0; cc < C; cc++) if (v.id(r + 1, cc) != v.id(r, cc) + 1) vp::fail("blocks:column_layout", h.str());
        // stores of guesses and pinned columns
        int pin = code % C; OV nv(R); for (int r = 0; r < R; r++) nv(r) = val(4, r, 0, k);
        switch ((code + k) % 4) { case 1: v.constraintIndexToCurrentValue(pin); lo.back().col(pin) = gs.back().col(pin); up.back().col(pin) = gs.back().col(pin); break;
          case 2: v.setAndConstraintIndexToCurrentValue(pin, 0.75); gs.back().col(pin).setConstant(0.75); lo.back().col(pin) = gs.back().col(pin); up.back().col(pin) = gs.back().col(pin); break;
          case 3: v.setAndConstraintIndexToCurrentValue(pin, nv); gs.back().col(pin) = nv; lo.back().col(pin) = nv; up.back().col(pin) = nv; break;
          default: { OM big = OM::Constant(R + 2, C + 1, -77); for (int r = 0; r < R; r++) for (int cc = 0; cc < C; cc++) big(r, cc) = val(5, r, cc, k); v.setGuessValue(big); gs.back() = big.block(0, 0, R, C); } }
        for (size_t i = 0; i < vs.size(); i++) { OM a, b, g2, g3; OV col; int n; char t; vs[i]->getValues(a, b, g2, n, t); vs[i]->getGuessValue(g3); vs[i]->getGuessValueByCol(gs[i].cols() - 1, col);
          if (a.rows() != lo[i].rows() || a.cols() != lo[i].cols() || a != lo[i] || b != up[i] || g2 != gs[i] || g3 != gs[i] || n != (int)(gs[i].size()) || t != "CB"[i % 2] || col != gs[i].col(gs[i].cols() - 1)) vp::fail("blocks:values", "block " + std::to_string(i) + " after " + h.str()); } }
      if ((int)ids.size() != pos - start) vp::fail("blocks:gaps", h.str());
      vp::count("states"); vp::nontrivial(); vp::sample([&] { return h.str(); }); } }
  return vp::finish();
}
