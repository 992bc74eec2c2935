from mkseed import *
IP="solver/src/solver/optimizer/IPSolver.cpp"; CP="solver/src/solver/interface/ConicProblem.cpp"; BB="solver/src/solver/optimizer/BnBSolver.cpp"; NB="solver/src/solver/optimizer/NcvxBnBSolver.cpp"
con("p07-close-incumbents","P07","two assignments whose costs differ by less than one hundredth, the worse one found first, and a gap setting below that",
 "branch and bound keeps an earlier solution when the new one is better by less than one hundredth, whatever gap is configured",
 [(BB,"if (nodes_[node_id].upper_bound_ < prob_upper_bound_){","if (nodes_[node_id].upper_bound_ < prob_upper_bound_ - 1e-2){")],
'''int main() {
  int wrong = 0;
  for (int v = 0; v < 4*4*4*4; v++) {
    int w[3] = {1 + v%4, 1 + v/4%4, 1 + v/16%4}, cap = 3 + v/64;
    Model m; stgs(m.getSetting()); m.getSetting().set(SolverDoubleParam_BnBAbsSubOptGap, 1e-5);
    Var b[3]; LinExpr s, f;
    for (int i = 0; i < 3; i++) { b[i] = m.addVar(VarType::Binary, 0, 1); s += LinExpr(b[i])*(w[i] + 0.3); f += LinExpr(b[i])*(-0.005*(w[i]*1.0 + 0.5*i)); }
    m.addLinConstr(s, "<", cap);
    DCPQuadExpr o; m.setObjective(o, f);
    ExitCode e = m.optimize();
    double best = 1e9; for (int k = 0; k < 8; k++) { double sw = 0, sf = 0; for (int i = 0; i < 3; i++) if (k>>i&1) { sw += w[i] + 0.3; sf -= 0.005*(w[i] + 0.5*i); } if (sw <= cap) best = std::min(best, sf); }
    double got = 0; for (int i = 0; i < 3; i++) got -= 0.005*b[i].get(SolverDoubleParam_X)*(w[i] + 0.5*i);
    if (!solved(e) || std::fabs(got - best) > 1e-4) wrong++;
  }
  expect(wrong == 0, "knapsacks with small values are solved to the configured gap");
  return bad;
}
''')
con("p08-second-binary","P08","two binaries next to a trust region or soft constraint, the last of them integral and another one not",
 "branch and bound over heuristic constraints takes a node for integral when its last binary is",
 [(NB,"        is_integer_sol &= std::abs","        is_integer_sol = std::abs")],
'''int main() {
  int wrong = 0;
  for (int v = 0; v < 12; v++) {
    Model m; stgs(m.getSetting()); m.getSetting().set(SolverDoubleParam_TrustRegionThreshold, 300.0);
    double target[2] = {v%3 - 1.0 + 0.25, v/3%2 ? 0.0 : 1.5}, fee = 0.05 + 0.4*(v/6);
    Var b[2], x[2]; DCPQuadExpr q, o; LinExpr f;
    for (int i = 0; i < 2; i++) { b[i] = m.addVar(VarType::Binary, 0, 1); x[i] = m.addVar(VarType::Continuous, -10, 10, 0.3);
      m.addLinConstr(LinExpr(x[i]), "<", LinExpr(b[i])*4.0); m.addLinConstr(LinExpr(x[i]), ">", LinExpr(b[i])*(-4.0));
      q.addQuaTerm(1.0, LinExpr(x[i])); o.addQuaTerm(1.0, LinExpr(x[i]) - target[i]); f += LinExpr(b[i])*fee; }
    m.addQuaConstr(q, "<", LinExpr(16.0), QuadConstrApprox::TrustRegion);
    m.setObjective(o, f);
    ExitCode e = m.optimize();
    for (int i = 0; i < 2; i++) { double y = b[i].get(SolverDoubleParam_X); if (!solved(e) || std::min(std::fabs(y), std::fabs(y - 1)) > 1e-3) wrong++; }
  }
  expect(wrong == 0, "binaries are integral");
  return bad;
}
''')
con("p10-old-binaries","P10","a problem with a binary variable, then a clean and a problem without one",
 "the binary variables of the cleaned problem stay with the model and bind the new problem's variables of the same number to zero and one",
 [(CP,"\tbin_vars_.clear();\n","")],
'''int main() {
  Model m; stgs(m.getSetting());
  { Var b = m.addVar(VarType::Binary, 0, 1); DCPQuadExpr o; o.addQuaTerm(1.0, LinExpr(b) - 0.7); m.setObjective(o, LinExpr());
    expect(solved(m.optimize()) && near(b.get(SolverDoubleParam_X), 1.0), "binary problem"); }
  m.clean();
  { Var x = m.addVar(VarType::Continuous, -10, 10); DCPQuadExpr o; o.addQuaTerm(1.0, LinExpr(x) - 2.5); m.setObjective(o, LinExpr());
    expect(solved(m.optimize()) && near(x.get(SolverDoubleParam_X), 2.5), "continuous problem after clean"); }
  return bad;
}
''')
con("p05-early-verdict","P05","a run that ends before full precision is reached (few iterations, or stagnation) with a point of reduced precision",
 "points that only meet the reduced tolerances are reported as optimal instead of optimal to reduced precision",
 [(IP,"(mode==PrecisionConvergence::Full ? exitcode=ExitCode::Optimal : exitcode=ExitCode::OptimalInacc);","exitcode=ExitCode::Optimal;")],
'''int main() {
  int wrong = 0, full = 0;
  for (int it = 3; it < 30; it++) for (int k = 0; k < 4; k++) {
    Model m; stgs(m.getSetting()); m.getSetting().set(SolverIntParam_SolverMaxIters, it);
    m.getSetting().set(SolverDoubleParam_FeasibilityTolInacc, 1e-2); m.getSetting().set(SolverDoubleParam_DualityGapAbsTolInacc, 1e-2); m.getSetting().set(SolverDoubleParam_DualityGapRelTolInacc, 1e-2);
    Var x = m.addVar(VarType::Continuous, -10, 10), y = m.addVar(VarType::Continuous, -10, 10);
    m.addLinConstr(LinExpr(x), "<", -1.0 + k);
    DCPQuadExpr o; o.addQuaTerm(1.0, LinExpr(x)-4.0); o.addQuaTerm(2.0, LinExpr(y)+2.0); m.setObjective(o, -LinExpr(x)-LinExpr(y));
    ExitCode e = m.optimize();
    if (e == ExitCode::Optimal) { full++; if (std::fabs(x.get(SolverDoubleParam_X) + 1.0 - k) > 1e-5 || std::fabs(y.get(SolverDoubleParam_X) + 1.75) > 1e-3) wrong++; }
  }
  expect(full > 0 && wrong == 0, "what is called optimal is so to full precision");
  return bad;
}
''')
