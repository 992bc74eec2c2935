from mkseed import *
IP="solver/src/solver/optimizer/IPSolver.cpp"; CP="solver/src/solver/interface/ConicProblem.cpp"; BB="solver/src/solver/optimizer/BnBSolver.cpp"; EX="solver/include/solver/interface/Exprs.hpp"
con("p05-kappa-step","P05","a problem for which the step that kappa allows is shorter than the one the cones allow",
 "the interior point line search ignores kappa: iterates leave the embedding, and problems end with wrong or no verdicts",
 [(IP,"    if (-kappa/dkappa>0 && -kappa/dkappa<alpha) { alpha = -kappa/dkappa; }\n","")],
'''int main() {
  { // max y st x + y <= 2 (twice), 2y = x
    Model m; stgs(m.getSetting());
    Var x = m.addVar(VarType::Continuous, -10, 10), y = m.addVar(VarType::Continuous, -10, 10);
    m.addLinConstr(LinExpr(x)+y, "<", 2.0); m.addLinConstr(LinExpr(y)*2.0-x, "=", 0.0); m.addLinConstr(LinExpr(x)+y, "<", 2.0);
    DCPQuadExpr o; m.setObjective(o, LinExpr(y)*(-1.0));
    expect(solved(m.optimize()) && near(x.get(SolverDoubleParam_X), 4/3.) && near(y.get(SolverDoubleParam_X), 2/3.), "max y");
  }
  { // least squares over two rows
    Model m; stgs(m.getSetting());
    Var x = m.addVar(VarType::Continuous, -10, 10), y = m.addVar(VarType::Continuous, -10, 10);
    m.addLinConstr(LinExpr(x)-y, "=", 0.0); m.addLinConstr(LinExpr(y)*2.0-x, ">", 2.0);
    DCPQuadExpr o; o.addQuaTerm(0.5, LinExpr(x)+y+1.0); m.setObjective(o, LinExpr(x)*2.0+y);
    expect(solved(m.optimize()) && near(x.get(SolverDoubleParam_X), 2) && near(y.get(SolverDoubleParam_X), 2), "quadratic cost");
  }
  return bad;
}
''')
con("p06-constant-term","P06","a second-order cone constraint with a term that has no variables, such as sqrt(x^2 + 1) <= t",
 "the constant of a norm term without variables is dropped from the cone",
 [(CP,"""                                     -soccons_[row_id].qexpr()[qvar_id].getCoeff(lvar_id)));
        }
        this->getStorage().h()[row_start+qvar_id+1] = soccons_[row_id].qexpr()[qvar_id].getConstant();
""","""                                     -soccons_[row_id].qexpr()[qvar_id].getCoeff(lvar_id)));
          this->getStorage().h()[row_start+qvar_id+1] = soccons_[row_id].qexpr()[qvar_id].getConstant();
        }
""")],
'''int main() {
  Model m; stgs(m.getSetting());
  Var x = m.addVar(VarType::Continuous, -10, 10), t = m.addVar(VarType::Continuous, -10, 10);
  DCPQuadExpr q; q.addQuaTerm(1.0, LinExpr(x)); q.addQuaTerm(1.0, LinExpr(3.0));
  m.addSocConstr(q, "<", LinExpr(t)); m.addLinConstr(LinExpr(x), "=", 4.0);
  DCPQuadExpr o; m.setObjective(o, LinExpr(t));
  ExitCode e = m.optimize();
  expect(solved(e) && near(t.get(SolverDoubleParam_X), 5.0), "min t with sqrt(16 + 9) <= t is 5");
  return bad;
}
''')
con("p07-lost-node","P07","a search in which the node created last is the only one left to branch on",
 "branch and bound never selects the node created last, and ends with a worse or no solution as if the tree were exhausted",
 [(BB,"""    for (int node_id=0; node_id<=iteration_; node_id++) {
      if (nodes_[node_id].status_ == Status::SolvedBranchable &&""","""    for (int node_id=0; node_id<iteration_; node_id++) {
      if (nodes_[node_id].status_ == Status::SolvedBranchable &&""")],
'''int main() {
  int wrong = 0;
  for (int v = 0; v < 5*5*5*6; v++) {
    int w[3] = {1 + v%5, 1 + v/5%5, 1 + v/25%5}, cap = 3 + v/125;
    Model m; stgs(m.getSetting());
    Var b[3]; LinExpr s, f;
    for (int i = 0; i < 3; i++) { b[i] = m.addVar(VarType::Binary, 0, 1); s += LinExpr(b[i])*(w[i] + 0.3); f += LinExpr(b[i])*(-(w[i]*1.0 + 0.5*i)); }
    m.addLinConstr(s, "<", cap);
    DCPQuadExpr o; m.setObjective(o, f);
    ExitCode e = m.optimize();
    double best = 1e9; for (int k = 0; k < 8; k++) { double sw = 0, sf = 0; for (int i = 0; i < 3; i++) if (k>>i&1) { sw += w[i] + 0.3; sf -= w[i] + 0.5*i; } if (sw <= cap) best = std::min(best, sf); }
    double got = 0; for (int i = 0; i < 3; i++) got -= b[i].get(SolverDoubleParam_X)*(w[i] + 0.5*i);
    if (e == ExitCode::Optimal ? !near(got, best, 0.02) : e != ExitCode::OptimalInacc) wrong++;
  }
  expect(wrong == 0, "a knapsack was reported optimal with a worse choice, or had no answer");
  return bad;
}
''')
con("p08-stale-guess","P08","a trust region constraint with refinements (or a warm start), so that the linearisation point moves away from the guess",
 "later convexifications combine the current point with the initial guess",
 [(CP,"""this->getStorage().h()[row_start+row_count] -= 2.0*qineqcons_[row_id].coeffs()[qvar_id]*qineqcons_[row_id].qexpr()[qvar_id].getValue()*qineqcons_[row_id].qexpr()[qvar_id].getCoeff(lvar_id)*qineqcons_[row_id].getVar(qvar_id, lvar_id).get(SolverDoubleParam_X);""",
 """this->getStorage().h()[row_start+row_count] -= 2.0*qineqcons_[row_id].coeffs()[qvar_id]*qineqcons_[row_id].qexpr()[qvar_id].getValue()*qineqcons_[row_id].qexpr()[qvar_id].getCoeff(lvar_id)*qineqcons_[row_id].getVar(qvar_id, lvar_id).get(SolverDoubleParam_Guess);""")],
'''int main() {
  // t = x^2 (within the threshold), x = 2 : refinements bring t to 4
  Model m; stgs(m.getSetting()); m.getSetting().set(SolverIntParam_NumberRefinementsTrustRegion, 2);
  Var x = m.addVar(VarType::Continuous, -10, 10, 1.9), t = m.addVar(VarType::Continuous, -10, 10, 3.6);
  DCPQuadExpr q; q.addQuaTerm(1.0, LinExpr(x));
  m.addQuaConstr(q, "<", LinExpr(t), QuadConstrApprox::TrustRegion);
  m.addLinConstr(LinExpr(x), "=", 2.0);
  DCPQuadExpr o; m.setObjective(o, LinExpr(t)*(-1.0));   // push t away from x^2
  ExitCode e = m.optimize();
  expect(solved(e) && t.get(SolverDoubleParam_X) <= 4.0 + 0.011 && t.get(SolverDoubleParam_X) >= 4.0 - 1e-3, "t stays within the shrunk threshold of x^2");
  return bad;
}
''')
con("p09-divide-constant","P09","the in-place division of an expression that has a constant, used in a chain of updates",
 "expression /= a leaves the constant as it was",
 [(EX,"{ constant_ /= a; for (int i=0","{ for (int i=0")],
'''int main() {
  Model m; stgs(m.getSetting());
  Var x = m.addVar(VarType::Continuous, -10, 10, 3.0);
  LinExpr e = LinExpr(x)*2.0 + 4.0; e /= 2.0; e -= 1.0;
  expect(near(e.getValue(), 4.0), "(2x + 4)/2 - 1 = x + 1");
  return bad;
}
''')
con("p10-stale-objective","P10","a model that is solved, cleaned and rebuilt as a feasibility problem, without setting an objective",
 "cleaning the model keeps the objective of the previous problem",
 [(CP,"	objective_.clear();\n","")],
'''int main() {
  Model m; stgs(m.getSetting());
  Var x = m.addVar(VarType::Continuous, -10, 10), y = m.addVar(VarType::Continuous, -10, 10);
  m.addLinConstr(LinExpr(x), ">", 1.0); m.addLinConstr(LinExpr(y), ">", 1.0);
  DCPQuadExpr o; m.setObjective(o, LinExpr(x) + y);
  expect(solved(m.optimize()) && near(x.get(SolverDoubleParam_X), 1.0), "first problem");
  m.clean();
  Var u = m.addVar(VarType::Continuous, -10, 10), v = m.addVar(VarType::Continuous, -10, 10);
  m.addLinConstr(LinExpr(u), "<", 1.0); m.addLinConstr(LinExpr(v), "<", 1.0);
  ExitCode e = m.optimize();   // any point with u, v <= 1
  expect(solved(e) && u.get(SolverDoubleParam_X) <= 1.001 && v.get(SolverDoubleParam_X) <= 1.001, "feasibility problem after clean");
  return bad;
}
''')
