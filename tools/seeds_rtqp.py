from mkseed import *
Q="solver/include/solver/rt_optimizer/RtQPSolver.hpp"
mk("p03-dual-step","P03","a constraint that depends linearly on the active ones and enters after a step in the dual space, followed by further constraints",
 "the multiplier of a constraint that enters through a step in the dual space is not updated, so that later steps drop the wrong constraint",
 [(Q,"            u.head(iq) -= t * r.head(iq);\n            u(iq) += t;\n            iai(l) = l;","            u.head(iq) -= t * r.head(iq);\n            iai(l) = l;")],
 {"demo.cpp": r'''#include <cstdio>
#include <cmath>
#include <vector>
#include <solver/rt_optimizer/RtQPSolver.hpp>
typedef rt_solver::RtQPSolver<4, 3, 6> QP; typedef rt_solver::RtQPSolverInterface<4, 3, 6> QPI;
// the minimiser of a strictly convex problem does not depend on the order in which its rows are written
int main() {
  QP* q = new QP; QPI& s = *q; int bad = 0, n = 0; unsigned z = 1; auto rnd = [&](int m) { z = z*1664525u + 1013904223u; return int((z >> 16) % m); };
  for (int c = 0; c < 20000; c++) {
    static const double d[13][4] = {{1,0,0,0},{0,1,0,1},{1,1,1,1},{0,-1,1,0},{1,-1,0,2},{-2,1,1,0},{0,0,1,-1},{1,0,2,1},{-1,-1,0,0},{0,0,-1,-2},{2,-1,-1,1},{0,1,0,0},{-1,0,1,1}};
    Eigen::MatrixXd A(6, 4); Eigen::VectorXd v(6), g(4); int t = rnd(6) ? rnd(13) : -1;   // often a direction more than once
    for (int i = 0; i < 6; i++) { int k = i == 4 && t >= 0 ? t : i == 1 && t >= 0 ? t : rnd(13); double sg = rnd(2) ? 1 : -1; for (int j = 0; j < 4; j++) A(i, j) = sg*d[k][j]; v(i) = rnd(4) - 1; } for (int j = 0; j < 4; j++) g(j) = rnd(11) - 5;
    bool ok[3]; Eigen::VectorXd x[3];
    for (int k = 0; k < 3; k++) { s.reset(4, 0, 6); s.objectiveQuadPart().setIdentity(); s.objectiveLinPart() = g;
      for (int i = 0; i < 6; i++) { int r = k == 0 ? i : k == 1 ? 5 - i : (i*5 + 2) % 6; s.appendInequalities(A.row(r), v.segment(r, 1)); }
      ok[k] = s.optimize(); if (ok[k]) x[k] = s.solution(); }
    n += ok[0]; if (ok[0] != ok[1] || ok[0] != ok[2] || (ok[0] && ((x[0] - x[1]).norm() > 1e-5 || (x[0] - x[2]).norm() > 1e-5))) bad++; }
  printf("%d of %d answers depend on the order of the rows\n", bad, n); return bad ? 1 : 0;
}
'''}, RT)
