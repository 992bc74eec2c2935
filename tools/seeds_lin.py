"""planted changes to the linear algebra of the conic solver (P28)"""
from mkseed import *
import mkseed
O = "solver/src/solver/optimizer/"; C = "solver/src/solver/interface/Cone.cpp"
PRE = CPRE.replace("#include <solver/interface/Model.hpp>", "#include <sstream>\n#include <functional>\n#include <map>\n#define private public\n#define protected public\n#include <solver/interface/Model.hpp>\n#include <solver/optimizer/EqRoutine.hpp>\n#include <solver/optimizer/SparseCholesky.hpp>\n#undef private\n#undef protected")
def lin(id, needs, breaks, edits, body):
    import shutil
    mk(id, "P28", needs, breaks, edits, {"demo.cpp": PRE + body}, CON)
    shutil.copytree("/verif/stubs/yaml_utils", "/verif/seeded/%s/stub/yaml_utils" % id, dirs_exist_ok=True)
lin("p28-wrong-sign", "a pivot of the wrong sign",
    "pivots of the wrong sign are not replaced when they are large",
    [(O + "SparseCholesky.cpp", "D[k] = sign[k]*D[k] <= eps_ ? sign[k]*delta_ : D[k];", "D[k] = std::abs(D[k]) <= eps_ ? sign[k]*delta_ : D[k];")],
    '''int main() { SolverSetting s; stgs(s); linalg::SparseCholesky c; Eigen::SparseMatrix<double> m(2, 2); m.insert(0, 0) = 2; m.insert(0, 1) = 2; m.insert(1, 1) = 1; m.makeCompressed(); Eigen::VectorXd g(2), b(2); g << 1, 1; b << 0, 1;
  c.analyzePattern(m, s); c.factorize(m, g); Eigen::VectorXd x = c.solve(b); std::printf("%g %g\\n", x(0), x(1)); return !(x(1) > 1e6); }\n''')
lin("p28-last-cone", "several cones, one of the first ones violated most",
    "points are moved into the cone by what the last violated cone needs, which may not be enough for the others",
    [(C, "      if (residual > max_residual) { max_residual = residual; }", "      if (residual > 0.0) { max_residual = residual; }")],
    '''int main() { Cone* c = new Cone; Eigen::VectorXi q(2); q << 2, 2; c->initialize(1, 0, 1, q); Eigen::VectorXd s(5); s << 0, 0, 5, 0, 1; c->conicProjection(s); std::printf("%g >= %g\\n", s(1), s(2)); return !(s(1) > s(2)); }\n''')
lin("p28-undo-without-equalities", "a program without equalities",
    "the inequalities of programs without equalities stay scaled",
    [(O + "EqRoutine.cpp", "    if (stg.Amatrix().nonZeros()>0) { unequilibrateRowsCols(equil_vec_.y().data(), equil_vec_.x().data(), stg.Amatrix()); }\n    if (stg.Gmatrix().nonZeros()>0) { unequilibrateRowsCols(equil_vec_.z().data(), equil_vec_.x().data(), stg.Gmatrix()); }",
      "    if (stg.Amatrix().nonZeros()>0) {\n      unequilibrateRowsCols(equil_vec_.y().data(), equil_vec_.x().data(), stg.Amatrix());\n      unequilibrateRowsCols(equil_vec_.z().data(), equil_vec_.x().data(), stg.Gmatrix());\n    }")],
    '''int main() { SolverSetting s; stgs(s); Cone* c = new Cone; Eigen::VectorXi q(1); q << 2; c->initialize(2, 0, 1, q); SolverStorage* t = new SolverStorage; t->initialize(*c, s); t->cleanCoeffs(); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) t->addCoeff({i, j, 1. + 3 * i + j});
  t->initializeMatrices(); t->cbh().setOnes(); Eigen::MatrixXd G = t->Gmatrix(); EqRoutine e; e.setEquilibration(*c, s, *t); e.unsetEquilibration(*t); double d = (Eigen::MatrixXd(t->Gmatrix()) - G).norm(); std::printf("off by %g\\n", d); return !(d < 1e-9); }\n''')
lin("p28-cone-shift", "the difference of a conic vector with several cones and a number",
    "subtracting a number from a conic vector subtracts it from the first cone only",
    [(C, "      conic_diff.zSoc(i)[0] -= rhs;", "      conic_diff.z()[this->cone_->sizeLpc()] -= (i == 0 ? rhs : 0.0);")],
    '''int main() { Cone* c = new Cone; Eigen::VectorXi q(2); q << 2, 3; c->initialize(1, 0, 1, q); ConicVector a; a.initialize(*c); a.setConstant(4); ConicVector b = a - 1.5; std::printf("%g %g %g\\n", b(0), b(1), b(3)); return !(b(0) == 2.5 && b(1) == 2.5 && b(2) == 4 && b(3) == 2.5 && b(4) == 4); }\n''')
