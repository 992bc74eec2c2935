"""planted changes to the fixed-capacity matrices (P27)"""
from mkseed import *
F = "solver/include/solver/rt_optimizer/RtMatrix.hpp"
SH = HEAD + '''g++ -std=c++17 -O1 -w -I"$R/solver/include" -I/usr/include/eigen3 "$D/demo.cpp" -o "$W/demo"
timeout 60 "$W/demo"
'''
PRE = '''#include <cstdio>
#include <cassert>
#include <cmath>
#include <iostream>
#include <solver/rt_optimizer/RtMatrix.hpp>
using namespace rt_solver; typedef RtMatrix<6, 3>::d M; typedef RtVector<6>::d V;
'''
def rtm(id, needs, breaks, edits, body): mk(id, "P27", needs, breaks, edits, {"demo.cpp": PRE + body}, SH)
rtm("p27-row-blocks", "two zero rows in a row with something after them",
    "removing zero rows keeps stale rows when several zero rows stand together",
    [(F, "          first_empty_i += block_end_i-block_start_i;\n          block_start_i = block_end_i;", "          first_empty_i = block_start_i;\n          block_start_i = block_end_i;")],
    'int main() { M m(4, 3); V v(4); m.setZero(); m.row(0).setConstant(1); m.row(3).setConstant(2); v << 1, 0, 0, 2; RtAffineUtils::removeZeroRows(m, v); std::printf("%d rows\\n", int(m.rows())); return !(m.rows() == 2 && v.size() == 2 && m(1, 0) == 2 && v(1) == 2); }\n')
rtm("p27-stale-columns", "rows narrower than the matrix appended before its last columns, in storage that was used before",
    "columns behind appended rows hold what was in the storage",
    [(F, "        aff_mat.block(last_row, 0, subst_mat.rows(), aff_mat.cols()).setZero();\n        aff_mat.block(last_row, starting_column, subst_mat.rows(), subst_mat.cols()) = subst_mat;",
      "        aff_mat.block(last_row, 0, subst_mat.rows(), starting_column).setZero();\n        aff_mat.block(last_row, starting_column, subst_mat.rows(), subst_mat.cols()) = subst_mat;")],
    'int main() { M m(6, 3); m.setConstant(9); m.conservativeResize(2, 3); Eigen::MatrixXd s = Eigen::MatrixXd::Ones(1, 1); RtMatrixUtils::appendAtColumn(m, s, 1); std::printf("%g %g %g\\n", m(2, 0), m(2, 1), m(2, 2)); return !(m(2, 0) == 0 && m(2, 1) == 1 && m(2, 2) == 0); }\n')
rtm("p27-weight-coupling", "weights that couple rows, and an offset",
    "the linear part of a weighted norm leaves out the coupling between rows",
    [(F, "        quad_vec += aff_mat.transpose() * weight_mat * aff_vec;", "        quad_vec += aff_mat.transpose() * (weight_mat.diagonal().array() * aff_vec.array()).matrix();")],
    'int main() { RtMatrix<2, 2>::d q(2, 2), a(2, 2), w(2, 2); RtVector<2>::d l(2), b(2); q.setZero(); l.setZero(); a.setIdentity(); b << 1, 0; w << 2, 1, 1, 3; RtQuadraticUtils::addFromWeightedNorm(q, l, a, b, w); std::printf("%g %g\\n", l(0), l(1)); return !(l(0) == 2 && l(1) == 1); }\n')
rtm("p27-small-units", "a matrix whose entries are all small",
    "the rank of a matrix is judged by the size of its singular values, not by their ratio",
    [(F, "first_sv / mat_svd.singularValues()[dim_range] > mat_cond_threas)", "std::max(first_sv, 1.0) / mat_svd.singularValues()[dim_range] > mat_cond_threas)")],
    'int main() { typedef RtMatrix<3, 3>::d A; A m(2, 3); m << 1e-9, 0, 0, 0, 2e-9, 1e-9; A n(3, 3); Eigen::JacobiSVD<A> s(m, Eigen::ComputeFullU | Eigen::ComputeFullV); int r = RtMatrixUtils::computeNullspaceMap(m, n, s); std::printf("rank %d\\n", r); return r != 2; }\n')
