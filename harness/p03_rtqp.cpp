// Dense QP of the real-time solver: all small problems vs. active set enumeration.
#include <vp.hpp>
#include <refqp.hpp>
#include <solver/rt_optimizer/RtQPSolver.hpp>
using ref::M; using ref::V;
typedef rt_solver::RtQPSolver<4, 3, 6> QP;
typedef rt_solver::RtQPSolverInterface<4, 3, 6> QPI;

static std::string str(const M& H, const V& g, const M& E, const V& e, const M& A, const V& a) {
  std::ostringstream o; o << "H=[" << H << "] g=[" << g.transpose() << "] E=[" << E << "] e=[" << e.transpose() << "] A=[" << A << "] a=[" << a.transpose() << "]";
  std::string s = o.str(); for (auto& c : s) if (c == '\n') c = ';'; return s;
}
// min 1/2 x'Hx+g'x st Ex+e=0, Ax+a<=0
static void check(const char* sec, QPI& s, const M& H, const V& g, const M& E, const V& e, const M& A, const V& a, bool unknown_inner = false) {
  int n = H.rows();
  // leave another problem's state in the instance first
  if (vp::ctx().cur_idx % 3 == 0) { s.reset(2, 0, 1); s.objectiveQuadPart().setIdentity(); s.objectiveLinPart() << -3, 1; M B(1, 2); B << 1, 1; V b(1); b << -1; s.appendInequalities(B, b); s.optimize(); }
  if (vp::ctx().cur_idx % 3 == 1) { s.reset(1, 0, 2); s.objectiveQuadPart().setIdentity(); s.objectiveLinPart() << 1; M B(2, 1); B << 1, -1; V b(2); b << 1, 1; s.appendInequalities(B, b); s.optimize(); }
  s.reset(n, E.rows(), A.rows());
  s.objectiveQuadPart() = H; s.objectiveLinPart() = g;
  for (int i = 0; i < E.rows(); i++) s.appendEqualities(E.row(i), e.segment(i, 1));
  if (A.rows()) s.appendInequalities(A, a);
  bool r = s.optimize();
  V xr; bool feas = ref::qp(H, g, E, V(-e), A, V(-a), xr);
  if (r != s.isOptimized()) { vp::fail(std::string(sec) + ":status", "optimize() and isOptimized() disagree: " + str(H, g, E, e, A, a)); return; }
  if (feas != r) { vp::fail(std::string(sec) + (feas ? ":claims_infeasible" : ":claims_solved"), std::string(feas ? "feasible problem reported infeasible: " : "infeasible problem reported solved: ") + str(H, g, E, e, A, a)); return; }
  if (!feas) { vp::count("infeasible"); vp::nontrivial(); return; }
  V x = s.solution(); double sc = 1 + xr.cwiseAbs().maxCoeff();
  double d = x.size() == n ? (x - xr).cwiseAbs().maxCoeff() : 1e9;
  if (!(d <= 1e-5 * sc)) { std::ostringstream o; o << "solution " << x.transpose() << " expected " << xr.transpose() << " for " << str(H, g, E, e, A, a); vp::fail(std::string(sec) + ":solution", o.str()); return; }
  V un; ref::qpEq(H, g, E, V(-e), un); bool act = (un - xr).cwiseAbs().maxCoeff() > 1e-7;
  vp::nontrivial(act); if (act) vp::count("active_inequalities");
  vp::sample([&] { std::ostringstream o; o << str(H, g, E, e, A, a) << " -> " << x.transpose(); return o.str(); });
}
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet q;
  QP* qp = new QP; QPI& s = *qp;
  M E0(0, 2), A0(0, 2); V v0(0);
  std::vector<M> H2; { double t[][3] = {{1, 0, 1}, {2, 1, 1}, {1, -1, 3}, {4, 0, 1e-3}, {1, 0.99, 1}}; for (auto& h : t) { M h2(2, 2); h2 << h[0], h[1], h[1], h[2]; H2.push_back(h2); } }
  std::vector<V> g2; for (double a : {-2., 0., 1.}) for (double b : {-1., 0., 3.}) { V g(2); g << a, b; g2.push_back(g); }
  std::vector<V> rows; { double d[][2] = {{1, 0}, {0, 1}, {1, 1}, {1, -1}, {-1, 2}}; for (auto& x : d) for (double k : {-1., 0., 2.}) for (double sg : {1., -1.}) { V r(3); r << sg * x[0], sg * x[1], k; rows.push_back(r); } }
  int R = rows.size();
  auto mk = [&](std::vector<int> id, M& A, V& a) { A.resize(id.size(), 2); a.resize(id.size()); for (size_t i = 0; i < id.size(); i++) { A.row(i) = rows[id[i]].head(2).transpose(); a(i) = rows[id[i]](2); } };
  for (auto& H : H2) for (auto& g : g2) { if (vp::next("unconstrained")) check("unconstrained", s, H, g, E0, v0, A0, v0); }
  // one, two inequalities; all
  for (auto& H : H2) for (auto& g : g2) for (int i = 0; i < R; i++) { M A; V a; if (vp::next("one_row")) { mk({i}, A, a); check("one_row", s, H, g, E0, v0, A, a); } }
  for (size_t h = 0; h < H2.size(); h++) for (size_t k = h % 2; k < g2.size(); k += (th ? 1 : 2)) for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) if (vp::next("two_rows")) { M A; V a; mk({i, j}, A, a); check("two_rows", s, H2[h], g2[k], E0, v0, A, a); }
  for (size_t h = 0; h < 2; h++) for (size_t k = 0; k < g2.size(); k += (th ? 1 : 4)) for (int i = 0; i < R; i++) for (int j = 0; j < R; j++) for (int l = 0; l < R; l++) if (vp::next("three_rows")) { M A; V a; mk({i, j, l}, A, a); check("three_rows", s, H2[h + 1], g2[k], E0, v0, A, a); }
  // an equality and up to two inequalities
  for (size_t h = 0; h < H2.size(); h++) for (size_t k = h % 4; k < g2.size(); k += (th ? 1 : 4)) for (int i = 0; i < R; i += 2) for (int j = 0; j < R; j++) for (int l = j; l < R; l++) if (vp::next("eq_two_rows")) { M A, E; V a, e; mk({i}, E, e); if (j == l) mk({j}, A, a); else mk({j, l}, A, a); check("eq_two_rows", s, H2[h], g2[k], E, e, A, a); }
  // two independent equalities and one inequality: the point is determined
  for (int i = 0; i < R; i += 2) for (int k = 0; k < R; k += 2) for (int j = 0; j < R; j++) { if (std::fabs(rows[i](0) * rows[k](1) - rows[i](1) * rows[k](0)) < 1e-9) continue; if (!vp::next("two_eq")) continue; M A, E; V a, e; mk({i, k}, E, e); mk({j}, A, a);
      V x = E.fullPivLu().solve(-e); V r = A * x + a; if (r(0) > 0 && r(0) < 1e-6) continue; check("two_eq", s, H2[1], g2[3], E, e, A, a); }
  // four inequalities in the plane, boxes and cones
  for (int i = 0; i < R; i += 3) for (int j = 1; j < R; j += 3) for (int k = 2; k < R; k += 3) for (int l = 0; l < R; l += 2) for (int g = 0; g < (th ? 9 : 1); g++) if (vp::next("four_rows")) { M A; V a; mk({i, j, k, l}, A, a); check("four_rows", s, H2[(i + l) % 5], g2[(4 + g) % 9], E0, v0, A, a); }
  // three variables: up to four rows, one equality
  {
    std::vector<V> r3; double d[][3] = {{1, 0, 0}, {0, -1, 1}, {1, 1, 1}, {0, 0, -1}, {-1, 2, 0}}; for (auto& x : d) for (double k : {-1., 1.}) for (double sg : {1., -1.}) { V r(4); r << sg * x[0], sg * x[1], sg * x[2], k; r3.push_back(r); }
    M H(3, 3); H << 3, 1, 0, 1, 2, -1, 0, -1, 2; V g(3); g << 1, -4, 2; M E30(0, 3); int N = r3.size();
    auto mk3 = [&](std::vector<int> id, M& A, V& a) { A.resize(id.size(), 3); a.resize(id.size()); for (size_t i = 0; i < id.size(); i++) { A.row(i) = r3[id[i]].head(3).transpose(); a(i) = r3[id[i]](3); } };
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) { if (vp::next("three_var_three_rows")) { M A; V a; mk3({i, j, k}, A, a); check("three_var_three_rows", s, H, g, E30, v0, A, a); } }
    for (int i = 0; i < N; i++) for (int j = i; j < N; j++) for (int k = j; k < N; k++) for (int l = k; l < N; l++) { if (vp::next("three_var_four_rows")) { M A; V a; mk3({l, j, k, i}, A, a); check("three_var_four_rows", s, H, g, E30, v0, A, a); } }
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) { if (vp::next("three_var_eq")) { M A, E; V a, e; mk3({i}, E, e); mk3({j, k}, A, a); check("three_var_eq", s, H, g, E, e, A, a); } }
  }
  // four variables and six rows: long sequences of steps in the primal and dual space, constraints entering and leaving
  for (int dim : {3, 4}) {
    std::vector<V> D; { double d[][4] = {{1, 0, 0, 0}, {0, 1, 0, 1}, {1, 1, 1, 1}, {0, -1, 1, 0}, {1, -1, 0, 2}, {-2, 1, 1, 0}, {0, 0, 1, -1}, {1, 0, 2, 1}, {-1, -1, 0, 0}, {0, 0, -1, -2}, {2, -1, -1, 1}, {0, 1, 0, 0}, {-1, 0, 1, 1}}; for (auto& x : d) { V v(4); v << x[0], x[1], x[2], x[3]; D.push_back(v); } }
    std::vector<M> H; { M h = M::Identity(dim, dim); H.push_back(h); for (int i = 0; i < dim; i++) { h(i, i) = 1 + i; if (i) h(i, i - 1) = h(i - 1, i) = 0.4 - 0.3 * i; } H.push_back(h); }
    int N = D.size(); const char* sec = dim == 3 ? "three_var_six_rows" : "four_var_six_rows";
    for (int me = 0; me < 2; me++) for (size_t h = 0; h < H.size(); h++) for (int gi = 0; gi < (th ? 6 : 3); gi++) for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) for (int k = j + 1; k < N; k++) for (int l = k + 1; l < N; l++) for (int b = 0; b < 8; b++) {
      if (!th && (i + j + k + l + gi + b + me) % 3) continue;
      if (!vp::next(sec)) continue;
      V g(dim); for (int x = 0; x < dim; x++) g(x) = ((x + 2) * (gi + 1) * 7 % 11) - 5.0;
      std::vector<int> id = {i, j, k, l, (i + j + b) % N, (k + l + 2 * b + 1) % N}; M A(6, dim); V a(6);
      for (int r = 0; r < 6; r++) { double sg = (b >> (r % 3) & 1) ? -1 : 1; A.row(r) = sg * D[id[r]].head(dim).transpose(); a(r) = ((r * 5 + b * 3 + gi) % 4) - 1.0; }
      M E(me, dim); V e(me); if (me) { for (int x = 0; x < dim; x++) E(0, x) = 1 + (x + gi) % 3; e(0) = 0.5 * b - 1; }
      check(sec, s, H[h], g, E, e, A, a); }
  }
  // one variable
  for (double h : {0.5, 2.}) for (double g : {-3., 0., 2.}) for (int i = -2; i <= 2; i++) for (int j = -2; j <= 2; j++) for (int k = -2; k <= 2; k++) for (int sg = 0; sg < 8; sg++) if (vp::next("one_variable")) {
    M H(1, 1); H << h; V gg(1); gg << g; M A(3, 1); A << (sg & 1 ? 1 : -1), (sg & 2 ? 2 : -1), (sg & 4 ? 1 : -3); V a(3); a << i, j, k; check("one_variable", s, H, gg, M(0, 1), v0, A, a); }
  delete qp;
  return vp::finish();
}
