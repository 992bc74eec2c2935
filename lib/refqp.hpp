// Boring reference solvers for tiny dense problems: enumerate active sets, solve the
// equality constrained least squares / quadratic problems exactly (dense, full pivoting).
#pragma once
#include <Eigen/Dense>
#include <vector>
#include <limits>
namespace ref {
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V;

// Gaussian elimination with full pivoting on [A|b]; returns false if inconsistent. x = xp + Z y
struct Affine { bool ok; V xp; M Z; };
inline Affine solveAffine(M A, V b, int n, double tol = 1e-9) {
  Affine r; r.ok = true; int m = A.rows();
  std::vector<int> pc; int row = 0;
  std::vector<char> used(n, 0);
  for (; row < m;) {
    int br = -1, bc = -1; double best = tol;
    for (int i = row; i < m; i++) for (int j = 0; j < n; j++) if (!used[j] && std::fabs(A(i, j)) > best) { best = std::fabs(A(i, j)); br = i; bc = j; }
    if (br < 0) break;
    A.row(row).swap(A.row(br)); std::swap(b(row), b(br));
    double p = A(row, bc); A.row(row) /= p; b(row) /= p;
    for (int i = 0; i < m; i++) if (i != row && A(i, bc) != 0) { double f = A(i, bc); A.row(i) -= f * A.row(row); b(i) -= f * b(row); }
    used[bc] = 1; pc.push_back(bc); row++;
  }
  for (int i = row; i < m; i++) if (std::fabs(b(i)) > 1e-7) { r.ok = false; return r; }
  r.xp = V::Zero(n); for (int i = 0; i < row; i++) r.xp(pc[i]) = b(i);
  r.Z = M::Zero(n, n - row); int c = 0;
  for (int j = 0; j < n; j++) if (!used[j]) { r.Z(j, c) = 1; for (int i = 0; i < row; i++) r.Z(pc[i], c) = -A(i, j); c++; }
  return r;
}
// min ||M x + m||^2 s.t. E x = e ; any minimiser. false if E x = e inconsistent
inline bool lsqEq(const M& Mm, const V& m, const M& E, const V& e, V& x) {
  int n = E.cols();
  Affine a = solveAffine(E, e, n);
  if (!a.ok) return false;
  if (a.Z.cols() == 0 || Mm.rows() == 0) { x = a.xp; return true; }
  M W = Mm * a.Z; V r = m + Mm * a.xp;
  Affine y = solveAffine(W.transpose() * W, -W.transpose() * r, a.Z.cols());
  if (!y.ok) { x = a.xp; return true; }
  x = a.xp + a.Z * y.xp; return true;
}
// min 1/2 x'Hx + g'x s.t. E x = e with H positive definite
inline bool qpEq(const M& H, const V& g, const M& E, const V& e, V& x) {
  Affine a = solveAffine(E, e, H.rows());
  if (!a.ok) return false;
  if (a.Z.cols() == 0) { x = a.xp; return true; }
  Affine y = solveAffine(a.Z.transpose() * H * a.Z, -a.Z.transpose() * (H * a.xp + g), a.Z.cols());
  x = a.xp + a.Z * y.xp; return true;
}
inline M vcat(const M& a, const M& b) { M r(a.rows() + b.rows(), std::max(a.cols(), b.cols())); if (a.rows()) r.topRows(a.rows()) = a; if (b.rows()) r.bottomRows(b.rows()) = b; return r; }
inline V vcatv(const V& a, const V& b) { V r(a.size() + b.size()); r << a, b; return r; }
// strictly convex QP: min 1/2 x'Hx+g'x, E x = e, A x <= b. returns feasible?
inline bool qp(const M& H, const V& g, const M& E, const V& e, const M& A, const V& b, V& xbest, double ftol = 1e-7) {
  int n = H.rows(), m = A.rows(); bool found = false; double best = 0;
  for (int S = 0; S < (1 << m); S++) {
    int k = __builtin_popcount(S); if (k > n) continue;
    M EE(E.rows() + k, n); V ee(E.rows() + k); if (E.rows()) { EE.topRows(E.rows()) = E; ee.head(E.rows()) = e; }
    int r = E.rows(); for (int i = 0; i < m; i++) if (S >> i & 1) { EE.row(r) = A.row(i); ee(r++) = b(i); }
    V x; if (!qpEq(H, g, EE, ee, x)) continue;
    if (m && (A * x - b).maxCoeff() > ftol) continue;
    double f = 0.5 * x.dot(H * x) + g.dot(x);
    if (!found || f < best) { found = true; best = f; xbest = x; }
  }
  return found;
}
struct Level { M B; V b; M A; V a; };  // B x + b ~ 0, A x + a <= 0
struct LexOut { std::vector<V> eqres, viol; V x; };
// lexicographic least squares by active set enumeration
inline bool lexlsq(const std::vector<Level>& L, int n, LexOut& o) {
  M F(0, n), G(0, n); V f(0), g(0);
  V x = V::Zero(n);
  o.eqres.clear(); o.viol.clear();
  for (auto& l : L) {
    int mg = G.rows(), ma = l.A.rows(); bool found = false; double best = 0; V xb;
    int n3 = 1; for (int i = 0; i < ma; i++) n3 *= 3;
    if (l.B.rows() == 0 && ma == 0) { o.eqres.push_back(V(0)); o.viol.push_back(V(0)); continue; }
    for (int T = 0; T < (1 << mg); T++) {
      if (__builtin_popcount(T) > n) continue;
      for (int s = 0; s < n3; s++) {
        int st[12], t = s, pin = 0, vio = 0; for (int i = 0; i < ma; i++) { st[i] = t % 3; t /= 3; pin += st[i] == 1; vio += st[i] == 2; }
        if (pin + __builtin_popcount(T) > n) continue;
        M E(F.rows() + __builtin_popcount(T) + pin, n); V e(E.rows()); if (F.rows()) { E.topRows(F.rows()) = F; e.head(F.rows()) = f; }
        int r = F.rows(); for (int i = 0; i < mg; i++) if (T >> i & 1) { E.row(r) = G.row(i); e(r++) = g(i); }
        M Q(l.B.rows() + vio, n); V q(Q.rows()); if (l.B.rows()) { Q.topRows(l.B.rows()) = l.B; q.head(l.B.rows()) = l.b; }
        int rq = l.B.rows();
        for (int i = 0; i < ma; i++) { if (st[i] == 1) { E.row(r) = l.A.row(i); e(r++) = -l.a(i); } if (st[i] == 2) { Q.row(rq) = l.A.row(i); q(rq++) = l.a(i); } }
        V c; if (!lsqEq(Q, q, E, e, c)) continue;
        if (mg && (G * c - g).maxCoeff() > 1e-7) continue;
        double v = 0; if (l.B.rows()) v += (l.B * c + l.b).squaredNorm(); if (ma) v += (l.A * c + l.a).cwiseMax(0).squaredNorm();
        if (!found || v < best - 1e-13) { found = true; best = v; xb = c; }
      }
    }
    if (!found) return false;
    x = xb;
    V er = l.B.rows() ? V(l.B * x + l.b) : V(0); V vi = ma ? V((l.A * x + l.a).cwiseMax(0)) : V(0);
    o.eqres.push_back(er); o.viol.push_back(vi);
    if (l.B.rows()) { V rhs = l.B * x; F = vcat(F, l.B); f = vcatv(f, rhs); }
    if (ma) { G = vcat(G, l.A); g = vcatv(g, V(vi - l.a)); }
  }
  o.x = x; return true;
}
}
