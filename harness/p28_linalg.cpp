// What the conic solver is built on: sparse factorization, cone operations, KKT systems and equilibration,
// on all small patterns / cone layouts, against dense linear algebra.
#include <vp.hpp>
#include <conic.hpp>
#include <solver/optimizer/LinSolver.hpp>
#include <solver/optimizer/EqRoutine.hpp>
#include <solver/optimizer/SparseCholesky.hpp>
using namespace cn; typedef Eigen::SparseMatrix<double> S; typedef Eigen::VectorXi VI;
static double num(int i) { static const double T[] = {1, -2, 0.5, 3, -1, 0.25, 2, -0.75, 1.5, -3, 0.125}; return T[((i % 11) + 11) % 11]; }
static std::string mt(const M& m) { std::ostringstream o; o << m.rows() << "x" << m.cols() << " [" << m.format(Eigen::IOFormat(Eigen::StreamPrecision, Eigen::DontAlignCols, " ", "; ")) << "]"; return o.str(); }
static SolverSetting stg;

// ---- LDL' factorization of symmetric matrices given by their upper triangle
static S upper(const M& K, const std::vector<std::vector<bool>>& pat) { std::vector<Eigen::Triplet<double>> t; int n = K.rows(); for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) if (pat[i][j]) t.push_back({i, j, K(i, j)}); S s(n, n); s.setFromTriplets(t.begin(), t.end()); s.makeCompressed(); return s; }
static bool reference(M K, const V& sign, const V& b, V& x) {          // pivots of the wrong sign or too small are replaced; false if one is too close to call
  int n = K.rows(); M L = M::Identity(n, n); V D(n); double eps = stg.get(SolverDoubleParam_DynamicRegularizationThresh), del = stg.get(SolverDoubleParam_DynamicRegularization);
  for (int k = 0; k < n; k++) { double d = K(k, k); for (int j = 0; j < k; j++) d -= L(k, j) * L(k, j) * D(j); if (std::fabs(sign(k) * d - eps) < 1e-9) return false; D(k) = sign(k) * d <= eps ? sign(k) * del : d;
    for (int i = k + 1; i < n; i++) { double l = K(i, k); for (int j = 0; j < k; j++) l -= L(i, j) * D(j) * L(k, j); L(i, k) = l / D(k); } }
  x = L.triangularView<Eigen::UnitLower>().solve(b); x = (x.array() / D.array()).matrix(); x = L.transpose().triangularView<Eigen::UnitUpper>().solve(x); return x.allFinite() && x.cwiseAbs().maxCoeff() < 1e9;
}
static void factor(linalg::SparseCholesky& c, const M& K, const std::vector<std::vector<bool>>& pat, const V& sign, const std::string& what, bool quasi) {
  S s = upper(K, pat); int n = K.rows(); if (c.factorize(s, sign) != n) { vp::fail("factor:status", what + ": not factorized: " + mt(K)); return; }
  for (int r = 0; r < 2; r++) { V b(n), x; for (int i = 0; i < n; i++) b(i) = num(3 * i + 5 * r + n); if (!reference(K, sign, b, x)) return; double tol = quasi ? 1e-9 : 1e-5;
    V y(n); y.setConstant(7); c.solve(b, y.data()); V z = c.solve(b);
    for (const V& g : {y, z}) if (!((g - x).cwiseAbs().maxCoeff() <= tol * (1 + x.cwiseAbs().maxCoeff()))) { vp::fail("factor:solution", what + ": K = " + mt(K) + ", b = " + cn::str(b) + ": x = " + cn::str(g) + ", expected " + cn::str(x)); return; }
    if (quasi && !((K * y - b).cwiseAbs().maxCoeff() <= 1e-9 * (1 + y.cwiseAbs().maxCoeff()))) { vp::fail("factor:residual", what + ": K = " + mt(K) + ", b = " + cn::str(b) + ": x = " + cn::str(y)); return; }
    vp::count("systems"); }
}

// ---- cones
struct Lay { int n, p, l; std::vector<int> q; int m() const { int s = l; for (int k : q) s += k; return s; } std::string str() const { std::ostringstream o; o << n << " variables, " << p << " equalities, " << l << " inequalities, cones"; for (int k : q) o << " " << k; return o.str(); } };
static int former = 0;                                                       // every second cone was used for another layout before
static Cone* cone(const Lay& L) { Cone* c = new Cone; if (++former % 2) { VI o(former % 6 / 2); for (int i = 0; i < o.size(); i++) o(i) = 6 - i; c->initialize(L.n % 2 + 1, 1 + L.p % 2, (L.l + 2) % 4, o); } VI q(L.q.size()); for (size_t i = 0; i < L.q.size(); i++) q(i) = L.q[i]; c->initialize(L.n, L.p, L.l, q); return c; }
static V inside(const Lay& L, int seed, double margin) { V s(L.m()); int k = 0; for (int i = 0; i < L.l; i++, k++) s(k) = margin * (1 + (seed + 3 * i) % 4); for (int q : L.q) { double nn = 0; for (int i = 1; i < q; i++) { s(k + i) = num(seed + 3 * i + k); nn += s(k + i) * s(k + i); } s(k) = std::sqrt(nn) + margin * (1 + (seed + k) % 3); k += q; } return s; }
static V any(int n, int seed) { V v(n); for (int i = 0; i < n; i++) v(i) = num(seed + 4 * i + i * i); return v; }
static V jordan(const Lay& L, const V& u, const V& v) { V w(u.size()); int k = 0; for (; k < L.l; k++) w(k) = u(k) * v(k); for (int q : L.q) { w(k) = u.segment(k, q).dot(v.segment(k, q)); for (int i = 1; i < q; i++) w(k + i) = u(k) * v(k + i) + v(k) * u(k + i); k += q; } return w; }
static V unit(const Lay& L) { V e = V::Zero(L.m()); int k = 0; for (; k < L.l; k++) e(k) = 1; for (int q : L.q) { e(k) = 1; k += q; } return e; }
static double margin(const Lay& L, const V& s) { double m = 1e9; int k = 0; for (; k < L.l; k++) m = std::min(m, s(k)); for (int q : L.q) { m = std::min(m, s(k) - s.segment(k + 1, q - 1).norm()); k += q; } return m; }
static M scaling(const Cone& c, int m) { M W(m, m); for (int j = 0; j < m; j++) { V e = V::Zero(m), r(m); r.setConstant(5); e(j) = 1; c.conicNTScaling(e, r); W.col(j) = r; } return W; }
static bool eq(const char* key, const std::string& w, const V& g, const V& e, double tol = 1e-9) { if (g.size() == e.size() && (!g.size() || (g - e).cwiseAbs().maxCoeff() <= tol * (1 + e.cwiseAbs().maxCoeff()))) return true; vp::fail(key, w + ": " + cn::str(g) + ", expected " + cn::str(e)); return false; }

static void cones(const Lay& L, int seed) {
  Cone* C = cone(L); Cone& c = *C; int m = L.m(); std::string w = L.str() + ", seed " + std::to_string(seed);
  V s = inside(L, seed, seed % 2 ? 0.5 : 2), z = inside(L, seed * 3 + 1, seed % 3 ? 1 : 0.25), u = any(m, seed), v = any(m, seed + 5);
  // sizes and offsets
  int soc = m - L.l, ns = L.q.size(); bool ok = c.numVars() == L.n && c.numLeq() == L.p && c.sizeLpc() == L.l && c.numSoc() == ns && c.sizeSoc() == soc && c.sizeCone() == m && c.numCones() == L.l + ns && c.sizeConstraints() == L.p + m && c.sizeProb() == L.n + L.p + m && c.extSizeCone() == m + 2 * ns && c.extSizeProb() == L.n + L.p + m + 2 * ns && c.lpConeStart() == L.n + L.p && c.soConeStart() == L.n + L.p + L.l;
  int k = L.l; for (int i = 0; i < ns; i++) { ok = ok && c.sizeSoc(i) == L.q[i] && c.startSoc(i) == k && c.optStartSoc(i) == L.n + L.p + k && c.extStartSoc(i) == L.n + L.p + k + 2 * i; k += L.q[i]; }
  if (!ok) { vp::fail("cone:layout", w + ": sizes or offsets do not add up"); return; }
  // residuals and products
  k = L.l; for (int q : L.q) { V a = u.segment(k, q), b = v.segment(k, q); double r1 = a(0) * a(0) - a.tail(q - 1).squaredNorm(), r2 = a(0) * b(0) - a.tail(q - 1).dot(b.tail(q - 1)), r3 = a(0) - a.tail(q - 1).norm();
    if (std::fabs(c.conicResidual(a) - r1) > 1e-9 || std::fabs(c.conicResidual(a, b) - r2) > 1e-9 || std::fabs(Cone::normSoc(a) - r3) > 1e-9) vp::fail("cone:residual", w + ": residuals of " + cn::str(a) + " and " + cn::str(b)); k += q; }
  V g(m), e = jordan(L, u, v); g.setConstant(9); double mu = c.conicProduct(u, v, g), me = 0; for (int i = 0; i < L.l; i++) me += std::fabs(e(i)); k = L.l; for (int q : L.q) { me += std::fabs(e(k)); k += q; }
  if (!eq("cone:product", w + ": product of " + cn::str(u) + " and " + cn::str(v), g, e)) return; if (std::fabs(mu - me) > 1e-9) vp::fail("cone:gap", w + ": product measures " + std::to_string(mu) + ", expected " + std::to_string(me));
  g.setConstant(9); c.conicDivision(s, v, g); if (!eq("cone:division", w + ": " + cn::str(s) + " times (" + cn::str(v) + " divided by it)", jordan(L, s, g), v, 1e-8)) return;
  // projection: moved along the unit by no more than needed for a margin of one
  for (int i = 0; i < 22 && m; i++) { V y = (i % 2 ? -1 : 1) * any(m, seed + i / 2); g = y; c.conicProjection(g); V d = g - y; double t = 1 + std::max(0., -margin(L, y)); if (!eq("cone:projection", w + ": " + cn::str(y) + " moved by", d, t * unit(L))) return; }
  // vectors with their views
  ConicVector a, b, r; a.initialize(c); b.initialize(c); r.initialize(c); a = u; b = v; r = ConicVector(a + b); eq("vector:sum", w, r, u + v); r = a * b; eq("vector:product", w, r, e); r = -a; eq("vector:negative", w, r, -u); r = a + 2.5; eq("vector:plus", w, r, u + 2.5 * unit(L)); r = a - 2.5; eq("vector:minus", w, r, u - 2.5 * unit(L)); r = a; r += 1.5; eq("vector:increment", w, r, u + 1.5 * unit(L));
  a = s; r = a / b; eq("vector:quotient", w, jordan(L, s, V(r)), v, 1e-8);
  { Vector x; x.initialize(c); ExtendedVector X; X.initialize(c); OptimizationVector o; o.initialize(c); ok = x.size() == c.sizeProb() && X.size() == c.extSizeProb() && o.size() == c.sizeProb() + m + 2; for (int i = 0; i < x.size(); i++) x(i) = i + 1; for (int i = 0; i < X.size(); i++) X(i) = i + 1; for (int i = 0; i < o.size(); i++) o(i) = i + 1;
    auto from = [&](const V& t, int at, int n) { bool k2 = t.size() == n; for (int i = 0; k2 && i < n; i++) k2 = t(i) == at + i + 1; return k2; }; int z0 = L.n + L.p;
    ok = ok && from(x.x(), 0, L.n) && from(x.y(), L.n, L.p) && from(x.z(), z0, m) && from(x.yz(), L.n, L.p + m) && from(x.zLpc(), z0, L.l) && from(x.zSoc(), z0 + L.l, soc) && from(X.x(), 0, L.n) && from(X.y(), L.n, L.p) && from(X.z(), z0, m + 2 * ns) && from(X.zLpc(), z0, L.l) && from(X.zSoc(), z0 + L.l, soc + 2 * ns);
    ok = ok && from(o.x(), 0, L.n) && from(o.y(), L.n, L.p) && from(o.z(), z0, m) && from(o.s(), z0 + m + 2, m) && from(o.yz(), L.n, L.p + m) && from(o.yztau(), L.n, L.p + m + 1) && o.tau() == z0 + m + 1 && o.kappa() == z0 + m + 2 && from(o.xyz(), 0, z0 + m) && from(o.xyztau(), 0, z0 + m + 1) && from(o.zLpc(), z0, L.l) && from(o.zSoc(), z0 + L.l, soc);
    k = L.l; for (int i = 0; i < ns; i++) { ok = ok && from(x.zSoc(i), z0 + k, L.q[i]) && from(X.zSoc(i), z0 + k + 2 * i, L.q[i] + 2) && from(o.zSoc(i), z0 + k, L.q[i]) && eq("vector:view", w, a.zSoc(i), s.segment(k, L.q[i])); k += L.q[i]; }
    if (!ok) vp::fail("vector:views", w + ": parts of the vectors are not where they belong");
    X.zRtoE(u); V full(m + 2 * ns); int j = 0; k = 0; for (; k < L.l; k++) full(j++) = u(k); for (int q : L.q) { for (int i = 0; i < q; i++) full(j++) = u(k++); full(j++) = 0; full(j++) = 0; } eq("vector:extended", w + ": " + cn::str(u) + " in the extended order", X.z(), full);
    // permuted solutions come back in order
    int N = c.extSizeProb(); Eigen::PermutationMatrix<Eigen::Dynamic, Eigen::Dynamic> P(N); for (int i = 0; i < N; i++) P.indices()(i) = seed % 2 ? N - 1 - i : (i + seed) % N; V F(N); F << any(L.n + L.p, seed + 2), full; for (int i = 0, kk = L.n + L.p + L.l; i < ns; i++) { kk += L.q[i]; F(kk++) = 11; F(kk++) = 12; }
    V PF(N); for (int i = 0; i < N; i++) PF(P.indices()(i)) = F(i); V dz(m + 2 * ns); for (int two = 0; two < 2; two++) { o.setConstant(3); if (two) c.unpermuteSolution(P, PF, o, dz); else c.unpermuteSolution(P, PF, o); V want(L.n + L.p + m); want << any(L.n + L.p, seed + 2), u; eq("vector:unpermuted", w, o.xyz(), want); if (two) eq("vector:unpermuted", w, dz, F.tail(m + 2 * ns)); } }
  // Nesterov-Todd scalings: W z = W^-1 s
  V lam(m); lam.setConstant(4); ConeStatus st = c.updateNTScalings(s, z, lam); if (st != ConeStatus::Inside) { vp::fail("scaling:status", w + ": " + cn::str(s) + ", " + cn::str(z) + " are inside, said to be outside"); return; }
  M W = scaling(c, m); if (m) { eq("scaling:dual", w + ": W z", lam, W * z, 1e-8); eq("scaling:primal", w + ": W W z", W * lam, s, 1e-7); if (!((W - W.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * W.cwiseAbs().maxCoeff())) vp::fail("scaling:symmetric", w + ": " + mt(W));
    V q = c.W() * u; eq("scaling:operator", w, q, W * u, 1e-9);
    int X = m + 2 * ns; M T(X, X); for (int j = 0; j < X; j++) { V i = V::Zero(X), o = V::Constant(X, 2); i(j) = 1; c.conicNTScaling2(i, o); T.col(j) = o - V::Constant(X, 2); }
    std::vector<int> in, au; int j = 0; for (; j < L.l; j++) in.push_back(j); for (int q2 : L.q) { for (int i = 0; i < q2; i++) in.push_back(j++); au.push_back(j++); au.push_back(j++); }
    M A11(m, m), A12(m, au.size()), A22(au.size(), au.size()); for (int a1 = 0; a1 < m; a1++) { for (int b1 = 0; b1 < m; b1++) A11(a1, b1) = T(in[a1], in[b1]); for (size_t b1 = 0; b1 < au.size(); b1++) A12(a1, b1) = T(in[a1], au[b1]); } for (size_t a1 = 0; a1 < au.size(); a1++) for (size_t b1 = 0; b1 < au.size(); b1++) A22(a1, b1) = T(au[a1], au[b1]);
    M Sc = A11; if (au.size()) Sc -= A12 * A22.fullPivLu().solve(A12.transpose()); if (!((Sc - W * W).cwiseAbs().maxCoeff() <= 1e-7 * (W * W).cwiseAbs().maxCoeff())) vp::fail("scaling:square", w + ": " + mt(Sc) + ", expected " + mt(W * W)); if (!((T - T.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * T.cwiseAbs().maxCoeff())) vp::fail("scaling:square", w + ": not symmetric"); }
  for (int i = 0; i < ns; i++) for (int d = 0; d < 2; d++) { V bs = s, bz = z; V& x = d ? bz : bs; int at = c.startSoc(i); x(at) = x.segment(at + 1, L.q[i] - 1).norm() * 0.9; if (L.q[i] > 1 && c.updateNTScalings(bs, bz, lam) != ConeStatus::Outside) vp::fail("scaling:outside", w + ": " + cn::str(bs) + ", " + cn::str(bz) + " are outside, said to be inside"); }
  vp::nontrivial(m > 0); vp::sample([&] { return w; }); delete C;
}

// ---- KKT systems and equilibration
static void fill(const Lay& L, int seed, SolverStorage& t, M& A, M& G) {
  A = M::Zero(L.p, L.n); G = M::Zero(L.m(), L.n); for (int i = 0; i < L.p; i++) for (int j = 0; j < L.n; j++) if ((i + j + seed) % 3) A(i, j) = num(seed + 5 * i + 3 * j); for (int i = 0; i < L.m(); i++) for (int j = 0; j < L.n; j++) if ((i * 2 + j + seed) % 3 || i % L.n == j) G(i, j) = num(2 * seed + 3 * i + 7 * j + i * j);
  t.cleanCoeffs(); for (int i = 0; i < L.p; i++) for (int j = 0; j < L.n; j++) if (A(i, j)) t.addCoeff({i, j, A(i, j)}, true); for (int i = 0; i < L.m(); i++) for (int j = 0; j < L.n; j++) if (G(i, j)) { t.addCoeff({i, j, 0.25 * G(i, j)}); t.addCoeff({i, j, 0.75 * G(i, j)}); }
  t.initializeMatrices(); t.cbh() = any(L.n + L.p + L.m(), seed + 3);
}
static void kkt(const Lay& L, int seed) {
  Cone* C = cone(L); Cone& c = *C; int m = L.m(), N = c.extSizeProb(), ns = L.q.size(); SolverStorage* t = new SolverStorage; t->initialize(c, stg); M A, G; fill(L, seed, *t, A, G); std::string w = L.str() + ", seed " + std::to_string(seed);
  if (!((M(t->Amatrix()) - A).cwiseAbs().sum() <= 1e-12) || !((M(t->Gmatrix()) - G).cwiseAbs().sum() <= 1e-12)) { vp::fail("kkt:storage", w + ": matrices are not those written"); return; }
  M AG(L.p + m, L.n); AG << A, G; if (Eigen::FullPivLU<M>(AG).rank() < L.n || (L.p && Eigen::FullPivLU<M>(A).rank() < L.p)) return;
  t->Atmatrix() = t->Amatrix().transpose(); t->Gtmatrix() = t->Gmatrix().transpose(); LinSolver* l = new LinSolver; l->initialize(c, stg, *t);
  for (int phase = 0; phase < 3; phase++) {                                      // unit scaling first, then two updates
    M W2 = M::Identity(m, m); if (phase == 0) l->initializeMatrix(); else { V s = inside(L, seed + phase, phase == 1 ? 1 : 0.3), z = inside(L, seed * 2 + phase, 0.7), lam(m); c.updateNTScalings(s, z, lam); M W = scaling(c, m); W2 = W * W; l->updateMatrix(); }
    if (l->numericFactorization() != FactStatus::Optimal) { vp::fail("kkt:status", w + ": not factorized"); return; }
    int n = L.n, p = L.p, T = n + p + m; M K = M::Zero(T, T); K.block(n, 0, p, n) = A; K.block(n + p, 0, m, n) = G; K.block(0, n, n, p) = A.transpose(); K.block(0, n + p, n, m) = G.transpose(); K.block(n + p, n + p, m, m) = -W2;
    Eigen::JacobiSVD<M> sv(K); if (sv.singularValues()(T - 1) < 1e-3 || sv.singularValues()(0) > 1e4) continue;                // the regularization would show
    for (int r = 0; r < 2; r++) { V b = any(T, seed + 3 * r + phase), ext = V::Zero(N), pb(N); ext.head(n + p + L.l) = b.head(n + p + L.l); int k = L.l, e = n + p + L.l; for (int q : L.q) { for (int i = 0; i < q; i++) ext(e++) = b(n + p + k++); e += 2; } for (int i = 0; i < N; i++) pb(l->invPerm(i)) = ext(i);
      for (int i = 0; i < N; i++) if (l->perm(l->invPerm(i)) != i) { vp::fail("kkt:permutation", w + ": not inverse to each other"); return; }
      OptimizationVector d; d.initialize(c); d.setConstant(6); int ref = l->solve(pb, d, phase == 0); V x = d.xyz(); double tol = 2e-4; V want = K.fullPivLu().solve(b);
      if (ref < 0 || ref > stg.get(SolverIntParam_NumIterRefinementsLinSolve)) vp::fail("kkt:refinements", w + ": " + std::to_string(ref) + " refinements");
      if (!((x - want).cwiseAbs().maxCoeff() <= tol * (1 + want.cwiseAbs().maxCoeff()))) { vp::fail("kkt:solution", w + (phase ? " scaled: " : " unscaled: ") + cn::str(x) + ", expected " + cn::str(want)); return; }
      vp::count("systems"); } }
  // products with sparse matrices
  V y = any(L.p + m, seed + 1), x = any(L.n, seed), g(L.n); g.setConstant(2); l->matrixTransposeTimesVector(t->Gmatrix(), y.head(m), g, true, true); eq("kkt:product", w + ": G'y", g, G.transpose() * y.head(m)); V h = g; l->matrixTransposeTimesVector(t->Gmatrix(), y.head(m), g, false, false); eq("kkt:product", w + ": G'y - G'y", g, V::Zero(L.n)); g = h; l->matrixTransposeTimesVector(t->Amatrix(), y.head(L.p), g, true, false); eq("kkt:product", w + ": G'y + A'y", g, h + A.transpose() * y.head(L.p)); l->matrixTransposeTimesVector(t->Amatrix(), y.head(L.p), g, false, true); eq("kkt:product", w + ": -A'y", g, -A.transpose() * y.head(L.p));
  vp::nontrivial(ns > 0); vp::sample([&] { return w; }); delete l; delete t; delete C;
}
static void equil(const Lay& L, int seed, int iters) {
  Cone* C = cone(L); Cone& c = *C; SolverSetting s2 = stg; s2.set(SolverIntParam_EquilibrationIters, iters); SolverStorage* t = new SolverStorage; t->initialize(c, s2); M A, G; fill(L, seed, *t, A, G); for (int i = 0; i < L.m(); i++) G.row(i) *= std::pow(10., (i + seed) % 5 - 2); for (int k = 0; k < t->Gmatrix().outerSize(); k++) for (S::InnerIterator it(t->Gmatrix(), k); it; ++it) it.valueRef() = G(it.row(), it.col());
  V cbh = t->cbh(); std::string w = L.str() + ", seed " + std::to_string(seed) + ", " + std::to_string(iters) + " iterations"; EqRoutine q; q.setEquilibration(c, s2, *t); V e = q.equilVec(); int n = L.n, p = L.p, m = L.m();
  if (e.size() != n + p + m || !(e.minCoeff() > 0) || !e.allFinite()) { vp::fail("equil:vector", w + ": " + cn::str(e)); return; }
  int k = n + p + L.l; for (int z : L.q) { for (int i = 1; i < z; i++) if (e(k + i) != e(k)) vp::fail("equil:cone", w + ": rows of one cone are scaled differently: " + cn::str(e)); k += z; }
  auto mats = [&](const char* key, const M& wa, const M& wg, const V& wc) { M ga = t->Amatrix(), gg = t->Gmatrix(); V gc = t->cbh(); auto rel = [](const M& x, const M& y) { return x.size() == 0 || ((x - y).array().abs() <= 1e-9 * (1e-12 + y.array().abs())).all(); }; if (!rel(ga, wa) || !rel(gg, wg) || !rel(gc, wc)) vp::fail(key, w + ": A = " + mt(ga) + ", G = " + mt(gg) + ", vectors " + cn::str(gc) + ", expected " + mt(wa) + ", " + mt(wg) + ", " + cn::str(wc)); };
  M sa = A, sg = G; for (int j = 0; j < n; j++) { for (int i = 0; i < p; i++) sa(i, j) /= e(j) * e(n + i); for (int i = 0; i < m; i++) sg(i, j) /= e(j) * e(n + p + i); } mats("equil:scaled", sa, sg, (cbh.array() / e.array()).matrix());
  if (iters == 0 && !((e.array() - 1).abs().maxCoeff() == 0)) vp::fail("equil:none", w + ": scaled by " + cn::str(e));
  OptimizationVector o; o.initialize(c); V x = any(o.size(), seed).cwiseAbs() + V::Constant(o.size(), 1); for (int i = 0; i < o.size(); i++) o(i) = x(i); double tau = x(n + p + m); q.scaleVariables(o); V want = x; want.head(n + p + m) = (x.head(n + p + m).array() / e.array() / tau).matrix(); want.tail(m) = (x.tail(m).array() * e.tail(m).array() / tau).matrix(); eq("equil:variables", w, o, want);
  q.unsetEquilibration(*t); mats("equil:restored", A, G, cbh);
  vp::nontrivial(m > 0); vp::sample([&] { return w; }); delete t; delete C;
}

int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet qq; cn::settings(stg);
  SolverSetting keep = stg; stg.set(SolverDoubleParam_DynamicRegularization, 0.05); stg.set(SolverDoubleParam_DynamicRegularizationThresh, 0.01);      // so that a replaced pivot is no source of rounding errors
  // all patterns of up to four rows (five in the long run), all signs
  for (int n = 1; n <= (th ? 5 : 4); n++) { int nd = n * (n - 1) / 2; for (int bits = 0; bits < (1 << nd); bits++) for (int sg = 0; sg < (1 << n); sg++) {
    if (!vp::next("factor")) continue;
    std::vector<std::vector<bool>> pat(n, std::vector<bool>(n, false)); int k = 0; for (int j = 0; j < n; j++) { pat[j][j] = true; for (int i = 0; i < j; i++) pat[i][j] = bits >> k++ & 1; } V sign(n); for (int i = 0; i < n; i++) sign(i) = sg >> i & 1 ? 1 : -1;
    linalg::SparseCholesky c; bool first = true; std::string w = "pattern " + std::to_string(bits) + ", signs " + cn::str(sign);
    for (int var = 0; var < 5; var++) {                                                 // quasi-definite twice, one with stored zeros, one with pivots that have to be replaced, quasi-definite again
      M K = M::Zero(n, n); for (int j = 0; j < n; j++) { K(j, j) = sign(j) * (3.5 + (j * 2 + var) % 3 + (var == 4) * .5); for (int i = 0; i < j; i++) if (pat[i][j]) { double x = num(i * 3 + j * 2 + var + bits) / (sign(i) == sign(j) ? 4 : 1); if (var == 2 && (i + j) % 2) x = 0; K(i, j) = K(j, i) = x; } }
      if (var == 3) { K(n / 2, n / 2) = bits % 2 ? 0 : -K(n / 2, n / 2); }
      if (first) { S s = upper(K, pat); c.analyzePattern(s, stg); first = false; }
      factor(c, K, pat, sign, w + ", values " + std::to_string(var), var != 3);
    }
    // a new pattern for the same object
    for (int j = 0; j < n; j++) for (int i = 0; i < j; i++) pat[i][j] = !pat[i][j]; M K = M::Zero(n, n); for (int j = 0; j < n; j++) { K(j, j) = 4 * sign(j); for (int i = 0; i < j; i++) if (pat[i][j]) K(i, j) = K(j, i) = num(i + j) / (sign(i) == sign(j) ? 4 : 1); } c.analyzePattern(upper(K, pat), stg); factor(c, K, pat, sign, w + ", then the pattern reversed", true);
    // diagonals that are not stored: pivots of zero, unless filled in
    for (int d = 0; d < n; d++) { V b; for (int j = 0; j < n; j++) for (int i = 0; i < j; i++) K(i, j) = K(j, i) = pat[i][j] ? num(i + 2 * j + d) : 0; K(d, d) = 0; pat[d][d] = false; linalg::SparseCholesky e; linalg::SparseCholesky& x = d % 2 ? e : c; S u = upper(K, pat); x.analyzePattern(u, stg); factor(x, K, pat, sign, w + ", diagonal " + std::to_string(d) + " not stored", false); pat[d][d] = true; K(d, d) = 4 * sign(d); }
    vp::nontrivial(bits); vp::sample([&] { return w; });
  } }
  stg = keep;
  std::vector<std::vector<int>> Q = {{}, {2}, {3}, {4}, {2, 3}, {3, 2}, {3, 3}, {2, 2, 4}, {4, 3, 2}, {5}, {2, 3, 2, 3}, {3, 2, 4, 2, 2}}; int SD = th ? 60 : 12;
  for (int n = 1; n <= 3; n++) for (int p = 0; p <= 2; p++) for (int l = 0; l <= 3; l++) for (auto& q : Q) { Lay L{n, p, l, q}; if (!L.m() && !p) continue;
    if (p == 0 || n == 2) for (int s = 0; s < SD; s++) if (vp::next("cones")) cones(L, s);
    if (p < n) for (int s = 0; s < SD; s++) if (vp::next("kkt")) kkt(L, s);
    for (int s = 0; s < SD; s += 2) for (int it : {0, 1, 3}) if (vp::next("equilibration")) equil(L, s, it); }
  return vp::finish();
}
