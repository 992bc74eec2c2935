// Fixed-capacity matrices: all histories of operations up to a depth against plain lists of rows,
// and the nullspace / pseudo-inverse helpers on all small integer matrices.
#include <vp.hpp>
#include <solver/rt_optimizer/RtMatrix.hpp>
using namespace rt_solver;
static long allocations = 0;
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) { allocations++; return __libc_malloc(n); }

typedef std::vector<double> Row; typedef std::vector<Row> Rows;
enum { R = 5, C = 3 };
typedef RtMatrix<R, C>::d Mat; typedef RtVector<R>::d Vec;
typedef RtMatrix<C, C>::d Quad; typedef RtVector<C>::d Lin;

// the reference: an affine map (rows, offsets) on a number of columns, and a quadratic form on C variables
struct Ref { Rows m; Row v; int cols; Rows q; Row l; };
struct Real { Mat m; Vec v; Quad q; Lin l; };

static double num(int i) { static const double T[] = {1, -2, 0.5, 3, -1, 0.25, 2, -4}; return T[(i % 8 + 8) % 8]; }
static Rows block(int kind, int rows, int cols) { Rows b(rows, Row(cols)); for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) b[i][j] = kind < 0 ? 0 : num(kind * 3 + i * 5 + j * 2 + (kind * i)); return b; }
static Eigen::MatrixXd eig(const Rows& b, int cols) { Eigen::MatrixXd m(b.size(), cols); for (size_t i = 0; i < b.size(); i++) for (int j = 0; j < cols; j++) m(i, j) = b[i][j]; return m; }
static Eigen::VectorXd eigv(const Row& b) { Eigen::VectorXd m(b.size()); for (size_t i = 0; i < b.size(); i++) m(i) = b[i]; return m; }
static std::string str(const Rows& b) { std::ostringstream o; o << "["; for (auto& r : b) { for (double x : r) o << x << " "; o << "; "; } o << "]"; return o.str(); }
static std::string strv(const Row& r) { std::ostringstream o; for (double x : r) o << x << " "; return o.str(); }
template <class M> static std::string se(const M& m) { std::ostringstream o; o << m.rows() << "x" << m.cols() << " [" << m.format(Eigen::IOFormat(Eigen::StreamPrecision, Eigen::DontAlignCols, " ", "; ")) << "]"; return o.str(); }

static const char* NAMES[] = {"append", "append2", "appendzero", "appendempty", "affappend", "affappendv", "atcolumn0", "atcolumn1", "affatcolumn", "affatcolumnv", "shrink", "grow", "setzero", "setzerofull",
  "setones", "setconstant", "setidentity", "prune", "prunethresh", "pruneaff", "pruneaffdefault", "substitute", "substituteaff", "vecappend", "vecset",
  "quadnorm", "quadnormv", "quadweighted", "quadweightedv", "quadsubst", "quadsubstv", "empty"};
enum { NOPS = sizeof(NAMES) / sizeof(*NAMES) };

static double nrm2(const Row& r) { double s = 0; for (double x : r) s += x * x; return s; }
// applies operation `op` to both; false if it is not allowed in this state
static bool apply(int op, int kind, Real& x, Ref& r) {
  std::string o = NAMES[op]; int n = r.m.size(); Real y;
  auto fits = [&](int k) { return n + k <= R && int(r.v.size()) == n; };
  if (o == "append" || o == "append2" || o == "appendzero" || o == "appendempty" || o == "affappend" || o == "affappendv") {
    int k = o == "append2" ? 2 : o == "appendempty" ? 0 : 1; if (!fits(k) || (o == "appendempty" && n == 0)) return false;
    Rows b = block(o == "appendzero" ? -1 : kind, k, r.cols); Eigen::MatrixXd S = eig(b, r.cols); Row z(k, 0.); if (o == "affappendv") for (int i = 0; i < k; i++) z[i] = num(kind + 7 + i);
    if (o == "affappend") RtAffineUtils::append(x.m, x.v, S);
    else if (o == "affappendv" || o == "appendzero") RtAffineUtils::append(x.m, x.v, S, eigv(z));
    else { RtMatrixUtils::append(x.m, S); RtVectorUtils::append(x.v, eigv(z)); }
    for (auto& q : b) r.m.push_back(q); for (double q : z) r.v.push_back(q);
  } else if (o == "atcolumn0" || o == "atcolumn1" || o == "affatcolumn" || o == "affatcolumnv") {
    int at = o == "atcolumn0" ? 0 : 1, w = o == "atcolumn1" ? 1 : 2, k = o == "affatcolumnv" ? 2 : 1; if (!fits(k) || at + w > r.cols) return false;
    Rows b = block(kind, k, w); Eigen::MatrixXd S = eig(b, w); Row z(k, 0.); if (o == "affatcolumnv") for (int i = 0; i < k; i++) z[i] = num(kind + 5 + i);
    if (o == "affatcolumn") RtAffineUtils::appendAtColumn(x.m, x.v, S, at);
    else if (o == "affatcolumnv") RtAffineUtils::appendAtColumn(x.m, x.v, S, eigv(z), at);
    else { RtMatrixUtils::appendAtColumn(x.m, S, at); RtVectorUtils::append(x.v, eigv(z)); }
    for (auto& q : b) { Row f(r.cols, 0.); for (int j = 0; j < w; j++) f[at + j] = q[j]; r.m.push_back(f); } for (double q : z) r.v.push_back(q);
  } else if (o == "shrink") {
    if (n < 1 || int(r.v.size()) != n) return false; int c = r.cols > 2 ? r.cols - 1 : r.cols;
    RtMatrixUtils::conservativeResize(x.m, n - 1, c); RtVectorUtils::conservativeResize(x.v, n - 1);
    r.m.pop_back(); r.v.pop_back(); r.cols = c; for (auto& q : r.m) q.resize(c);
  } else if (o == "grow") {
    if (n + 1 > R || int(r.v.size()) != n || r.cols == C) return false;
    RtMatrixUtils::conservativeResize(x.m, n + 1, r.cols + 1); RtVectorUtils::conservativeResize(x.v, n + 1); x.m.row(n).setConstant(2); x.m.col(r.cols).setConstant(-3); x.v(n) = 1;   // what is new is ours to fill
    for (auto& q : r.m) q.push_back(-3); Row f(r.cols, 2.); f.push_back(-3); r.m.push_back(f); r.v.push_back(1); r.cols++;
  } else if (o == "setzero") { int k = 1 + kind % 3; RtMatrixUtils::setZero(x.m, k, 2); RtVectorUtils::setZero(x.v, k); r.cols = 2; r.m.assign(k, Row(2, 0.)); r.v.assign(k, 0.);
  } else if (o == "setzerofull") { RtMatrixUtils::setZero(x.m); RtVectorUtils::setZero(x.v); r.cols = C; r.m.assign(R, Row(C, 0.)); r.v.assign(R, 0.);
  } else if (o == "setones") { int k = 1 + kind % 3; if (kind % 2) { RtMatrixUtils::setOnes(x.m, k, C); RtVectorUtils::setOnes(x.v, k); } else { k = R; RtMatrixUtils::setOnes(x.m); RtVectorUtils::setOnes(x.v); } r.cols = C; r.m.assign(k, Row(C, 1.)); r.v.assign(k, 1.);
  } else if (o == "setconstant") { int k = 1 + kind % 4; if (kind % 2) { RtMatrixUtils::setConstant(x.m, k, C, -1.5); RtVectorUtils::setConstant(x.v, k, 2.5); } else { k = R; RtMatrixUtils::setConstant(x.m, -1.5); RtVectorUtils::setConstant(x.v, 2.5); } r.cols = C; r.m.assign(k, Row(C, -1.5)); r.v.assign(k, 2.5);
  } else if (o == "setidentity") {
    int k = 2 + kind % 2; RtMatrixUtils::setIdentity(x.m, k); RtVectorUtils::setZero(x.v, k); r.cols = k; r.m.assign(k, Row(k, 0.)); for (int i = 0; i < k; i++) r.m[i][i] = 1; r.v.assign(k, 0.);
    RtMatrixUtils::setIdentity(x.q); r.q.assign(C, Row(C, 0.)); for (int i = 0; i < C; i++) r.q[i][i] = 1; RtVectorUtils::setZero(x.l); r.l.assign(C, 0.);
  } else if (o == "prune") { if (int(r.v.size()) != n) return false;
    RtAffineUtils::removeZeroRows(x.m, x.v); Rows m; Row v; for (int i = 0; i < n; i++) if (nrm2(r.m[i]) > 0) { m.push_back(r.m[i]); v.push_back(r.v[i]); } r.m = m; r.v = v;
  } else if (o == "prunethresh") {                                                                                                                    // of the matrix alone; offsets follow by hand
    if (int(r.v.size()) != n) return false; RtMatrixUtils::removeZeroRows<R, C>(x.m, 0.1); Rows m; for (int i = 0; i < n; i++) if (nrm2(r.m[i]) > 0.0625 * 0.5) m.push_back(r.m[i]);
    r.m = m; r.v.assign(m.size(), 0.); RtVectorUtils::setZero(x.v, m.size());
  } else if (o == "pruneaff" || o == "pruneaffdefault") { if (int(r.v.size()) != n) return false;
    if (o == "pruneaff") RtAffineUtils::removeZeroRows<R, C>(x.m, x.v, 0.1); else RtAffineUtils::removeZeroRows<R, C>(x.m, x.v);
    Rows m; Row v; for (int i = 0; i < n; i++) if (nrm2(r.m[i]) > 0.0625 * 0.5) { m.push_back(r.m[i]); v.push_back(r.v[i]); } r.m = m; r.v = v;
  } else if (o == "substitute" || o == "substituteaff") {
    if (int(r.v.size()) != n) return false; int w = 2 + kind % 2; Rows s = block(kind, r.cols, w); Eigen::MatrixXd S = eig(s, w); Row t; for (int i = 0; i < r.cols; i++) t.push_back(num(kind + i));
    Rows m(n, Row(w, 0.)); Row v = r.v; for (int i = 0; i < n; i++) { for (int j = 0; j < w; j++) for (int k = 0; k < r.cols; k++) m[i][j] += r.m[i][k] * s[k][j]; if (o == "substituteaff") for (int k = 0; k < r.cols; k++) v[i] += r.m[i][k] * t[k]; }
    if (o == "substitute") RtAffineUtils::substitute(x.m, S); else RtAffineUtils::substitute(x.m, x.v, S, eigv(t)); r.m = m; r.v = v; r.cols = w;
  } else if (o == "vecappend") { if (int(r.v.size()) + 2 > R) return false; Row z = {num(kind), num(kind + 1)}; RtVectorUtils::append(x.v, eigv(z)); for (double q : z) r.v.push_back(q);
  } else if (o == "vecset") { RtVectorUtils::resize(x.v, n); for (int i = 0; i < n; i++) x.v(i) = num(kind + i); r.v.resize(n); for (int i = 0; i < n; i++) r.v[i] = num(kind + i);
  } else if (o.compare(0, 4, "quad") == 0) {
    bool subst = o.compare(0, 9, "quadsubst") == 0, vec = o.back() == 'v', wgt = o.compare(0, 12, "quadweighted") == 0; int nq = r.q.size();
    if (!subst) {
      if (r.cols != nq || (vec && int(r.v.size()) != n)) return false; Rows w(n, Row(n, 0.)); for (int i = 0; i < n; i++) { w[i][i] = 1 + (wgt ? (kind + i) % 3 : 0); if (wgt && i) { w[i][i - 1] = w[i - 1][i] = 0.5; } }
      for (int a = 0; a < nq; a++) for (int b = 0; b < nq; b++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.q[a][b] += r.m[i][a] * w[i][j] * r.m[j][b];
      if (vec) for (int a = 0; a < nq; a++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.l[a] += r.m[i][a] * w[i][j] * r.v[j];
      Eigen::MatrixXd W = eig(w, n);
      if (wgt) { if (vec) RtQuadraticUtils::addFromWeightedNorm(x.q, x.l, x.m, x.v, W); else RtQuadraticUtils::addFromWeightedNorm(x.q, x.m, W); }
      else { if (vec) RtQuadraticUtils::addFromNorm(x.q, x.l, x.m, x.v); else RtQuadraticUtils::addFromNorm(x.q, x.m); }
    } else {
      int w = 2 + kind % 2; Rows s = block(kind, nq, w); Row t; for (int i = 0; i < nq; i++) t.push_back(num(kind + 2 + i)); Eigen::MatrixXd S = eig(s, w);
      Rows q(w, Row(w, 0.)); Row l(w, 0.);
      for (int a = 0; a < w; a++) { for (int b = 0; b < w; b++) for (int i = 0; i < nq; i++) for (int j = 0; j < nq; j++) q[a][b] += s[i][a] * r.q[i][j] * s[j][b]; for (int i = 0; i < nq; i++) { double g = r.l[i]; if (vec) for (int j = 0; j < nq; j++) g += r.q[i][j] * t[j]; l[a] += s[i][a] * g; } }
      if (vec) RtQuadraticUtils::substitute(x.q, x.l, S, eigv(t)); else { RtQuadraticUtils::substitute(x.q, S); Lin g = S.transpose() * x.l; x.l = g; }
      r.q = q; r.l = l;
    }
  } else if (o == "empty") { RtMatrixUtils::resize(x.m, 0, C); RtVectorUtils::resize(x.v, 0); r.m.clear(); r.v.clear(); r.cols = C; }
  return true;
}
template <class M> static bool eqm(const M& a, const Rows& b, int cols) { if (a.rows() != int(b.size()) || a.cols() != cols) return false; for (size_t i = 0; i < b.size(); i++) for (int j = 0; j < cols; j++) if (!(std::fabs(a(i, j) - b[i][j]) <= 1e-9 * (1 + std::fabs(b[i][j])))) return false; return true; }
template <class V> static bool eqv(const V& a, const Row& b) { if (a.size() != int(b.size())) return false; for (size_t i = 0; i < b.size(); i++) if (!(std::fabs(a(i) - b[i]) <= 1e-9 * (1 + std::fabs(b[i])))) return false; return true; }

int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); int D = th ? 4 : 3; std::set<std::string> states;
  for (int s0 = 0; s0 < 3; s0++) vp::product(std::vector<int>(D, NOPS), [&](const std::vector<int>& ops) {
    if (!vp::next("history")) return;
    Real x; Ref r; r.cols = C; int k0 = s0 == 0 ? 0 : s0 == 1 ? 2 : 3;
    // start with rows in place; the storage behind them is not clean
    x.m.resize(R, C); x.m.setConstant(7.25); x.v.resize(R); x.v.setConstant(-7.25); r.m = block(s0 * 2, k0, C); r.v.assign(k0, 0.); for (int i = 0; i < k0; i++) r.v[i] = num(i + s0); if (k0 == 3) r.m[1] = Row(C, 0.);
    x.m.conservativeResize(k0, C); if (k0) x.m = eig(r.m, C); x.v.conservativeResize(k0); for (int i = 0; i < k0; i++) x.v(i) = r.v[i];
    r.q = {{2, 1, 0}, {1, 3, -1}, {0, -1, 1}}; r.l = {1, -1, 2}; x.q = eig(r.q, C); x.l = eigv(r.l);
    std::string h; int done = 0;
    for (int i = 0; i < D; i++) {
      int kind = (ops[i] + 3 * i + s0) % 5; if (!apply(ops[i], kind, x, r)) continue; done++; h += std::string(h.empty() ? "" : ", ") + NAMES[ops[i]] + "/" + std::to_string(kind); vp::count("transitions");
      std::string st = str(r.m) + "|" + strv(r.v) + "|" + std::to_string(r.cols) + "|" + str(r.q) + strv(r.l); if (states.insert(st).second) vp::count("states");
      std::string w = "after " + h + " (from " + std::to_string(k0) + " rows): ";
      if (!eqm(x.m, r.m, r.cols)) { vp::fail("rows:matrix", w + se(x.m) + ", expected " + str(r.m)); return; }
      if (!eqv(x.v, r.v)) { vp::fail("rows:vector", w + se(x.v.transpose()) + ", expected " + strv(r.v)); return; }
      if (!eqm(x.q, r.q, r.q.size()) || !eqv(x.l, r.l)) { vp::fail("quadratic:form", w + se(x.q) + " " + se(x.l.transpose()) + ", expected " + str(r.q) + strv(r.l)); return; }
    }
    vp::nontrivial(done == D); vp::sample([&] { return h; });
  });
  // selector matrices
  for (int n = 1; n <= R; n++) for (int bits = 0; bits < (1 << n); bits++) for (double thr : {0., 0.5, 2.}) {
    if (!vp::next("selector")) continue;
    RtVector<R>::d s(n); std::vector<int> pick; for (int i = 0; i < n; i++) { s(i) = bits >> i & 1 ? thr + 0.25 * (i + 1) : thr - 0.25 * i; if (s(i) > thr) pick.push_back(i); }
    RtMatrix<R, R>::d m; RtMatrixUtils::createSelectorMat<R, R>(m, s, pick.size(), thr); bool ok = m.rows() == int(pick.size()) && m.cols() == n;
    for (int i = 0; ok && i < m.rows(); i++) for (int j = 0; j < n; j++) ok = ok && m(i, j) == (pick[i] == j ? 1. : 0.);
    if (!ok) vp::fail("selector:matrix", "entries above " + std::to_string(thr) + " of " + se(s.transpose()) + ": " + se(m)); vp::nontrivial(pick.size());
  }
  // nullspaces, pseudo-inverses and condition numbers of all small integer matrices
  for (int rows = 1; rows <= 3; rows++) for (int cols = 1; cols <= 3; cols++) { int cells = rows * cols; const std::vector<int> V = cells <= 4 ? std::vector<int>{-2, -1, 0, 1, 3} : th ? std::vector<int>{-1, 0, 2} : cells <= 6 ? std::vector<int>{-1, 0, 2} : std::vector<int>{0, 1};
    vp::product(std::vector<int>(cells, V.size()), [&](const std::vector<int>& d) {
      if (!vp::next("nullspace")) return;
      typedef RtMatrix<3, 3>::d M3; M3 m(rows, cols); for (int i = 0; i < cells; i++) m(i / cols, i % cols) = V[d[i]];
      Eigen::JacobiSVD<M3> svd(m, Eigen::ComputeFullU | Eigen::ComputeFullV); Eigen::MatrixXd X = m; int rank = Eigen::FullPivLU<Eigen::MatrixXd>(X).setThreshold(1e-9).rank();
      M3 nul(1, 1); nul.setConstant(9); int dim = RtMatrixUtils::computeNullspaceMap(m, nul, svd); std::string w = "of " + se(m) + ": ";
      if (dim != rank || nul.rows() != cols || nul.cols() != cols - rank) vp::fail("nullspace:size", w + "rank " + std::to_string(dim) + " and map " + se(nul) + ", the rank is " + std::to_string(rank));
      else if (nul.cols()) { Eigen::MatrixXd K = nul; if (!((X * K).norm() < 1e-9) || !((K.transpose() * K - Eigen::MatrixXd::Identity(K.cols(), K.cols())).norm() < 1e-9)) vp::fail("nullspace:map", w + se(nul)); }
      // one singular value after another, until the condition allows no more
      int dimc = RtMatrixUtils::computeNullspaceMap(m, nul, svd, 1e12); if (dimc != rank) vp::fail("nullspace:condition", w + "rank " + std::to_string(dimc) + " at condition 1e12");
      RtVector<3>::d sp(std::min(rows, cols)); sp.setConstant(5); RtMatrixUtils::computeSigmaPinv(sp, svd);
      for (int i = 0; i < sp.size(); i++) { double e = i < rank ? 1. / svd.singularValues()[i] : 0.; if (!(std::fabs(sp(i) - e) <= 1e-9 * (1 + e))) { vp::fail("pinv:values", w + "inverse singular values " + se(sp.transpose()) + " of " + se(svd.singularValues().transpose())); break; } }
      if (rank == std::min(rows, cols)) {
        double c = Eigen::JacobiSVD<Eigen::MatrixXd>(X).singularValues().maxCoeff() / Eigen::JacobiSVD<Eigen::MatrixXd>(X).singularValues().minCoeff();
        for (double g : {RtMatrixUtils::conditionNumber(m), RtMatrixUtils::conditionNumberFromSvd(svd)}) if (!(std::fabs(g - c) <= 1e-7 * c)) vp::fail("condition:number", w + std::to_string(g) + ", expected " + std::to_string(c));
      }
      vp::nontrivial(rank > 0 && rank < cols); vp::sample([&] { return se(m); });
    });
  }
  // the rank depends on the ratio of singular values only
  for (int rows = 1; rows <= 3; rows++) for (int cols = 1; cols <= 3; cols++) { int k = std::min(rows, cols); vp::product(std::vector<int>(k, 5), [&](const std::vector<int>& d) { for (double scale : {1e-9, 1e-3, 1., 1e6}) for (double cond : {1e8, 3e2}) {
    if (!vp::next("scale")) continue;
    static const double T[] = {0, 1, 1e-1, 1e-4, 1e-6}; typedef RtMatrix<3, 3>::d M3; M3 m(rows, cols); m.setZero(); double top = 0; for (int i = 0; i < k; i++) { m(i, cols - 1 - i) = scale * T[d[i]]; top = std::max(top, T[d[i]]); } int rank = 0; for (int i = 0; i < k; i++) rank += T[d[i]] > 0 && top / T[d[i]] < cond;
    if (scale > 1 && cond < 1e8) continue;                                                    // what is given up would show in the assertion on the product
    Eigen::JacobiSVD<M3> svd(m, Eigen::ComputeFullU | Eigen::ComputeFullV); M3 nul(1, 1); if (cond < 1e8 && rank < k && scale * top > 1e-3 * 1.5) continue;
    int dim = RtMatrixUtils::computeNullspaceMap(m, nul, svd, cond); if (dim != rank || nul.cols() != cols - rank) vp::fail("nullspace:scale", "of " + se(m) + " up to condition " + std::to_string(cond) + ": rank " + std::to_string(dim) + ", expected " + std::to_string(rank));
    if (cond == 1e8) { RtVector<3>::d sp(k); sp.setConstant(5); RtMatrixUtils::computeSigmaPinv(sp, svd); int nz = 0; for (int i = 0; i < k; i++) nz += sp(i) != 0; if (nz != rank) vp::fail("pinv:scale", "of " + se(m) + ": inverse singular values " + se(sp.transpose()) + ", the rank is " + std::to_string(rank)); }
    vp::nontrivial(rank > 0 && rank < k);
  } }); }
  // no memory is allocated while working within the capacity
  for (int op = 0; op < 12; op++) {
    if (!vp::next("memory")) continue;
    Mat m; Vec v; Quad q; Lin l; RtMatrix<2, C>::d s(2, C); s.setConstant(1); s(0, 1) = -2; RtVector<2>::d t(2); t.setConstant(3); RtMatrix<C, C>::d S(C, C); S.setIdentity(); Lin o(C); o.setOnes(); RtMatrix<R, R>::d W; RtMatrixUtils::setIdentity(W, 2);
    RtMatrixUtils::resize(m, 0, C); RtVectorUtils::resize(v, 0); RtMatrixUtils::setZero(q, C, C); RtVectorUtils::setZero(l, C); long a = allocations;
    switch (op) {
      case 0: RtMatrixUtils::append(m, s); break; case 1: RtAffineUtils::append(m, v, s, t); break; case 2: RtAffineUtils::append(m, v, s); RtAffineUtils::append(m, v, s); break;
      case 3: RtAffineUtils::appendAtColumn(m, v, s.leftCols(2), 1); break; case 4: RtAffineUtils::append(m, v, s, t); RtAffineUtils::removeZeroRows(m, v); break;
      case 5: RtAffineUtils::append(m, v, s, t); RtAffineUtils::removeZeroRows<R, C>(m, v, 0.1); break; case 6: RtMatrixUtils::append(m, s); RtMatrixUtils::removeZeroRows<R, C>(m, 0.1); break;
      case 7: RtMatrixUtils::append(m, s); RtMatrixUtils::conservativeResize(m, 5, 3); RtMatrixUtils::resize(m, 1, 1); break; case 8: RtMatrixUtils::setZero(m); RtMatrixUtils::setOnes(m); RtMatrixUtils::setConstant(m, 2.); RtVectorUtils::setZero(v); break;
      case 9: RtAffineUtils::append(m, v, s, t); RtAffineUtils::substitute(m, v, S, o); break;
      case 10: RtAffineUtils::append(m, v, s, t); RtQuadraticUtils::addFromNorm(q, l, m, v); RtQuadraticUtils::substitute(q, l, S, o); break;
      case 11: RtAffineUtils::append(m, v, s, t); RtQuadraticUtils::addFromWeightedNorm(q, l, m, v, W); break;
    }
    if (allocations != a) vp::fail("memory:allocated", "operation " + std::to_string(op) + " allocates memory " + std::to_string(allocations - a) + " times"); vp::nontrivial();
  }
  return vp::finish();
}
