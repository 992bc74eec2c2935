// Linear and quadratic expressions: all expression programs over the overloaded operators,
// compared with coefficient vectors.
#include <vp.hpp>
#include <conic.hpp>
using namespace cn;
typedef Eigen::Matrix<double, 4, 1> P4;   // x0, x1, x2, constant
struct E { LinExpr l; P4 p; std::string s; };
static std::vector<Var> X;
static P4 poly(const LinExpr& l) { P4 p = P4::Zero(); for (size_t i = 0; i < l.size(); i++) p(l.getVar(i).get(SolverIntParam_ColNum)) += l.getCoeff(i); p(3) = l.getConstant(); return p; }
static bool same(const char* sec, const std::string& what, const LinExpr& l, const P4& p) {
  P4 g = poly(l); std::string S(sec);
  if (!((g - p).cwiseAbs().maxCoeff() <= 1e-12 * (1 + p.cwiseAbs().maxCoeff()))) { std::ostringstream o; o << what << " gives " << g.transpose() << " instead of " << p.transpose(); vp::fail(S + ":coefficients", o.str()); return false; }
  double v = p(3); for (int i = 0; i < 3; i++) v += p(i) * X[i].get(SolverDoubleParam_X);
  if (!(std::fabs(l.getValue() - v) <= 1e-12 * (1 + std::fabs(v)))) { std::ostringstream o; o << what << " has value " << l.getValue() << " instead of " << v; vp::fail(S + ":value", o.str()); return false; }
  for (size_t i = 0; i < l.size(); i++) for (size_t j = 0; j < i; j++) if (l.getVar(i).get(SolverIntParam_ColNum) == l.getVar(j).get(SolverIntParam_ColNum)) { vp::fail(S + ":duplicate", what + " lists a variable twice"); return false; }
  return true;
}
// all results of one operation on a (and b)
static void unary(const E& a, std::vector<E>& out) {
  auto add = [&](const LinExpr& l, const P4& p, const std::string& s) { out.push_back({l, p, s}); }; auto k = [](double c) { P4 p = P4::Zero(); p(3) = c; return p; }; std::string A = "(" + a.s + ")";
  LinExpr c = a.l;
  add(-a.l, -a.p, "-" + A); add(+a.l, a.p, "+" + A);
  for (double f : {2., -0.5, 0.}) { std::string F = std::to_string(f).substr(0, 4); add(a.l * f, a.p * f, A + "*" + F); add(f * a.l, a.p * f, F + "*" + A); c = a.l; c *= f; add(c, a.p * f, A + "*=" + F);
    if (f) { c = a.l; add(c / f, a.p / f, A + "/" + F); c = a.l; c /= f; add(c, a.p / f, A + "/=" + F); }
    c = a.l; add(c + f, a.p + k(f), A + "+" + F); c = a.l; add(c - f, a.p - k(f), A + "-" + F); add(f + a.l, a.p + k(f), F + "+" + A); add(f - a.l, k(f) - a.p, F + "-" + A);
    c = a.l; c += f; add(c, a.p + k(f), A + "+=" + F); c = a.l; c -= f; add(c, a.p - k(f), A + "-=" + F); }
  for (int i = 0; i < 3; i += 2) { P4 u = P4::Zero(); u(i) = 1; std::string V = "x" + std::to_string(i); c = a.l; add(c + X[i], a.p + u, A + "+" + V); c = a.l; add(c - X[i], a.p - u, A + "-" + V); add(X[i] - a.l, u - a.p, V + "-" + A); }
}
static void binary(const E& a, const E& b, std::vector<E>& out) {
  LinExpr c; auto add = [&](const LinExpr& l, const P4& p, const char* s) { out.push_back({l, p, "(" + a.s + ")" + s + "(" + b.s + ")"}); };
  add(a.l + b.l, a.p + b.p, "+"); add(a.l - b.l, a.p - b.p, "-"); c = a.l; c += b.l; add(c, a.p + b.p, "+="); c = a.l; c -= b.l; add(c, a.p - b.p, "-=");
}
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet q;
  ConicProblem m; settings(m.getSetting()); double val[3] = {0.5, -2, 3}; for (int i = 0; i < 3; i++) X.push_back(m.addVar(i == 1 ? VarType::Binary : VarType::Continuous, -10, 10, val[i]));
  auto P = [](double a, double b, double c, double d) { P4 p; p << a, b, c, d; return p; };
  std::vector<E> L0 = {{LinExpr(), P(0, 0, 0, 0), "0"}, {LinExpr(3), P(0, 0, 0, 3), "3"}, {LinExpr(X[0]), P(1, 0, 0, 0), "x0"}, {LinExpr(X[1], -2), P(0, -2, 0, 0), "-2x1"},
    {X[0] + X[1], P(1, 1, 0, 0), "x0+x1"}, {X[2] - X[0], P(-1, 0, 1, 0), "x2-x0"}, {X[1] * 3, P(0, 3, 0, 0), "x1*3"}, {0.5 * X[2], P(0, 0, 0.5, 0), "0.5*x2"}, {X[2] / 4, P(0, 0, 0.25, 0), "x2/4"},
    {1 + X[0], P(1, 0, 0, 1), "1+x0"}, {X[0] + 2, P(1, 0, 0, 2), "x0+2"}, {1 - X[1], P(0, -1, 0, 1), "1-x1"}, {X[2] - 5, P(0, 0, 1, -5), "x2-5"}, {+X[1], P(0, 1, 0, 0), "+x1"}, {-X[1], P(0, -1, 0, 0), "-x1"}, {X[0] + X[0], P(2, 0, 0, 0), "x0+x0"}, {X[0] - X[0], P(0, 0, 0, 0), "x0-x0"}, {LinExpr(-1.5), P(0, 0, 0, -1.5), "-1.5"}};
  std::vector<E> L1; for (auto& a : L0) { unary(a, L1); for (auto& b : L0) binary(a, b, L1); }
  for (auto* L : {&L0, &L1}) for (auto& e : *L) if (vp::next("depth_one")) { if (same("depth_one", e.s, e.l, e.p)) vp::nontrivial(e.l.size() > 1); vp::sample([&] { return e.s; }); }
  size_t n = L1.size();
  for (size_t i = 0; i < n; i++) if (vp::next("depth_two_unary")) { std::vector<E> o; unary(L1[i], o); bool ok = true; for (auto& e : o) { ok = ok && same("depth_two_unary", e.s, e.l, e.p); if (!ok) break; } if (ok && same("depth_two_unary", "operand " + L1[i].s, L1[i].l, L1[i].p)) vp::nontrivial(L1[i].l.size() > 1); }
  for (size_t i = 0; i < n; i++) if (vp::next("depth_two_binary")) { bool ok = true; for (size_t j = 0; j < n && ok; j += (th ? 1 : 3)) { std::vector<E> o; binary(L1[i], L1[j], o); for (auto& e : o) if (!(ok = same("depth_two_binary", e.s, e.l, e.p))) break; vp::tick(); } if (ok && same("depth_two_binary", "operand " + L1[i].s, L1[i].l, L1[i].p)) vp::nontrivial(L1[i].l.size() > 1); }
  // coefficients of very different size: none of them is lost
  { std::vector<E> S0; auto add = [&](const LinExpr& l, P4 p, const std::string& s) { S0.push_back({l, p, s}); };
    for (double t : {1e-11, 3e-9, 1e-7, 2e7, 1e10}) { std::string n = std::to_string(std::log10(t)).substr(0, 5); add(LinExpr(X[1], t), P(0, t, 0, 0), "10^" + n + "x1"); add(LinExpr(X[0]) + LinExpr(X[1], t), P(1, t, 0, 0), "x0+10^" + n + "x1"); add(LinExpr(X[0], t) - LinExpr(X[2]), P(t, 0, -1, 0), "10^" + n + "x0-x2"); add(LinExpr(X[2], -t) + t, P(0, 0, -t, t), "10^" + n + "(1-x2)"); add(LinExpr(X[0], t) + LinExpr(X[1]) + 1.0, P(t, 1, 0, 1), "10^" + n + "x0+x1+1"); }
    auto exact = [&](const E& e) { P4 g = poly(e.l); for (int i = 0; i < 4; i++) if (!(std::fabs(g(i) - e.p(i)) <= 1e-12 * std::fabs(e.p(i)))) { std::ostringstream o; o << e.s << " gives " << g.transpose() << " instead of " << e.p.transpose(); vp::fail("magnitudes:coefficients", o.str()); return false; } return true; };
    for (auto& a : S0) if (vp::next("magnitudes")) { std::vector<E> o; o.push_back(a); unary(a, o); bool ok = true; for (auto& b : S0) binary(a, b, o); size_t m = o.size(); for (size_t i = 0; i < m && i < 60; i++) { E e = o[i]; unary(e, o); } for (auto& e : o) if (!(ok = exact(e))) break; if (ok) vp::nontrivial(); vp::sample([&] { return a.s; }); } }
  // chains of in-place updates on one expression
  for (long c = 0; c < 8L * 8 * 8 * 8 * 8; c++) { if (!th && c % 3) continue; if (!vp::next("in_place")) continue;
    LinExpr l; P4 p = P4::Zero(); std::string s = "0"; long w = c; for (int d = 0; d < 5; d++, w /= 8) { const E& e = L0[2 + (w + d) % 13];
      switch (w % 8) { case 0: l += e.l; p += e.p; s += " += " + e.s; break; case 1: l -= e.l; p -= e.p; s += " -= " + e.s; break; case 2: l *= -2; p *= -2; s += " *= -2"; break; case 3: l /= 4; p /= 4; s += " /= 4"; break;
        case 4: l = l * 0.0 + e.l; p = e.p; s += " *0 + " + e.s; break; case 5: l += 1.5; p(3) += 1.5; s += " += 1.5"; break; case 6: l = e.l - l; p = e.p - p; s = e.s + " - (" + s + ")"; break; case 7: l += l; p += p; s += " += itself"; break; } }
    if (same("in_place", s, l, p)) vp::nontrivial(l.size() > 1); }
  // quadratic expressions: value of the quadratic part, accumulation of the linear part, clearing
  for (size_t i = 0; i < L0.size(); i++) for (size_t j = 0; j < L0.size(); j++) for (double c : {0., 1., -2., 0.5}) if (vp::next("quadratic")) {
      DCPQuadExpr d; d.addQuaTerm(c, L0[i].l); d.addQuaTerm(3, L0[j].l); d.addLinTerm(L0[j].l); d.addLinTerm(L0[i].l);
      double vi = L0[i].l.getValue(), vj = L0[j].l.getValue(), v = c * vi * vi + 3 * vj * vj;
      if (!(std::fabs(d.getValue() - v) <= 1e-12 * (1 + std::fabs(v)))) { vp::fail("quadratic:value", L0[i].s + ", " + L0[j].s); continue; }
      if (d.coeffs().size() != d.qexpr().size() || d.coeffs().size() != (c ? 2u : 1u)) { vp::fail("quadratic:terms", L0[i].s + ", " + L0[j].s); continue; }
      if (!same("quadratic", "linear part of " + L0[i].s + ", " + L0[j].s, d.lexpr(), L0[i].p + L0[j].p)) continue;
      d.clear(); if (d.getValue() != 0 || d.coeffs().size() || d.lexpr().size() || d.lexpr().getConstant() != 0) { vp::fail("quadratic:clear", L0[i].s); continue; } vp::nontrivial(); }
  return vp::finish();
}
