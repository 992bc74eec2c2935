// Strict lexicographic priority of the hierarchical solver: all small hierarchies vs. active set enumeration.
#include <vp.hpp>
#include <refqp.hpp>
#include <boost/thread.hpp>
#include <boost/bind.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <solver/rt_optimizer/RtHQPSolver.h>
using ref::M; using ref::V; using ref::Level;

struct Row { double c[3]; double k; int eq; };
static std::string str(const std::vector<std::vector<Row>>& H, int n) {
  std::ostringstream o;
  for (auto& l : H) { o << "{"; for (auto& r : l) { for (int j = 0; j < n; j++) o << r.c[j] << " "; o << (r.eq ? "= " : "<= ") << -r.k << "; "; } o << "} "; }
  return o.str();
}
static std::vector<Level> levels(const std::vector<std::vector<Row>>& H, int n) {
  std::vector<Level> L;
  for (auto& l : H) {
    Level v; int ne = 0, ni = 0; for (auto& r : l) (r.eq ? ne : ni)++;
    v.B.resize(ne, n); v.b.resize(ne); v.A.resize(ni, n); v.a.resize(ni); ne = ni = 0;
    for (auto& r : l) { auto& X = r.eq ? v.B : v.A; auto& x = r.eq ? v.b : v.a; int& i = r.eq ? ne : ni; for (int j = 0; j < n; j++) X(i, j) = r.c[j]; x(i) = r.k; i++; }
    L.push_back(v);
  }
  return L;
}
template <class S> bool check(const char* sec, S& s, const std::vector<std::vector<Row>>& H, int n, const char* what) {
  auto L = levels(H, n);
  s.reset(n);
  bool allok = true; std::vector<V> xs;
  for (auto& l : L) { bool ok = s.solveNextTask(l.B, l.b, l.A, l.a); allok &= ok; xs.push_back(V(s.solution())); }
  ref::LexOut o;
  if (!ref::lexlsq(L, n, o)) { vp::count("reference_failed"); return true; }
  if (!allok) { vp::fail(std::string(sec) + ":status", std::string("a level was reported unsolved: ") + str(H, n)); return false; }
  V x = xs.back(); double tol = 2e-4; bool confl = false;
  for (size_t k = 0; k < L.size(); k++) {
    auto& l = L[k];
    if (l.B.rows()) {
      V r = l.B * x + l.b - o.eqres[k]; double d = r.cwiseAbs().maxCoeff();
      if (o.eqres[k].norm() > 1e-6) confl = true;
      if (!(d < tol)) { std::ostringstream m; m << what << " level " << k << " equality residual " << (l.B * x + l.b).transpose() << " expected " << o.eqres[k].transpose() << " x=" << x.transpose() << " for " << str(H, n); vp::fail(std::string(sec) + ":eq", m.str()); return false; }
    }
    if (l.A.rows()) {
      V r = (l.A * x + l.a) - o.viol[k]; double d = r.maxCoeff();
      if (o.viol[k].norm() > 1e-6) confl = true;
      if (!(d < tol)) { std::ostringstream m; m << what << " level " << k << " inequality violation " << (l.A * x + l.a).transpose() << " expected <= " << o.viol[k].transpose() << " x=" << x.transpose() << " for " << str(H, n); vp::fail(std::string(sec) + ":ineq", m.str()); return false; }
    }
  }
  vp::nontrivial(confl);
  vp::sample([&] { std::ostringstream m; m << str(H, n) << "-> x=" << x.transpose(); return m.str(); });
  return true;
}
typedef std::vector<Row> Lv;
int main(int argc, char** argv) {
  vp::init(argc, argv);
  bool th = vp::thorough();
  YAML::Node node;
  vp::Quiet q;
  // section A: two variables, three levels of one row each
  typedef rt_solver::RtHQPSolver<12, 3, 6> S;
  S* s = new S(node); s->initialize();
  std::vector<Row> rows2;
  {
    double dirs[][2] = {{1, 0}, {0, 1}, {1, 1}, {1, -1}, {2, -1}};
    for (auto& d : dirs) for (double k : {-1., 1.}) { rows2.push_back({{d[0], d[1], 0}, k, 1}); for (double sg : {1., -1.}) rows2.push_back({{sg * d[0], sg * d[1], 0}, sg * k + 0.5 * (sg > 0), 0}); }
  }
  int R = rows2.size();
  for (int a = 0; a < R; a++) for (int b = 0; b < R; b++) for (int c = 0; c < R; c++)
    if (vp::next("three_levels")) check("three_levels", *s, {{rows2[a]}, {rows2[b]}, {rows2[c]}}, 2, "");
  // section B: levels mixing rows: level 1 has two rows, level 2 two rows
  std::vector<Row> r2;
  for (int i = 0; i < R; i += (th ? 2 : 3)) r2.push_back(rows2[i]);
  int Q = r2.size();
  for (int a = 0; a < Q; a++) for (int b = a; b < Q; b++) for (int c = 0; c < Q; c++) for (int d = c; d < Q; d++)
    if (vp::next("two_by_two")) check("two_by_two", *s, {{r2[a], r2[b]}, {r2[c], r2[d]}}, 2, "");
  // section C: one violated row first, then empty levels, pure equality levels, deeper hierarchies
  {
    Row in0{{1, 0, 0}, 1, 0}, in1{{-1, 0, 0}, 1, 0}, e0{{1, 0, 0}, -2, 1}, e1{{0, 1, 0}, -3, 1}, e01{{1, 1, 0}, 1, 1}, i2{{1, 1, 0}, -1, 0}, i3{{0, -1, 0}, 2, 0}, e2{{1, -1, 0}, -4, 1};
    std::vector<Lv> alpha = {{in0, in1}, {e0}, {}, {i2}, {e1}, {e01, i3}, {in1}, {e2, in0}};
    int A = alpha.size();
    for (int len = 4; len <= (th ? 5 : 4); len++)
      vp::product(std::vector<int>(len, A), [&](const std::vector<int>& d) {
        if (!vp::next("deep")) return; std::vector<Lv> H; int ni = 0; for (int i : d) { H.push_back(alpha[i]); for (auto& r : alpha[i]) ni += !r.eq; }
        if (ni > 7) { vp::count("skipped_too_many_rows"); return; } check("deep", *s, H, 2, ""); });
    // hierarchies with more levels than variables, up to 10
    for (int len = 7; len <= 10; len++) for (int a = 0; a < A; a++) for (int b = 0; b < A; b++) {
      if (!vp::next("very_deep")) continue;
      std::vector<Lv> H; for (int i = 0; i < len - 2; i++) H.push_back({}); H[0] = alpha[a]; H[len - 3] = alpha[b]; H.push_back({e1}); H.push_back({e0});
      for (int i = 1; i < len - 3; i++) H[i] = {Row{{1, 0, 0}, 1. * i, 0}}; // never tighter than the first
      int ni = 0; for (auto& l : H) for (auto& r : l) ni += !r.eq; if (ni > 11) continue;
      check("very_deep", *s, H, 2, ""); }
  }
  // section D: three variables
  {
    std::vector<Row> r3; double dirs[][3] = {{1, 0, 0}, {0, 1, 1}, {1, -1, 0}, {1, 1, 1}, {0, 0, 1}, {2, 0, -1}};
    int i = 0; for (auto& d : dirs) { double k = (i % 3) - 1; r3.push_back({{d[0], d[1], d[2]}, k, 1}); r3.push_back({{d[0], d[1], d[2]}, k + 1, 0}); r3.push_back({{-d[0], -d[1], -d[2]}, 1 - k, 0}); i++; }
    int N = r3.size(); int st = th ? 1 : 2;
    for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) for (int c = 0; c < N; c += st) for (int d = 0; d < N; d += st)
      if (vp::next("three_variables")) { if (th) check("three_variables", *s, {{r3[a]}, {r3[b]}, {r3[c]}, {r3[d]}}, 3, ""); else check("three_variables", *s, {{r3[a]}, {r3[b], r3[c]}, {r3[d]}}, 3, ""); }
  }
  // section E: one level with three or four rows in conflict with each other, then one more row
  {
    std::vector<Row> r4; for (int i = 0; i < R; i++) if (i % 3 && (th || i % 5 != 2)) r4.push_back(rows2[i]); r4.push_back(rows2[0]); r4.push_back(rows2[9]);
    int N = r4.size();
    for (int a = 0; a < N; a++) for (int b = a; b < N; b++) for (int c = b; c < N; c++) for (int d = c; d <= N; d++) {
      if (!th && (a + b + c + d) % 5) continue;
      if (!vp::next("many_rows")) continue;
      Lv l = {r4[a], r4[b], r4[c]}; if (d < N) l.push_back(r4[d]);
      check("many_rows", *s, {l, {r4[(a + 2 * b + 3 * c + 5 * d) % N]}}, 2, "");
    }
  }
  delete s;
  return vp::finish();
}
