// Modelling front-end of the hierarchical solver: all short build/solve programs vs. the raw hierarchy they denote.
#include <vp.hpp>
#include <refqp.hpp>
#include <solver/interface/Solver.hpp>
using ref::M; using ref::V; using ref::Level;
using solver::LinExpr;
static const int N = 3;
typedef rt_solver::RtModel<10, 10, N> Model;

struct Con { double c[N]; double k; char sense; int rank; int form; };  // c.x + k  sense  0
static LinExpr expr(Model& m, const Con& c, LinExpr& rhs) {
  LinExpr l; 
  switch (c.form) {
    case 0: for (int j = 0; j < N; j++) if (c.c[j] != 0) l += LinExpr(m.getVar(j)) * c.c[j]; l += c.k; rhs = LinExpr(0.0); break;
    case 1: for (int j = N - 1; j >= 0; j--) if (c.c[j] != 0) rhs += LinExpr(m.getVar(j)) * (-c.c[j]); l += c.k; break;            // variables on the right
    case 2: for (int j = 0; j < N; j++) if (c.c[j] != 0) { l += LinExpr(m.getVar(j)) * (c.c[j] + 1.0); rhs += LinExpr(m.getVar(j)); } rhs += -c.k; break; // split over both sides
    default: for (int j = 0; j < N; j++) { l += LinExpr(m.getVar(j)) * (c.c[j] * 0.5); } for (int j = 0; j < N; j++) { l += LinExpr(m.getVar(j)) * (c.c[j] * 0.5); } l -= -c.k; rhs = LinExpr(0.0); break; // repeated variables
  }
  return l;
}
static void add(Model& m, const Con& c) { vp::count("transitions"); LinExpr r; LinExpr l = expr(m, c, r); m.addLinConstr(l, std::string(1, c.sense), r, c.rank); }
static std::vector<Level> denote(const std::vector<Con>& cs, int skipvar = -1) {
  int mx = 0; for (auto& c : cs) mx = std::max(mx, c.rank);
  std::vector<Level> L(mx + 1); int n = N - (skipvar >= 0);
  for (auto& l : L) { l.B.resize(0, n); l.b.resize(0); l.A.resize(0, n); l.a.resize(0); }
  for (auto& c : cs) {
    double sg = c.sense == '>' ? -1 : 1; V r(n); int q = 0; for (int j = 0; j < N; j++) if (j != skipvar) r(q++) = sg * c.c[j];
    Level& l = L[c.rank]; if (r.isZero()) continue;   // rows without variables cannot be influenced
    M& X = c.sense == '=' ? l.B : l.A; V& x = c.sense == '=' ? l.b : l.a;
    X.conservativeResize(X.rows() + 1, n); X.row(X.rows() - 1) = r.transpose(); x.conservativeResize(x.size() + 1); x(x.size() - 1) = sg * c.k;
  }
  return L;
}
static std::string str(const std::vector<Con>& cs) { std::ostringstream o; for (auto& c : cs) { o << "r" << c.rank << "/f" << c.form << ":"; for (double d : c.c) o << d << " "; o << "+ " << c.k << " " << c.sense << " 0; "; } return o.str(); }
static bool compare(const char* sec, Model& m, bool ok, const std::vector<Con>& cs, const std::string& prog, int skipvar = -1) {
  vp::count("states"); vp::count("transitions");
  auto L = denote(cs, skipvar); int n = N - (skipvar >= 0);
  ref::LexOut o; if (!ref::lexlsq(L, n, o)) { vp::count("reference_failed"); return true; }
  if (!ok) { vp::fail(std::string(sec) + ":status", prog + " reported invalid: " + str(cs)); return false; }
  V x = m.hqp_solver_.solution(); std::ostringstream e; e << prog << " x=" << x.transpose() << " for " << str(cs);
  if (x.size() != n) { vp::fail(std::string(sec) + ":size", e.str()); return false; }
  for (size_t k = 0; k < L.size(); k++) {
    if (L[k].B.rows() && !((L[k].B * x + L[k].b - o.eqres[k]).cwiseAbs().maxCoeff() < 2e-4)) { vp::fail(std::string(sec) + ":eq", "level " + std::to_string(k) + " " + e.str()); return false; }
    if (L[k].A.rows() && !((L[k].A * x + L[k].a - o.viol[k]).maxCoeff() < 2e-4)) { vp::fail(std::string(sec) + ":ineq", "level " + std::to_string(k) + " " + e.str()); return false; }
  }
  return true;
}
class Composer : public rt_solver::RtHQPCost {
 public:
  Model* m; std::vector<Con> cs; bool after; mutable int calls = 0; int updates = 0;
  Composer(Model* mm, std::vector<Con> c, bool aft) : m(mm), cs(c), after(aft) {}
  int maxRank() const { int r = 0; for (auto& c : cs) r = std::max(r, c.rank); return r; }
  void updateAfterSolutionFound() { updates++; }
  void put(int rank, bool eq) const {
    std::vector<const Con*> v; for (auto& c : cs) if ((c.sense == '=') == eq) v.push_back(&c); if (v.empty()) return;
    rt_solver::RtMatrix<6, N>::d X; rt_solver::RtVector<6>::d x; rt_solver::RtVector<6>::i r; X.resize(v.size(), N); x.resize(v.size()); r.resize(v.size());
    // a column offset: leading zero columns are not part of the block
    int start = N; for (auto c : v) for (int j = 0; j < N; j++) if (c->c[j] != 0) start = std::min(start, j);
    if (start == N) start = 0;
    for (size_t i = 0; i < v.size(); i++) { double sg = v[i]->sense == '>' ? -1 : 1; for (int j = 0; j < N; j++) X(i, j) = sg * v[i]->c[j]; x(i) = sg * v[i]->k; r(i) = v[i]->rank; }
    m->appendRowsOfRank<6>(rank, r, X.rightCols(N - start), x, eq, start);
  }
  void addCostToHierarchy(int rank) const { calls++; if (!after) { put(rank, true); put(rank, false); } }
  void addCostToHierarchyAfterReduction(int rank) const { if (after) { put(rank, true); put(rank, false); } }
};
int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough(); vp::Quiet q; YAML::Node node;
  std::vector<Con> base;
  { double d[][N] = {{1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {0, -1, 2}, {1, 0, -1}}; int i = 0; for (auto& x : d) for (char s : {'=', '<', '>'}) { Con c; for (int j = 0; j < N; j++) c.c[j] = x[j]; c.k = (i % 4) - 1.5; c.sense = s; c.rank = 0; c.form = i % 4; base.push_back(c); i++; } }
  Con zero{{0, 0, 0}, 1, '=', 0, 0}; base.push_back(zero);
  int B = base.size();
  // programs of three constraints with all rank assignments (including gaps), built in two orders, solved twice
  for (int a = 0; a < B; a++) for (int b = 0; b < B; b++) for (int c = 0; c < B; c++) for (int rk = 0; rk < 27; rk++) {
    if (!vp::next("program")) continue;
    int rk2 = rk;
    std::vector<Con> cs = {base[a], base[b], base[c]}; cs[0].rank = rk2 % 3; cs[1].rank = rk2 / 3 % 3; cs[2].rank = rk2 / 9 % 3; for (int i = 0; i < 3; i++) cs[i].form = (cs[i].form + rk + i) % 4;
    Model m(node); m.clean(); for (auto& k : cs) add(m, k);
    m.initialize(); bool ok = m.solve();
    if (!compare("program", m, ok, cs, "first solve")) continue;
    V x1 = m.hqp_solver_.solution();
    ok = m.solve(); V x2 = m.hqp_solver_.solution();
    if (!ok || x1.size() != x2.size() || (x1 - x2).norm() != 0) { vp::fail("program:repeat", "a second solve of the same model differs: " + str(cs)); continue; }
    // other insertion order within equal ranks
    m.clean(); for (int i = 2; i >= 0; i--) add(m, cs[i]); ok = m.solve();
    if (!compare("program", m, ok, cs, "reversed order after clean")) continue;
    // clean and another model: nothing may survive
    std::vector<Con> two = {cs[1], cs[0]}; two[1].rank = (two[1].rank + 1) % 3; m.clean(); for (auto& k : two) add(m, k); m.initialize(); ok = m.solve();
    if (!compare("program", m, ok, two, "second model after clean")) continue;
    // extended without clean
    add(m, cs[2]); two.push_back(cs[2]); ok = m.solve();
    if (!compare("program", m, ok, two, "extended model")) continue;
    vp::nontrivial(); vp::sample([&] { std::ostringstream o; o << str(cs) << " -> " << x1.transpose(); return o.str(); });
  }
  // cost composers (matrix blocks with column offsets) mixed with expression constraints
  for (int a = 0; a < B - 1; a++) for (int b = 0; b < B - 1; b++) for (int rk = 0; rk < 27; rk += (th ? 1 : 2)) {
    if (!vp::next("composer")) continue;
    std::vector<Con> cs = {base[a], base[b], base[(a + 2 * b + 5) % (B - 1)], base[(3 * a + b + 7) % (B - 1)]};
    cs[0].rank = rk % 3; cs[1].rank = rk / 3 % 3; cs[2].rank = rk / 9 % 3; cs[3].rank = (rk + 1) % 3;
    Model m(node); Composer c1(&m, {cs[0], cs[1]}, false), c2(&m, {cs[2]}, rk % 2);
    m.subCostComposers().push_back(&c1); m.subCostComposers().push_back(&c2); add(m, cs[3]);
    m.initialize(); bool ok = m.solve();
    if (!compare("composer", m, ok, cs, "composers")) continue;
    if (c1.updates != 1 || c2.updates != 1) { vp::fail("composer:update", "composers were not told once about the solution: " + str(cs)); continue; }
    vp::nontrivial(); vp::sample([&] { return "composers " + str(cs); });
  }
  // variables taken out of the problem: same as dropping their columns
  for (int a = 0; a < B; a++) for (int b = 0; b < B; b++) for (int c = 0; c < B; c++) for (int v = 0; v < N; v++) {
    if (!vp::next("reduced")) continue;
    std::vector<Con> cs = {base[a], base[b], base[c]}; cs[0].rank = 0; cs[1].rank = (a + b) % 2; cs[2].rank = 1 + (b + c) % 2;
    Model m(node); for (auto& k : cs) add(m, k);
    int q2 = 0; for (int j = 0; j < N; j++) m.full_to_opt_variable_index_[j] = j == v ? -1 : q2++; m.num_variables_optimized_ = N - 1;
    m.initialize(); bool ok = m.solve();
    if (!compare("reduced", m, ok, cs, "without variable " + std::to_string(v), v)) continue;
    vp::nontrivial(); vp::sample([&] { return "without variable " + std::to_string(v) + " " + str(cs); });
  }
  // five variables, every set of them taken out of the problem: columns of the rest move together, rows left without variables disappear
  for (int out = 1; out < 31; out++) for (int shape = 0; shape < 8; shape++) for (int ord = 0; ord < 6; ord++) for (int coup = 0; coup < (th ? 4 : 2); coup++) {
    if (!vp::next("reduced_many")) continue;
    const int W = 5; typedef rt_solver::RtModel<10, 10, W> Wide;
    struct Row { double c[5]; double k; char s; int rank; }; std::vector<Row> rows;
    for (int i = 0; i < W; i++) { int j = ord < 3 ? (i * (ord + 1)) % W : (W - 1 - i * (ord - 2) % W) % W; Row r{{0, 0, 0, 0, 0}, -(0.5 + j), shape & 1 ? '>' : '=', 0}; r.c[j] = 1; if (shape & 1) r.k = 0.5 + j; if ((shape & 2) && i % 2) r.rank = 1; rows.push_back(r); }
    Row c1{{1, 2, -1, 3, 1}, 1.0, '<', 0}, c2{{1, -1, 1, -2, 2}, -4, '=', 1}, c3{{0, 1, 0, 1, 0}, 2, '>', 1}, c4{{1, 0, 0, 0, 1}, -9, '=', 2};
    if (coup & 1) rows.insert(rows.begin() + 2, c2); else rows.push_back(c2);
    if (shape & 4) rows.insert(rows.begin() + (coup & 2 ? 0 : 3), c1); rows.push_back(c3); rows.push_back(c4);
    Wide m(node); std::vector<int> keep; for (int j = 0; j < W; j++) { m.full_to_opt_variable_index_[j] = (out >> j & 1) ? -1 : (int)keep.size(); if (!(out >> j & 1)) keep.push_back(j); }
    m.num_variables_optimized_ = keep.size(); int n = keep.size();
    std::ostringstream d; d << "without variables"; for (int j = 0; j < W; j++) if (out >> j & 1) d << " " << j; d << " of";
    std::vector<Level> L(3); for (auto& l : L) { l.B.resize(0, n); l.b.resize(0); l.A.resize(0, n); l.a.resize(0); }
    for (auto& r : rows) {
      LinExpr l; for (int j = 0; j < W; j++) if (r.c[j] != 0) l += LinExpr(m.getVar(j)) * r.c[j]; l += r.k; m.addLinConstr(l, std::string(1, r.s), LinExpr(0.0), r.rank); vp::count("transitions");
      d << " r" << r.rank << ":"; for (double v : r.c) d << " " << v; d << " + " << r.k << " " << r.s << " 0;";
      double sg = r.s == '>' ? -1 : 1; V row(n); for (int q = 0; q < n; q++) row(q) = sg * r.c[keep[q]]; if (row.isZero()) continue;
      Level& lv = L[r.rank]; M& X = r.s == '=' ? lv.B : lv.A; V& x = r.s == '=' ? lv.b : lv.a; X.conservativeResize(X.rows() + 1, n); X.row(X.rows() - 1) = row.transpose(); x.conservativeResize(x.size() + 1); x(x.size() - 1) = sg * r.k;
    }
    m.initialize(); bool bad = false; 
    for (int rep = 0; rep < 2 && !bad; rep++) {
      bool ok = m.solve(); vp::count("states"); vp::count("transitions"); ref::LexOut o; if (!ref::lexlsq(L, n, o)) { vp::count("reference_failed"); break; }
      V x = m.hqp_solver_.solution(); std::ostringstream e; e << d.str() << " x=" << x.transpose();
      if (!ok) { vp::fail("reduced_many:status", "reported invalid: " + e.str()); bad = true; break; }
      if (x.size() != n) { vp::fail("reduced_many:size", e.str()); bad = true; break; }
      for (size_t k = 0; k < L.size() && !bad; k++) {
        if (L[k].B.rows() && !((L[k].B * x + L[k].b - o.eqres[k]).cwiseAbs().maxCoeff() < 2e-4)) { vp::fail("reduced_many:eq", "level " + std::to_string(k) + " " + e.str()); bad = true; }
        else if (L[k].A.rows() && !((L[k].A * x + L[k].a - o.viol[k]).maxCoeff() < 2e-4)) { vp::fail("reduced_many:ineq", "level " + std::to_string(k) + " " + e.str()); bad = true; }
      }
    }
    if (bad) continue;
    vp::nontrivial(); vp::sample([&] { return d.str(); });
  }
  // a single row, then another model; a single composer that spans several ranks
  for (int a = 0; a < B - 1; a++) for (int b = 0; b < B; b++) for (int c = 0; c < B; c++) for (int v = 0; v < 3; v++) {
    if (!vp::next("single")) continue;
    std::vector<Con> one = {base[a]}, cs = {base[b], base[c]}; cs[0].rank = v == 1; cs[1].rank = v == 2 ? 2 : 0; one[0].rank = (a + v) % 2;
    Model m(node); for (auto& k : one) add(m, k); m.initialize(); bool ok = m.solve(); if (!compare("single", m, ok, one, "one row")) continue;
    m.clean(); for (auto& k : cs) add(m, k); ok = m.solve(); if (!compare("single", m, ok, cs, "another model after one row")) continue;
    Model m2(node); Composer c1(&m2, cs, (b + c) % 2); m2.subCostComposers().push_back(&c1); m2.initialize(); ok = m2.solve();
    if (!compare("single", m2, ok, cs, "one composer")) continue;
    vp::nontrivial();
  }
  // non-finite data is refused, and the next problem is not affected
  for (int a = 0; a < B - 1; a++) for (int b = 0; b < B - 1; b++) for (int bad = 0; bad < 12; bad++) {
    if (!vp::next("nonfinite")) continue;
    std::vector<Con> cs = {base[a], base[b]}; cs[0].rank = 0; cs[1].rank = 1; double v = bad % 3 == 0 ? std::nan("") : bad % 3 == 1 ? INFINITY : -INFINITY;
    Model m(node); auto w = cs; int who = bad / 3 % 2; w[who].form = 0; if (bad < 6) w[who].k = v; else for (int j = 0; j < N; j++) if (w[who].c[j] != 0) { w[who].c[j] = v; break; } for (auto& k : w) add(m, k);
    m.initialize(); bool dofs_end = cs[0].sense == '=' && false; bool ok = m.solve(); (void)dofs_end;
    if (ok) { vp::fail("nonfinite:accepted", "a hierarchy with a non-finite row was reported valid: " + str(w)); continue; }
    m.clean(); for (auto& k : cs) add(m, k); if (bad % 2) m.initialize(); ok = m.solve();
    if (!compare("nonfinite", m, ok, cs, "after a refused problem")) continue;
    vp::nontrivial();
  }
  return vp::finish();
}
