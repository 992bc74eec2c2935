// States, motions and controls as values: every history of writes, copies, sums, scalings and resizings up to a depth,
// on the real containers and on plain lists of numbers, compared in full after every operation.
#include <vp.hpp>
#include <momentumopt/dynopt/DynamicsState.hpp>
#include <momentumopt/kinopt/KinematicsState.hpp>
#include <solver_lqr/OcpDescription.hpp>
#include <memory>
using namespace momentumopt; using namespace solverlqr;
typedef std::vector<double> L; typedef std::vector<L> LL; typedef Eigen::Vector3d V3; typedef Eigen::Quaternion<double> Q;
static std::set<size_t> seen;
static void visit(size_t h) { vp::count("transitions"); if (seen.size() < 4000000 && seen.insert(h).second) vp::count("states"); }
static size_t hash(const L& l, size_t h = 1469598103u) { for (double x : l) { uint64_t u; memcpy(&u, &x, 8); h = (h ^ (u + (u >> 29))) * 1099511628211ull; } return (h ^ l.size()) * 1099511628211ull; }
static std::string str(const L& l) { std::ostringstream o; o << l.size() << ":"; for (double x : l) o << " " << x; return o.str(); }
static bool same(const L& a, const L& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= 1e-12 * (1 + std::fabs(b[i])))) return false; return true; }
static double num(int i) { static const double T[] = {1, -2, 0.5, 3, -1, 0.25, 2, -0.75, 1.5, -3}; return T[((i % 10) + 10) % 10]; }

// ---- fields of one state: how each is read, and the ways it is written
template <class S> struct Field { std::string name; std::function<void(const S&, L&)> get; std::vector<std::function<void(S&, const L&)>> set; int n; bool integral = false; };
static void put(L& l, const V3& v) { for (int i = 0; i < 3; i++) l.push_back(v(i)); }
static void putq(L& l, const Q& q) { l.push_back(q.x()); l.push_back(q.y()); l.push_back(q.z()); l.push_back(q.w()); }
static V3 v3(const L& l) { return V3(l[0], l[1], l[2]); }
static Q q4(const L& l) { return Q(l[3], l[0], l[1], l[2]); }
#define VEC(S, f) {#f, [](const S& s, L& l) { put(l, s.f()); }, {[](S& s, const L& l) { s.f() = v3(l); }, [](S& s, const L& l) { s.f(v3(l)); }, [](S& s, const L& l) { for (int i = 2; i >= 0; i--) s.f()(i) = l[i]; }}, 3}
#define EFF(S, f, e) {#f, [e](const S& s, L& l) { put(l, s.f(e)); }, {[e](S& s, const L& l) { s.f(e) = v3(l); }, [e](S& s, const L& l) { for (int i = 0; i < 3; i++) s.f(e)(i) = l[i]; }}, 3}
template <class S> static std::function<void(S&, const L&)> whole(const std::vector<V3>& (S::*g)() const, void (S::*p)(const std::vector<V3>&), int e) { return [=](S& s, const L& l) { std::vector<V3> a = (static_cast<const S&>(s).*g)(); a[e] = v3(l); (s.*p)(a); }; }

static std::vector<Field<DynamicsState>> dynFields() { typedef DynamicsState S; std::vector<Field<S>> F = {
  {"time", [](const S& s, L& l) { l.push_back(s.time()); }, {[](S& s, const L& l) { s.time() = l[0]; }, [](S& s, const L& l) { s.time(l[0]); }}, 1},
  VEC(S, centerOfMass), VEC(S, linearMomentum), VEC(S, angularMomentum), VEC(S, linearMomentumRate), VEC(S, angularMomentumRate)};
  for (int e = 0; e < Problem::n_endeffs_; e++) {
    F.push_back(EFF(S, endeffectorCoP, e)); F.back().set.push_back(whole<S>(&S::pyEndeffectorCops, &S::pyEndeffectorCops, e));
    F.push_back(EFF(S, endeffectorForce, e)); F.back().set.push_back(whole<S>(&S::pyEndeffectorForces, &S::pyEndeffectorForces, e));
    F.push_back(EFF(S, endeffectorTorque, e)); F.back().set.push_back(whole<S>(&S::pyEndeffectorTorques, &S::pyEndeffectorTorques, e));
    F.push_back(EFF(S, endeffectorTorqueAtContactPoint, e));
    F.push_back(EFF(S, endeffectorPosition, e)); F.back().set.push_back(whole<S>(&S::pyEndeffectorPositions, &S::pyEndeffectorPositions, e));
    F.push_back(EFF(S, endeffectorVelocity, e)); F.push_back(EFF(S, endeffectorAcceleration, e));
    F.push_back({"endeffectorOrientation", [e](const S& s, L& l) { putq(l, s.endeffectorOrientation(e)); }, {[e](S& s, const L& l) { s.endeffectorOrientation(e) = q4(l); }}, 4});
    F.push_back({"endeffectorContactId", [e](const S& s, L& l) { l.push_back(s.endeffectorContactId(e)); }, {[e](S& s, const L& l) { s.endeffectorContactId(e) = int(l[0]); }}, 1, true});
    F.push_back({"endeffectorActivationId", [e](const S& s, L& l) { l.push_back(s.endeffectorActivationId(e)); }, {[e](S& s, const L& l) { s.endeffectorActivationId(e) = int(l[0]); }}, 1, true});
    F.push_back({"endeffectorActivation", [e](const S& s, L& l) { l.push_back(s.endeffectorActivation(e)); }, {[e](S& s, const L& l) { s.endeffectorActivation(e) = (long(l[0]) & 1) != 0; }}, 1, true});
  }
  for (size_t i = 6; i < F.size(); i++) F[i].name += std::to_string((i - 6) / 11);
  return F; }

enum { J = 2 };
static std::vector<Field<KinematicsState>> kinFields() { typedef KinematicsState S; std::vector<Field<S>> F = {
  VEC(S, centerOfMass), VEC(S, linearMomentum), VEC(S, angularMomentum),
  {"basePosition", [](const S& s, L& l) { put(l, s.robotPosture().basePosition()); }, {[](S& s, const L& l) { s.robotPosture().basePosition() = v3(l); }, [](S& s, const L& l) { s.robotPosture().basePosition(v3(l)); }, [](S& s, const L& l) { RobotPosture p = s.robotPosture(); p.basePosition(v3(l)); s.robotPosture(p); }}, 3},
  {"baseOrientation", [](const S& s, L& l) { putq(l, s.robotPosture().baseOrientation()); }, {[](S& s, const L& l) { s.robotPosture().baseOrientation() = q4(l); }, [](S& s, const L& l) { s.robotPosture().baseOrientation(q4(l)); }, [](S& s, const L& l) { s.robotPosture().pyBaseOrientation(Eigen::Vector4d(l[0], l[1], l[2], l[3])); }}, 4},
  {"jointPositions", [](const S& s, L& l) { for (int i = 0; i < s.robotPosture().jointPositions().size(); i++) l.push_back(s.robotPosture().jointPositions()(i)); }, {[](S& s, const L& l) { s.robotPosture().jointPositions() = Eigen::Vector2d(l[0], l[1]); }, [](S& s, const L& l) { s.robotPosture().jointPositions(Eigen::VectorXd(Eigen::Vector2d(l[0], l[1]))); }}, J},
#define GEN(R, c, g, bl, ba, jn) \
  {#bl, [](const S& s, L& l) { put(l, s.R().bl()); }, {[](S& s, const L& l) { s.R().bl() = v3(l); }, [](S& s, const L& l) { s.R().bl(v3(l)); }, [](S& s, const L& l) { s.R().g().head(3) = v3(l); }}, 3}, \
  {#ba, [](const S& s, L& l) { put(l, s.R().ba()); }, {[](S& s, const L& l) { s.R().ba() = v3(l); }, [](S& s, const L& l) { s.R().ba(v3(l)); }, [](S& s, const L& l) { Eigen::VectorXd v = static_cast<const S&>(s).R().g(); v.segment<3>(3) = v3(l); s.R().g(v); }}, 3}, \
  {#jn, [](const S& s, L& l) { for (int i = 0; i < J; i++) l.push_back(s.R().jn()(i)); }, {[](S& s, const L& l) { s.R().jn() = Eigen::Vector2d(l[0], l[1]); }, [](S& s, const L& l) { s.R().jn(Eigen::VectorXd(Eigen::Vector2d(l[0], l[1]))); }, [](S& s, const L& l) { c r = static_cast<const S&>(s).R(); r.g()(6) = l[0]; r.g()(7) = l[1]; s.R(r); }}, J}
  GEN(robotVelocity, RobotVelocity, generalizedJointVelocities, baseLinearVelocity, baseAngularVelocity, jointVelocities),
  GEN(robotAcceleration, RobotAcceleration, generalizedJointAccelerations, baseLinearAcceleration, baseAngularAcceleration, jointAccelerations)};
  for (int e = 0; e < Problem::n_endeffs_; e++) {
    F.push_back(EFF(S, endeffectorPosition, e)); F.back().set.push_back(whole<S>(&S::pyEndeffectorPositions, &S::pyEndeffectorPositions, e)); F.push_back(EFF(S, endeffectorVelocity, e)); F.push_back(EFF(S, endeffectorAcceleration, e));
    F.push_back({"endeffectorOrientation", [e](const S& s, L& l) { putq(l, s.endeffectorOrientation(e)); }, {[e](S& s, const L& l) { s.endeffectorOrientation(e) = q4(l); }}, 4}); }
  return F; }

template <class S> static L dump(const S& s, const std::vector<Field<S>>& F) { L l; for (auto& f : F) f.get(s, l); return l; }
static L values(int n, int k, bool integral) { L l(n); for (int i = 0; i < n; i++) l[i] = integral ? 1 + k + i : num(k + 3 * i) * (1 + k) + i; return l; }
// derived readings that must follow the fields
static bool derived(const DynamicsState& s, const L&) { return const_cast<DynamicsState&>(s).endeffectorNum() == Problem::n_endeffs_ && int(s.pyEndeffectorCops().size()) == Problem::n_endeffs_ && s.pyEndeffectorForces()[2] == s.endeffectorForce(2) && s.pyEndeffectorTorques()[1] == s.endeffectorTorque(1) && s.pyEndeffectorCops()[3] == s.endeffectorCoP(3) && s.pyEndeffectorPositions()[0] == s.endeffectorPosition(0); }
static bool derived(const KinematicsState& s, const L& d) {
  const RobotPosture& p = s.robotPosture(); Eigen::VectorXd g = p.generalizedJointPositions(); bool ok = s.numJoints() == J && g.size() == 7 + J && p.jointPositions().size() == J; for (int i = 0; ok && i < 7 + J; i++) ok = g(i) == d[9 + i];
  Eigen::Vector4d b = p.pyBaseOrientation(); for (int i = 0; ok && i < 4; i++) ok = b(i) == d[12 + i];
  ok = ok && s.robotVelocity().generalizedJointVelocities().size() == 6 + J && s.robotAcceleration().generalizedJointAccelerations().size() == 6 + J;
  for (int i = 0; ok && i < 6 + J; i++) ok = s.robotVelocity().generalizedJointVelocities()(i) == d[16 + J + i] && s.robotAcceleration().generalizedJointAccelerations()(i) == d[22 + 2 * J + i];
  return ok && s.pyEndeffectorPositions()[3] == s.endeffectorPosition(3); }
static bool fresh(const DynamicsState&, const L& d) { L e(d.size(), 0.); e[0] = 0.1; for (int f = 0; f < Problem::n_endeffs_; f++) { e[16 + f * 28 + 24] = 1; e[16 + f * 28 + 25] = -1; } return same(d, e); }
static bool fresh(const KinematicsState&, const L& d) { L e(d.size(), 0.); e[15] = 1; for (int f = 0; f < Problem::n_endeffs_; f++) e[28 + 3 * J + f * 13 + 12] = 1; return same(d, e); }

// every pair of writes to one state: each changes its own field and nothing else; a copy made in between keeps what it had
template <class S> static void fields(const std::vector<Field<S>>& F, const S& blank, const std::string& what) {
  std::vector<int> at; int n = 0; for (auto& f : F) { at.push_back(n); n += f.n; }
  for (size_t a = 0; a < F.size(); a++) for (size_t b = 0; b < F.size(); b++) { if (!vp::next(what.c_str())) continue; vp::nontrivial();
    for (size_t i = 0; i < F[a].set.size(); i++) for (size_t j = 0; j < F[b].set.size(); j++) {
      S s(blank); L m = dump(s, F); std::string w = what + ": " + F[a].name + " written in way " + std::to_string(i) + ", then " + F[b].name + " in way " + std::to_string(j);
      if (int(m.size()) != n || !fresh(s, m)) { vp::fail("fields:fresh", what + ": a new state reads " + str(m)); return; }
      auto write = [&](S& x, L& r, size_t f, size_t way, int k) { L v = values(F[f].n, k, F[f].integral); F[f].set[way](x, v); if (F[f].name.find("Activation") != std::string::npos && F[f].name.find("Id") == std::string::npos) v[0] = long(v[0]) & 1; std::copy(v.begin(), v.end(), r.begin() + at[f]); visit(hash(r)); };
      write(s, m, a, i, int(a + 2)); if (!same(dump(s, F), m) || !derived(s, m)) { vp::fail("fields:write", w + ": after the first, the state reads " + str(dump(s, F)) + ", expected " + str(m)); return; }
      S c(s); L mc = m; write(s, m, b, j, int(a + b + 3)); if (!same(dump(s, F), m) || !derived(s, m)) { vp::fail("fields:write", w + ": the state reads " + str(dump(s, F)) + ", expected " + str(m)); return; }
      if (!same(dump(c, F), mc)) { vp::fail("fields:copy", w + ": a copy made in between reads " + str(dump(c, F)) + ", expected " + str(mc)); return; }
      S& self = s; s = self; if (!same(dump(s, F), m)) { vp::fail("fields:assign", w + ": assigned to itself, the state reads " + str(dump(s, F))); return; }
      c = s; mc = m; write(s, m, a, 0, 7); if (!same(dump(s, F), m)) { vp::fail("fields:write", w + ": written once more, the state reads " + str(dump(s, F)) + ", expected " + str(m)); return; }
      if (!same(dump(c, F), mc)) { vp::fail("fields:copy", w + ": an assigned copy reads " + str(dump(c, F)) + ", expected " + str(mc)); return; }
    } vp::sample([&] { return F[a].name + " then " + F[b].name; }); } }

// histories of two sequences
template <class S, class Seq> struct Seqs { std::unique_ptr<Seq> q[2]; LL m[2];
  Seqs() {} Seqs(const Seqs& o) { for (int i = 0; i < 2; i++) { q[i].reset(new Seq(*o.q[i])); m[i] = o.m[i]; } } };
static void resized(DynamicsSequence& q, int n) { q.resize(n); }
static void resized(KinematicsSequence& q, int n) { q.resize(n, J); }
static DynamicsState& at(DynamicsSequence& q, int t) { return q.dynamicsState(t); }
static KinematicsState& at(KinematicsSequence& q, int t) { return q.kinematicsState(t); }
static const DynamicsState& at(const DynamicsSequence& q, int t) { return q.dynamicsState(t); }
static const KinematicsState& at(const KinematicsSequence& q, int t) { return q.kinematicsState(t); }
static const std::vector<DynamicsState>& all(const DynamicsSequence& q) { return q.dynamicsSequence(); }
static const std::vector<KinematicsState>& all(const KinematicsSequence& q) { return q.kinematicsSequence(); }
static void all(DynamicsSequence& q, const std::vector<DynamicsState>& v) { q.dynamicsSequence(v); }
static void all(KinematicsSequence& q, const std::vector<KinematicsState>& v) { q.kinematicsSequence(v); }

template <class S, class Seq> struct SeqTest { std::vector<Field<S>> F; S blank; std::string what; int depth; L empty; std::vector<int> off; std::vector<std::string> trail;
  SeqTest(const std::vector<Field<S>>& f, const S& b, const std::string& w, int d) : F(f), blank(b), what(w), depth(d) { empty = dump(blank, F); int n = 0; for (auto& x : F) { off.push_back(n); n += x.n; } }
  enum { OPS = 26 };
  bool apply(int op, Seqs<S, Seq>& x) { int i = op & 1, k = op / 2; Seq& q = *x.q[i]; LL& m = x.m[i]; const Seq& o = *x.q[1 - i]; LL& mo = x.m[1 - i]; std::string n = i ? "second" : "first";
    auto write = [&](int t, size_t f, int v) { L val = values(F[f].n, v, F[f].integral); F[f].set[(v + f) % F[f].set.size()](at(q, t), val); std::copy(val.begin(), val.end(), m[t].begin() + off[f]); };
    if (k < 3) { resized(q, k); m.assign(k, empty); trail.push_back(n + " resized to " + std::to_string(k)); }
    else if (k == 3) { if (m.empty()) return false; q.clean(); m.clear(); trail.push_back(n + " cleaned"); }
    else if (k == 4) { if (m == mo) return false; q = o; m = mo; trail.push_back(n + " = other"); }
    else if (k == 5) { const Seq& self = q; q = self; trail.push_back(n + " = itself"); }
    else if (k == 6) { if (m.empty()) return false; write(0, 1, 4 + i); trail.push_back(n + " state 0 " + F[1].name + " written"); }
    else if (k == 7) { if (m.size() < 2) return false; write(1, F.size() - 14, 2 + i); trail.push_back(n + " state 1 " + F[F.size() - 14].name + " written"); }
    else if (k == 8) { if (m.empty() || mo.empty()) return false; at(q, m.size() - 1) = at(o, 0); m.back() = mo[0]; trail.push_back(n + " last state = first of the other"); }
    else if (k == 9) { if (m.size() < 2) return false; at(q, 0) = at(q, 1); m[0] = m[1]; trail.push_back(n + " state 0 = state 1"); }
    else if (k == 10) { all(q, all(o)); m = mo; trail.push_back(n + " states = other's states"); }
    else if (k == 11) { std::vector<S> v = all(static_cast<const Seq&>(q)); v.insert(v.begin(), blank); if (v.size() > 3) return false; all(q, v); m.insert(m.begin(), empty); trail.push_back(n + " new state in front"); }
    else { if (m.empty()) return false; std::vector<S> v = all(static_cast<const Seq&>(q)); v.pop_back(); all(q, v); m.pop_back(); trail.push_back(n + " last state dropped"); }
    return true; }
  bool compare(const Seqs<S, Seq>& x) { size_t h = 7; for (int i = 0; i < 2; i++) { const Seq& q = *x.q[i]; bool ok = q.size() == int(x.m[i].size()) && all(q).size() == x.m[i].size(); if (!ok) { vp::fail("sequence:size", describe() + ": sequence " + std::to_string(i + 1) + " has " + std::to_string(q.size()) + " states, expected " + std::to_string(x.m[i].size())); return false; }
      for (size_t t = 0; t < x.m[i].size(); t++) { L d = dump(at(q, t), F); h = hash(x.m[i][t], h); if (!same(d, x.m[i][t]) || !same(dump(all(q)[t], F), d)) { vp::fail("sequence:state", describe() + ": state " + std::to_string(t) + " of sequence " + std::to_string(i + 1) + " reads " + str(d) + ", expected " + str(x.m[i][t])); return false; } } h = h * 31 + i; } visit(h); return true; }
  std::string describe() { std::string s = what + ":"; for (auto& t : trail) s += " " + t + ";"; return s; }
  bool explore(const Seqs<S, Seq>& x, int d) { if (!compare(x)) return false; if (d == depth) return true; for (int op = 0; op < OPS; op++) { Seqs<S, Seq> y(x); if (!apply(op, y)) continue; vp::tick(); bool ok = explore(y, d + 1); trail.pop_back(); if (!ok) return false; } return true; }
  void run() { for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int op = 0; op < OPS; op++) for (int op2 = 0; op2 < OPS; op2++) { if (!vp::next(what.c_str())) continue;
    Seqs<S, Seq> x; for (int i = 0; i < 2; i++) { x.q[i].reset(new Seq); int n = i ? b : a; resized(*x.q[i], n); x.m[i].assign(n, empty); for (int t = 0; t < n; t++) for (size_t f = 0; f < F.size(); f += 2) { L v = values(F[f].n, 1 + i + 2 * t + f, F[f].integral); F[f].set[0](at(*x.q[i], t), v); if (F[f].name.find("Activation") != std::string::npos && F[f].name.find("Id") == std::string::npos) v[0] = long(v[0]) & 1; std::copy(v.begin(), v.end(), x.m[i][t].begin() + off[f]); } }
    trail.assign(1, std::to_string(a) + " and " + std::to_string(b) + " states"); if (!compare(x)) return; if (!apply(op, x)) continue; if (!compare(x)) return; if (!apply(op2, x)) continue; vp::nontrivial(); explore(x, 2); vp::sample([&] { return describe(); }); } }
};

// ---- controls: gains and feedforward
struct C { L k, u; int x, n; bool operator==(const C& o) const { return k == o.k && u == o.u && x == o.x && n == o.n; } };
static C blankc(int x, int n) { return C{L(x * n, 0.), L(n, 0.), x, n}; }
typedef std::vector<C> CS;
static L flat(const ControlBase& c) { L l; l.push_back(c.feedback().rows()); l.push_back(c.feedback().cols()); l.push_back(c.feedforward().size()); for (int i = 0; i < c.feedback().rows(); i++) for (int j = 0; j < c.feedback().cols(); j++) l.push_back(c.feedback()(i, j)); for (int i = 0; i < c.feedforward().size(); i++) l.push_back(c.feedforward()(i)); return l; }
static L flat(const C& c) { L l; l.push_back(c.n); l.push_back(c.x); l.push_back(c.n); l.insert(l.end(), c.k.begin(), c.k.end()); l.insert(l.end(), c.u.begin(), c.u.end()); return l; }
static void fill(ControlBase& c, C& m, int s) { for (int i = 0; i < m.n; i++) { for (int j = 0; j < m.x; j++) c.feedback()(i, j) = m.k[i * m.x + j] = num(s + 3 * i + 7 * j); c.feedforward()(i) = m.u[i] = num(s + 5 + 2 * i); } }
struct Ctl { ControlSequence q[2]; CS m[2]; };
struct CtlTest { std::vector<std::string> trail; int depth; enum { OPS = 34 };
  static bool fit(const CS& a, const CS& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].n != b[i].n || a[i].x != b[i].x) return false; return true; }
  static bool small(const CS& a) { for (auto& c : a) for (double v : c.u) if (std::fabs(v) > 1e6) return false; return true; }
  static CS times(const CS& a, double s) { CS r = a; for (auto& c : r) for (double& v : c.u) v *= s; return r; }
  static CS plus(const CS& a, const CS& b) { CS r = a; for (size_t t = 0; t < r.size(); t++) { for (size_t i = 0; i < r[t].u.size(); i++) r[t].u[i] += b[t].u[i]; r[t].k = b[t].k; } return r; }
  bool apply(int op, Ctl& x) { int i = op & 1, k = op / 2; ControlSequence &q = x.q[i], &o = x.q[1 - i]; CS &m = x.m[i], &mo = x.m[1 - i]; std::string n = i ? "second" : "first"; static const double SC[] = {-2, 0.5, 0};
    if (k == 0) { if (m == mo) return false; q = o; m = mo; trail.push_back(n + " = other"); }
    else if (k == 1) { const ControlSequence& self = q; q = self; trail.push_back(n + " = itself"); }
    else if (k < 5) { q = o * SC[k - 2]; m = times(mo, SC[k - 2]); trail.push_back(n + " = other * " + std::to_string(SC[k - 2])); }
    else if (k == 5) { q = -1.5 * q; m = times(m, -1.5); trail.push_back(n + " = -1.5 * itself"); }
    else if (k == 6) { q *= 4; m = times(m, 4); trail.push_back(n + " *= 4"); }
    else if (k == 7) { if (!fit(m, mo)) return false; q += o; m = plus(m, mo); trail.push_back(n + " += other"); }
    else if (k == 8) { const ControlSequence& self = q; q += self; m = plus(m, m); trail.push_back(n + " += itself"); }
    else if (k == 9) { if (!fit(m, mo)) return false; q = q + o; m = plus(m, mo); trail.push_back(n + " = itself + other"); }
    else if (k == 10) { if (!fit(m, mo)) return false; q = o + 0.5 * q; m = plus(mo, times(m, 0.5)); trail.push_back(n + " = other + 0.5 * itself"); }
    else if (k == 11) { q.resize(2, 2, 1); m.assign(2, blankc(2, 1)); trail.push_back(n + " resized to 2, 2, 1"); }
    else if (k == 12) { q.resize(0, 1, 2); m.clear(); trail.push_back(n + " resized to 0"); }
    else if (k == 13) { if (m.empty()) return false; fill(q.control(m.size() - 1), m.back(), 3 + i); trail.push_back(n + " last written"); }
    else if (k == 14) { if (m.size() < 2) return false; q.control(0) = q.control(1); m[0] = m[1]; trail.push_back(n + " control 0 = control 1"); }
    else if (k == 15) { if (m.empty() || mo.empty()) return false; q.control(0) = -2 * o.control(mo.size() - 1); C c = mo.back(); for (double& v : c.u) v *= -2; m[0] = c; trail.push_back(n + " control 0 = -2 * other's last"); }
    else { if (m.empty()) return false; q.control(0).setZero(); std::fill(m[0].u.begin(), m[0].u.end(), 0.); trail.push_back(n + " control 0 set to zero"); }
    return small(m); }
  std::string describe() { std::string s = "controls:"; for (auto& t : trail) s += " " + t + ";"; return s; }
  bool compare(const Ctl& x) { size_t h = 9; for (int i = 0; i < 2; i++) { if (x.q[i].size() != int(x.m[i].size())) { vp::fail("controls:size", describe() + ": sequence " + std::to_string(i + 1) + " has " + std::to_string(x.q[i].size()) + " controls, expected " + std::to_string(x.m[i].size())); return false; }
      for (size_t t = 0; t < x.m[i].size(); t++) { L g = flat(x.q[i].control(t)), e = flat(x.m[i][t]); h = hash(e, h); if (!same(g, e)) { vp::fail("controls:value", describe() + ": control " + std::to_string(t) + " of sequence " + std::to_string(i + 1) + " (rows and columns of the gains, size, gains, feedforward) is " + str(g) + ", expected " + str(e)); return false; } } h = h * 31 + i; }
    visit(h); if (fit(x.m[0], x.m[1]) && !x.m[0].empty()) { double e = 0; bool eq = true; for (size_t t = 0; t < x.m[0].size(); t++) { double w = 0; for (size_t i = 0; i < x.m[0][t].u.size(); i++) w = std::max(w, std::fabs(x.m[0][t].u[i]) / (std::fabs(x.m[1][t].u[i]) + 1)); eq = eq && x.m[0][t].n > 0; e += w; } e /= x.m[0].size(); double g = ControlSequence::controlSequenceGradientNorm(x.q[0], x.q[1]);
      if (eq && !(std::fabs(g - e) <= 1e-12 * (1 + e))) { vp::fail("controls:norm", describe() + ": relative size " + std::to_string(g) + ", expected " + std::to_string(e)); return false; } } return true; }
  bool explore(const Ctl& x, int d) { if (!compare(x)) return false; if (d == depth) return true; for (int op = 0; op < OPS; op++) { Ctl y{{x.q[0], x.q[1]}, {x.m[0], x.m[1]}}; size_t l = trail.size(); bool go = apply(op, y); vp::tick(); bool ok = !go || explore(y, d + 1); trail.resize(l); if (!ok) return false; } return true; }
  void run() { static const int D[][3] = {{0, 1, 1}, {1, 1, 1}, {1, 2, 1}, {2, 1, 2}, {2, 2, 2}, {3, 2, 1}}; depth = vp::thorough() ? 5 : 4;
    for (auto& a : D) for (auto& b : D) for (int op = 0; op < OPS; op++) { if (!vp::next("controls")) continue; Ctl x; const int* dim[2] = {a, b};
      for (int i = 0; i < 2; i++) { x.q[i] = ControlSequence(dim[i][0], dim[i][1], dim[i][2]); x.m[i].assign(dim[i][0], blankc(dim[i][1], dim[i][2])); trail.clear(); }
      trail.push_back(std::to_string(a[0]) + " steps of " + std::to_string(a[1]) + " states and " + std::to_string(a[2]) + " controls, " + std::to_string(b[0]) + " of " + std::to_string(b[1]) + " and " + std::to_string(b[2])); if (!compare(x)) continue;
      for (int i = 0; i < 2; i++) for (int t = 0; t < dim[i][0]; t++) fill(x.q[i].control(t), x.m[i][t], 2 * t + 3 * i); if (!compare(x)) continue; if (!apply(op, x)) continue; vp::nontrivial(); explore(x, 1); vp::sample([&] { return describe(); }); } }
};

// ---- states of optimal control problems
struct StaTest { std::vector<std::string> trail; int depth; struct X { StateSequence q; LL m; StateBase s; L ms; }; enum { OPS = 19 };
  static L lin(double a, const L& x, double b, const L& y) { L r(x.size()); for (size_t i = 0; i < x.size(); i++) r[i] = a * x[i] + (y.empty() ? 0 : b * y[i]); return r; }
  bool apply(int op, X& x) { size_t n = x.m.size(); if (n == 0 && op != 14 && op != 15 && op != 5) return false; size_t l = n ? n - 1 : 0; bool fit = n && x.ms.size() == x.m[0].size() && x.m[l].size() == x.m[0].size();
    StateBase& f = x.s; trail.push_back("operation " + std::to_string(op));
    switch (op) {
      case 0: f = x.q.state(0); x.ms = x.m[0]; break;
      case 1: x.q.state(l) = f; x.m[l] = x.ms; break;
      case 2: if (!fit) return false; f = x.q.state(0) + x.q.state(l); x.ms = lin(1, x.m[0], 1, x.m[l]); break;
      case 3: if (!fit) return false; f = x.q.state(0) - f; x.ms = lin(1, x.m[0], -1, x.ms); break;
      case 4: if (!fit) return false; f += x.q.state(l); x.ms = lin(1, x.ms, 1, x.m[l]); break;
      case 5: f *= -2; x.ms = lin(-2, x.ms, 0, {}); break;
      case 6: f = 0.5 * x.q.state(l); x.ms = lin(0.5, x.m[l], 0, {}); break;
      case 7: f = x.q.state(0) * 3; x.ms = lin(3, x.m[0], 0, {}); break;
      case 8: f /= 4; x.ms = lin(0.25, x.ms, 0, {}); break;
      case 9: f = x.q.state(l) / 2; x.ms = lin(0.5, x.m[l], 0, {}); break;
      case 10: f.resize(x.m[0].size()); x.ms.assign(x.m[0].size(), 0.); break;
      case 11: { StateSequence c(x.q); for (int t = 0; t < c.size(); t++) c.state(t) *= 7; StateSequence d; d = x.q; d.state(0) /= 3; } break;     // copies changed, the originals not
      case 12: { StateSequence d = x.q; x.q = d; const StateSequence& self = x.q; x.q = self; const StateBase& sf = f; f = sf; } break;
      case 13: for (int i = 0; i < int(x.m[l].size()); i++) x.q.state(l).stateVector()(i) = x.m[l][i] = num(int(x.m[l][i]) + i + 2); break;
      case 14: x.q.resize(2, 3); x.m.assign(2, L(3, 0.)); break;
      case 15: x.q.resize(3, 2); x.m.assign(3, L(2, 0.)); break;
      case 16: if (!fit) return false; f = f + 2 * x.q.state(0) - x.q.state(l) / 2; x.ms = lin(1, lin(1, x.ms, 2, x.m[0]), -0.5, x.m[l]); break;
      case 17: if (!fit) return false; x.q.state(0) += x.q.state(l); x.m[0] = lin(1, x.m[0], 1, x.m[l]); break;
      case 18: { StateBase z(int(x.m[0].size())); f = z; x.ms.assign(x.m[0].size(), 0.); } break; }
    for (double v : x.ms) if (std::fabs(v) > 1e6) return false; return true; }
  std::string describe() { std::string s = "states:"; for (auto& t : trail) s += " " + t + ";"; return s; }
  static L flat(const StateBase& s) { L l; for (int i = 0; i < s.stateVector().size(); i++) l.push_back(s.stateVector()(i)); return l; }
  bool compare(const X& x) { if (x.q.size() != int(x.m.size())) { vp::fail("states:size", describe() + ": " + std::to_string(x.q.size()) + " states, expected " + std::to_string(x.m.size())); return false; } size_t h = hash(x.ms, 11); for (size_t t = 0; t < x.m.size(); t++) { h = hash(x.m[t], h); if (!same(flat(x.q.state(t)), x.m[t])) { vp::fail("states:value", describe() + ": state " + std::to_string(t) + " is " + str(flat(x.q.state(t))) + ", expected " + str(x.m[t])); return false; } }
    visit(h); if (!same(flat(x.s), x.ms)) { vp::fail("states:value", describe() + ": the single state is " + str(flat(x.s)) + ", expected " + str(x.ms)); return false; } return true; }
  bool explore(const X& x, int d) { if (!compare(x)) return false; if (d == depth) return true; for (int op = 0; op < OPS; op++) { X y(x); size_t l = trail.size(); bool go = apply(op, y); vp::tick(); bool ok = !go || explore(y, d + 1); trail.resize(l); if (!ok) return false; } return true; }
  void run() { depth = vp::thorough() ? 6 : 5; for (int n = 0; n <= 3; n++) for (int d = 1; d <= 3; d++) for (int op = 0; op < OPS; op++) { if (!vp::next("states")) continue; X x; x.q = StateSequence(n, d); x.m.assign(n, L(d, 0.)); x.s = StateBase(d); x.ms.assign(d, 0.); trail.assign(1, std::to_string(n) + " states of " + std::to_string(d)); if (!compare(x)) continue;
      for (int t = 0; t < n; t++) for (int i = 0; i < d; i++) x.q.state(t).stateVector()(i) = x.m[t][i] = num(2 * t + 3 * i); for (int i = 0; i < d; i++) x.s.stateVector()(i) = x.ms[i] = num(4 + i); if (!compare(x) || !apply(op, x)) continue; vp::nontrivial(); explore(x, 1); vp::sample([&] { return describe(); }); } }
};

// ---- sequences of robots with other numbers of joints
static bool zero(const KinematicsState& s, int j) { const RobotPosture& p = s.robotPosture(); Eigen::VectorXd g = p.generalizedJointPositions(); bool ok = s.numJoints() == j && p.jointPositions().size() == j && p.jointPositions().isZero(0) && g.size() == j + 7 && s.robotVelocity().generalizedJointVelocities().size() == j + 6 && s.robotVelocity().generalizedJointVelocities().isZero(0) && s.robotVelocity().jointVelocities().size() == j && s.robotAcceleration().generalizedJointAccelerations().size() == j + 6 && s.robotAcceleration().generalizedJointAccelerations().isZero(0) && s.robotAcceleration().jointAccelerations().size() == j; for (int i = 0; ok && i < j + 7; i++) ok = g(i) == (i == 6 ? 1. : 0.); return ok; }
static void joints(int n1, int j1, int n2, int j2) { std::string w = std::to_string(n1) + " states of " + std::to_string(j1) + " joints, then " + std::to_string(n2) + " of " + std::to_string(j2); KinematicsSequence q; q.resize(n1, j1);
  for (int t = 0; t < n1; t++) { if (!zero(q.kinematicsState(t), j1)) { vp::fail("joints:fresh", w + ": wrong before"); return; } KinematicsState& s = q.kinematicsState(t); s.robotPosture().basePosition() = V3(1, 2, 3); Eigen::VectorXd v(j1); for (int i = 0; i < j1; i++) v(i) = 4 + i; s.robotPosture().jointPositions(v); s.robotVelocity().jointVelocities(v); s.robotAcceleration().generalizedJointAccelerations().setConstant(3);
    if (s.robotPosture().generalizedJointPositions().tail(j1) != v || s.robotVelocity().generalizedJointVelocities().tail(j1) != v || !s.robotVelocity().generalizedJointVelocities().head(6).isZero(0) || (j1 && s.robotAcceleration().jointAccelerations()(0) != 3)) { vp::fail("joints:write", w + ": joints written read otherwise"); return; } }
  KinematicsSequence c(q); q.resize(n2, j2); if (q.size() != n2) { vp::fail("joints:size", w + ": " + std::to_string(q.size()) + " states"); return; } for (int t = 0; t < n2; t++) if (!zero(q.kinematicsState(t), j2)) { vp::fail("joints:fresh", w + ": state " + std::to_string(t) + " is not a new one"); return; }
  if (n1 && n2) { q.kinematicsState(0) = c.kinematicsState(n1 - 1); const KinematicsState& s = q.kinematicsState(0); if (s.numJoints() != j1 || s.robotPosture().generalizedJointPositions() != c.kinematicsState(n1 - 1).robotPosture().generalizedJointPositions() || s.robotVelocity().jointVelocities().size() != j1 || s.robotPosture().generalizedJointPositions().size() != j1 + 7) vp::fail("joints:copy", w + ": a state of the first copied into the second differs"); }
  vp::nontrivial(); }

int main(int argc, char** argv) { vp::init(argc, argv);
  auto D = dynFields(); auto K = kinFields(); DynamicsState ds; KinematicsState ks(J);
  fields<DynamicsState>(D, ds, "dynamics_fields"); fields<KinematicsState>(K, ks, "kinematics_fields");
  { SeqTest<DynamicsState, DynamicsSequence> t(D, ds, "dynamics_sequences", vp::thorough() ? 4 : 3); t.run(); } { SeqTest<KinematicsState, KinematicsSequence> t(K, ks, "kinematics_sequences", vp::thorough() ? 4 : 3); t.run(); }
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int c = 0; c < 4; c++) for (int d = 0; d < 4; d++) if (vp::next("joints")) joints(a, 3 * b, c, d);
  { CtlTest t; t.run(); } { StaTest t; t.run(); }
  return vp::finish(); }
