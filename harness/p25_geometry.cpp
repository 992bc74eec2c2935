// Terrain regions and orientation utilities: what they return is the geometry of the polygons and rotations given.
#include "vp.hpp"
#include <fstream>
#include <unistd.h>
#include <momentumopt/cntopt/TerrainDescription.hpp>
#include <momentumopt/utilities/OrientationUtils.hpp>
using namespace momentumopt;
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3; typedef Eigen::Quaterniond Q; typedef Eigen::Matrix<double, Eigen::Dynamic, 3> P;
static std::string num(double x) { char b[40]; std::snprintf(b, 40, "%.17g", x); return b; }
template <class A> static std::string sq(const A& a) { std::string s = "["; for (int i = 0; i < a.size(); i++) s += (i ? ", " : "") + num(a[i]); return s + "]"; }
static std::string qs(const Q& q) { return sq(Eigen::Vector4d(q.w(), q.x(), q.y(), q.z())); }
// rotation matrices by Rodrigues' formula, rotation vectors from them: independent of the quaternion code
static M3 hat(const V3& v) { M3 m; m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0; return m; }
static M3 expo(const V3& v) { double a = v.norm(); M3 k = hat(v); return a < 1e-8 ? M3(M3::Identity() + k + .5 * k * k) : M3(M3::Identity() + std::sin(a) / a * k + (1 - std::cos(a)) / a / a * k * k); }
static V3 loga(const M3& R) { V3 s(R(2, 1) - R(1, 2), R(0, 2) - R(2, 0), R(1, 0) - R(0, 1)); s *= .5; double n = s.norm(), a = std::atan2(n, .5 * (R.trace() - 1)); return n < 1e-10 ? V3(s) : V3(a / n * s); }
static Q quat(const V3& v, int form) { double a = v.norm(); Q q = a < 1e-12 ? Q(1, v.x() / 2, v.y() / 2, v.z() / 2) : Q(std::cos(a / 2), std::sin(a / 2) / a * v.x(), std::sin(a / 2) / a * v.y(), std::sin(a / 2) / a * v.z()); double f = form == 1 ? -1 : form == 2 ? 3 : form == 3 ? -0.2 : 1; q.coeffs() *= f; return q; }
static double angle(const M3& A, const M3& B) { return loga(A.transpose() * B).norm(); }

int main(int argc, char** argv) {
  vp::init(argc, argv); bool th = vp::thorough();
  std::vector<V3> dirs; for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) dirs.push_back(V3(x, 1.3 * y, 0.8 * z).normalized());
  std::vector<double> ang = {0, 1e-4, 0.009, 0.02, 0.2, 0.27, 0.29, 0.38, 0.5, 0.7, 1, 2, 3}; if (th) ang.insert(ang.end(), {1e-9, 0.0101, 0.1, 0.33, 0.44, 1.57, 2.5, 3.1});
  std::vector<V3> rots; for (double a : ang) for (size_t i = 0; i < dirs.size(); i++) { if (a == 0 && i) break; rots.push_back(a * dirs[i]); }
  // orientations: all current orientations x rotations to the desired one (stride over the second in the quick tier) x signs and lengths of the quaternions
  for (size_t c = 0; c < rots.size(); c++) if (vp::next("orientation")) for (size_t r = (th ? 0 : c % 3); r < rots.size(); r += th ? 1 : 3) {
    M3 C = expo(rots[c]), D = expo(rots[r]) * C; int f = c + r; Q qc = quat(rots[c], f % 4), qd = quat(loga(D), f / 4 % 4); double w = rots[r].norm(); if (loga(D).norm() > 3.14 || w > 3.13) continue; vp::count("pairs");
    // small rotations are taken as twice the vector part (documented in the code): a third of a percent
    double tol = 4e-3 * w + 1e-9; auto where = [&] { return " from " + qs(qc) + " to " + qs(qd); };
    V3 e = orientationError(qd, qc); if (!((e - rots[r]).norm() <= tol)) { vp::fail("orientation:error", "orientation error is " + sq(e) + ", not " + sq(rots[r]) + where()); break; }
    bool bad = false; for (int body = 0; body < 2; body++) for (double dt : {0.01, 0.5, 2.0}) {
      V3 want = (body ? V3(C.transpose() * rots[r]) : rots[r]) / dt, v = requiredAngularVelocity(qd, qc, dt, body); const char* k = body ? " in body coordinates" : " in world coordinates";
      if (!((v - want).norm() <= tol / dt)) { vp::fail("orientation:required", "required angular velocity is " + sq(v) + ", not " + sq(want) + k + where()); bad = true; break; }
      Q q = integrateAngularVelocity(qc, want, dt, body); if (!(std::fabs(q.norm() - 1) < 1e-9)) { vp::fail("orientation:unit", "integrated orientation is no unit quaternion: " + qs(q) + where()); bad = true; break; }
      if (!(angle(q.toRotationMatrix(), D) <= 1e-6 * w + 1e-7)) { vp::fail("orientation:integrate", "integrating " + sq(want) + k + " for " + num(dt) + " gives " + qs(q) + where()); bad = true; break; }
      Q reach = integrateAngularVelocity(qc, v, dt, body); if (!(angle(reach.toRotationMatrix(), D) <= tol + 1e-7)) { vp::fail("orientation:reach", "the required angular velocity leads elsewhere: " + qs(reach) + k + where()); bad = true; break; } }
    if (bad) break; vp::nontrivial(); }
  // more than half a turn in one step: still the rotation that was asked for
  for (size_t c = 0; c < rots.size(); c += 5) if (vp::next("turns")) for (auto& d : dirs) for (double a : {3.5, 5.0, 6.28, 9.0, 13.0}) for (int body = 0; body < 2; body++) {
    M3 C = expo(rots[c]), D = body ? M3(C * expo(a * d)) : M3(expo(a * d) * C); Q q = integrateAngularVelocity(quat(rots[c], c % 4), d, a, body); vp::nontrivial(); if (!(angle(q.toRotationMatrix(), D) < 1e-6)) vp::fail("turns", "a turn of " + num(a) + " around " + sq(d) + " gives " + qs(q)); }
  // terrain: convex polygons x planes x first vertex; single regions, then lists of them, added and read from files
  std::vector<std::vector<std::pair<double, double>>> flat = {{{0, 0}, {2, 0}, {2, 1}, {0, 1}}, {{0, 0}, {1, 0}, {0, 1}}, {{0, 0}, {3, 0}, {2, 1}, {0.5, 1.5}}, {{0, 0}, {2, -1}, {3, 1}, {1.5, 2.5}, {-0.5, 1.5}}, {{0, 0}, {1, 0}, {1.3, 0.9}}, {{1, 0}, {2, 0}, {3, 1}, {3, 2}, {1, 3}, {0, 1}}, {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}};
  struct Poly { P v; V3 n, m; }; std::vector<Poly> polys; std::vector<double> tilt = th ? std::vector<double>{0, 0.3, 0.9, 2.0, 3.0} : std::vector<double>{0, 0.4, 2.0};
  for (auto& f : flat) for (size_t s = 0; s < f.size(); s++) for (double a : tilt) for (size_t d = 0; d < dirs.size(); d += 3) { if (a == 0 && d) break; M3 R = expo(a * dirs[d]); V3 o(0.5 * d, -0.3, 0.2 * a); Poly p; p.v.resize(f.size(), 3); p.m.setZero(); for (size_t i = 0; i < f.size(); i++) { auto& x = f[(i + s) % f.size()]; V3 y = o + R * V3(x.first, x.second, 0); p.v.row(i) = y.transpose(); p.m += y / f.size(); } p.n = R.col(2); polys.push_back(p); }
  auto check = [&](const std::string& S, const TerrainRegion& t, const Poly& p, int id) {
    std::string w = " of region " + std::to_string(id) + " with vertices "; for (int i = 0; i < p.v.rows(); i++) w += sq(V3(p.v.row(i))); int n = p.v.rows(); V3 e0 = V3(p.v.row(1) - p.v.row(0)).normalized();
    if (t.terrainId() != id) { vp::fail(S + ":id", "number is " + std::to_string(t.terrainId()) + w); return; } V3 nt = t.normalToTerrain(); if (!(std::fabs(nt.norm() - 1) < 1e-9 && nt.cross(p.n).norm() < 1e-9)) { vp::fail(S + ":normal", "normal " + sq(t.normalToTerrain()) + w); return; }
    if (!((t.pointOnTerrain() - p.m).norm() < 1e-9)) { vp::fail(S + ":point", "point " + sq(t.pointOnTerrain()) + w); return; }
    auto& A = t.terrainDescriptionMatrix(); auto& b = t.terrainDescriptionVector(); if (A.rows() != n || b.size() != n) { vp::fail(S + ":halfspaces", "number of half-spaces" + w); return; }
    // points of a lattice of the plane belong to the region exactly if all half-spaces contain them; moving along the normal changes nothing
    V3 u = e0, v = p.n.cross(u); for (int i = -14; i <= 14; i++) for (int j = -14; j <= 14; j++) for (double h : {0., 1.}) { V3 x = p.m + 0.237 * i * u + 0.241 * j * v; double in = 1e9, got = 1e9; for (int k = 0; k < n; k++) { V3 a = p.v.row(k), c = p.v.row((k + 1) % n); in = std::min(in, p.n.dot((c - a).normalized().cross(x - a))); V3 y = x + h * p.n; got = std::min(got, b[k] - V3(A.row(k)).dot(y)); } if (!(std::fabs(got - in) < 1e-8)) { vp::fail(S + ":halfspaces", "a point at distance " + num(in) + " from the border has distance " + num(got) + w); return; } }
    M3 R = t.terrainRotation(); if (!((R * R.transpose() - M3::Identity()).norm() < 1e-9 && R.determinant() > 0)) { vp::fail(S + ":rotation", "rotation is no rotation" + w); return; }
    if (!(V3(R.row(2)).cross(p.n).norm() < 1e-9)) { vp::fail(S + ":axis", "third axis of the rotation is not the normal" + w); return; } if (!(std::fabs(std::fabs(V3(R.row(0)).dot(e0)) - 1) < 1e-9)) { vp::fail(S + ":edge", "first axis of the rotation is not along the first edge" + w); return; }
    if (!((t.terrainOrientation().toRotationMatrix() - R).norm() < 1e-8)) { vp::fail(S + ":orientation", "orientation and rotation differ" + w); return; } vp::nontrivial(); };
  for (size_t i = 0; i < polys.size(); i++) if (vp::next("region")) { TerrainDescription t; t.addTerrainRegion(polys[i].v); if (t.numRegions() != 1) vp::fail("region:count", "one region added, " + std::to_string(t.numRegions()) + " there"); else check("region", t.terrainRegion(0), polys[i], 0); }
  // all sequences of up to four steps: add one region, read a file of none, one or three, read another section of it
  std::string file = "terrain_" + std::to_string(getpid()) + ".yaml"; int L = th ? 5 : 4, ops = 5; long total = 1; for (int i = 0; i < L; i++) total *= ops;
  for (long code = 0; code < total; code++) if (vp::next("history")) { TerrainDescription t; std::vector<const Poly*> want; size_t at = code * 7; long c = code; vp::Quiet quiet;
    for (int i = 0; i < L; i++, c /= ops) { int op = c % ops, n = op == 1 ? 0 : op == 2 ? 1 : op == 3 ? 3 : 2; const char* sec = op == 4 ? "other_terrain" : "terrain_description";
      if (op == 0) { auto& p = polys[at++ * 31 % polys.size()]; t.addTerrainRegion(p.v); want.push_back(&p); }
      else { std::ostringstream o; auto put = [&](int m, bool keep) { o << "  regions: ["; for (int k = 0; k < m; k++) { auto& p = polys[at++ * 31 % polys.size()]; if (keep) want.push_back(&p); o << (k ? ", [" : "["); for (int r = 0; r < p.v.rows(); r++) o << (r ? ", " : "") << sq(V3(p.v.row(r))); o << "]"; } o << "]\n"; };
        if (op == 4) { o << "terrain_description:\n"; put(1, false); o << "other_terrain:\n"; put(n, true); } else { o << "terrain_description:\n"; put(n, true); o << "other_terrain:\n"; put(1, false); }
        std::ofstream(file) << o.str(); if (op == 4) t.loadFromFile(file, sec); else t.loadFromFile(file); unlink(file.c_str()); }
      if (t.numRegions() != (int)want.size()) { vp::fail("history:count", std::to_string(want.size()) + " regions given, " + std::to_string(t.numRegions()) + " there (sequence " + std::to_string(code) + ")"); break; } }
    if (t.numRegions() == (int)want.size()) for (size_t i = 0; i < want.size(); i++) check("history", t.terrainRegion(i), *want[i], i); }
  return vp::finish();
}
