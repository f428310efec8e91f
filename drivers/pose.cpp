#include "drv.hpp"
#include "num.hpp"
#include <ecl/geometry/legacy_pose2d.hpp>
#include <ecl/geometry/legacy_pose3d.hpp>
#include <ecl/geometry/pose2d.hpp>
using namespace ecl;
typedef VT T;
#if VP == 0 || VP == 1
#if VP == 0
typedef LegacyPose2D<T, RotationMatrixStorage> P; typedef LegacyPose2D<T, RotationAngleStorage> O;
#else
typedef LegacyPose2D<T, RotationAngleStorage> P; typedef LegacyPose2D<T, RotationMatrixStorage> O;
#endif
#else
typedef ecl::Pose2D<T> P;
#endif
typedef LegacyPose3D<T> P3; typedef linear_algebra::Matrix<T, 3, 1> V3; typedef linear_algebra::Matrix<T, 2, 1> V2; typedef linear_algebra::Matrix<T, 2, 2> M2; typedef linear_algebra::Matrix<T, 3, 3> M3;
static P p[2]; static P3 q[2];
static const double TOL = sizeof(T) == 4 ? 1e-3 : 1e-6;
static std::string n(double v) { std::string s = num(v, TOL); return s; }
static std::string dg(double r) { std::string s = num(r * 180 / M_PI, TOL); return s == "-180" ? "180" : s; }
static T rad(long k) { return (T)(k * M_PI / 2); }
static M2 mat(long k) { M2 m; T c = std::cos(rad(k)), s = std::sin(rad(k)); m << c, -s, s, c; return m; }
static std::string sh(const P &a) { return n(a.x()) + "," + n(a.y()) + "," + dg((T)a.heading()); }
static std::string sh3(const P3 &a) { std::string r; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) r += (j ? "," : "") + n(a.rotation()(i, j)); r += ";"; } for (int i = 0; i < 3; ++i) r += (i ? "," : "") + n(a.translation()(i)); return r; }
static std::string m2(const M2 &m) { return n(m(0, 0)) + "," + n(m(0, 1)) + "," + n(m(1, 0)) + "," + n(m(1, 1)); }
static M3 ax(int a, long k) { M3 m = M3::Identity(); T c = std::round(std::cos(rad(k))), s = std::round(std::sin(rad(k))); int i = a % 3, j = (a + 1) % 3; m(i, i) = c; m(i, j) = -s; m(j, i) = s; m(j, j) = c; return m; }
static P mk(const std::vector<long> &v) {
#if VP == 2
  V3 x; x << v[0], v[1], rad(v[2]); return P(x);
#else
  return P(v[0], v[1], Angle<T>(rad(v[2])));
#endif
}
// rounding must not pile up over a history
static std::string keep(P &a) { std::string r = sh(a); long x, y, d; if (sscanf(r.c_str(), "%ld,%ld,%ld", &x, &y, &d) == 3 && d % 90 == 0) a = mk({x, y, d / 90}); return r; }
static std::string keep3(P3 &a) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { T &v = a.rotation()(i, j); if (std::fabs(v - std::round(v)) < TOL) v = std::round(v); } for (int i = 0; i < 3; ++i) { T &v = a.translation()(i); if (std::fabs(v - std::round(v)) < TOL * std::max(1.0, (double)std::fabs(v))) v = std::round(v); } return sh3(a); }
// rotations by the angles of the 3-4-5 triangles; whole numbers of 1/25 and 1/625
static const double C5[12] = {5, 0, -5, 0, 3, -3, 3, -3, 4, -4, 4, -4}, S5[12] = {0, 5, 0, -5, 4, 4, -4, -4, 3, 3, -3, -3};
static T ang(long r) { return (T)std::atan2(S5[r], C5[r]); }
static std::string nn(double v, double f) { double r = std::round(v * f); if (std::isfinite(r) && std::fabs(v * f - r) <= (sizeof(T) == 4 ? .05 : 1e-7)) return std::to_string((long long)r); char b[48]; snprintf(b, sizeof b, "~%.9g", v * f); return b; }
static std::string shp(const P &a) { double h = a.heading(); if (h <= -M_PI - 1e-6 || h > M_PI + 1e-6) return "!range"; return nn(a.x(), 250) + "," + nn(a.y(), 250) + "," + nn(std::cos(h), 25) + "," + nn(std::sin(h), 25); }
static M2 mat5(long r) { M2 m; m << C5[r] / 5, -S5[r] / 5, S5[r] / 5, C5[r] / 5; return m; }
static P mkp(long w, long x10, long y10, long r) {
  double x = x10 / 10.0, y = y10 / 10.0;
#if VP == 2
  if (w % 2) return P((T)x, (T)y, ang(r));
  V3 v; v << x, y, ang(r); return P(v);
#else
  V2 t(x, y); Angle<T> a(ang(r));
  switch (w) { case 0: return P(x, y, a); case 1: return P(a, t); case 2: return P(mat5(r), t); default: { P z; z.setPose(x, y, a); return z; } }
#endif
}
#if VP != 2
static M3 ax5(int a, long r) { M3 m = M3::Identity(); int i = a % 3, j = (a + 1) % 3; m(i, i) = m(j, j) = C5[r] / 5; m(i, j) = -S5[r] / 5; m(j, i) = S5[r] / 5; return m; }
static P3 mkp3(const std::vector<long> &v) { // way, axis, rotation, axis, rotation, translation
  V3 t(v[5], v[6], v[7]); V3 u = V3::Zero(), w = V3::Zero(); u(v[1] - 1) = 1; w(v[3] - 1) = 1; Eigen::AngleAxis<T> a(ang(v[2]), u), b(ang(v[4]), w);
  switch (v[0]) { case 0: return P3(M3(ax5(v[1], v[2]) * ax5(v[3], v[4])), t); case 1: return P3(Eigen::Quaternion<T>(a * b), t); case 2: { P3 z(a, t); z.rotation(z.rotation() * ax5(v[3], v[4])); return z; } default: { P3 z(b, t); z.rotation(ax5(v[1], v[2]) * z.rotationMatrix()); return z; } }
}
static std::string shp3(const P3 &a) { std::string r; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) r += nn(a.rotation()(i, j), 625) + ","; r += nn(a.translation()(i), 250) + ";"; } return r; }
#endif
void drv_reset() { for (int i = 0; i < 2; ++i) { p[i] = P(); q[i] = P3(); } }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; int k = c.i(0);
  if (o == "any") { // operation, way, x, y, rotation, way, x, y, rotation: tenths
    std::string f = c.s(0); P a = mkp(c.i(1), c.i(2), c.i(3), c.i(4)), b = mkp(c.i(5), c.i(6), c.i(7), c.i(8));
    if (f == "get") { M2 m = a.rotationMatrix(); if (a.x() != a.translation()(0) || a.y() != a.translation()(1)) return "!t"; return nn(a.x(), 250) + "," + nn(a.y(), 250) + "," + nn(m(0, 0), 25) + "," + nn(m(0, 1), 25) + "," + nn(m(1, 0), 25) + "," + nn(m(1, 1), 25); }
#if VP == 2
    if (f == "mul") { P z = a; z *= b; std::string r = shp(a * b), r2 = shp(z); return r == r2 ? r : "!" + r + "|" + r2; }
#else
    if (f == "mul") return shp(a * b);
    if (f == "rel") return shp(a.relative(b));
    if (f == "inv") { O z(a); std::string r = shp(a.inverse()), r2 = shp(P(z.inverse())); return r == r2 ? r : "!" + r + "|" + r2; }
    if (f == "lift") return shp3(P3(a));
#endif
    return "?";
  }
#if VP != 2
  if (o == "any3") {
    std::string f = c.s(0); P3 a = mkp3(c.li(1)), b = mkp3(c.li(2));
    if (f == "get") return shp3(a); if (f == "inv") return shp3(a.inverse()); if (f == "rel") return shp3(a.relative(b));
    if (f == "imul") { a *= b; return shp3(a); }
    return shp3(a * b);
  }
#endif
#if VP != 2
  if (o == "set") { T x = c.i(2), y = c.i(3); Angle<T> a(rad(c.i(4))); V2 t(x, y);
    switch (c.i(1)) { case 0: p[k] = P(x, y, a); break; case 1: p[k] = P(a, t); break; case 2: p[k].setPose(x, y, a); break; case 3: p[k] = P(mat(c.i(4)), t); break; default: { P z(p[k]); z.translation(t); z.rotation(a); p[k] = z; } } return keep(p[k]); }
  if (o == "x") { p[k].x(c.i(1)); return keep(p[k]); }
  if (o == "y") { p[k].y(c.i(1)); return keep(p[k]); }
  if (o == "head") { Angle<T> a(rad(c.i(2))); switch (c.i(1)) { case 0: p[k].heading(a); break; case 1: p[k].rotation(a); break; case 2: p[k].rotation(mat(c.i(2))); break; default: p[k].rotationMatrix(mat(c.i(2))); } return keep(p[k]); }
  if (o == "trans") { switch (c.i(1)) { case 0: p[k].translation(c.i(2), c.i(3)); break; case 1: p[k].translation(V2(c.i(2), c.i(3))); break; default: p[k].translation() = V2(c.i(2), c.i(3)); } return keep(p[k]); }
  if (o == "ident") { if (c.i(1)) p[k].setIdentity(); else p[k] = P::Identity(); return keep(p[k]); }
  if (o == "get") { const P &a = p[k]; if (a.translation()(0) != a.x() || a.translation()(1) != a.y()) return "!t"; return sh(a) + ";" + m2(a.rotationMatrix()); }
  if (o == "copy") { O z(p[k]); P w(z); O z2; z2 = p[k]; P w2; w2 = z2; std::string a = sh(w), b = sh(w2); if (a != b) return "!" + a + "|" + b; p[c.i(1)] = w2; return keep(p[c.i(1)]); }
  if (o == "inv") { const P &a = p[k]; return sh(a.inverse()); }
  if (o == "rel") { const P &a = p[k]; return sh(a.relative(p[c.i(1)])); }
  if (o == "mul") { const P &a = p[k]; return sh(a * p[c.i(1)]); }
  if (o == "imul") {
#if VP == 0
    P &r = (p[k] *= p[c.i(1)]); if (&r != &p[k]) return "!ref";
#else
    p[k] = p[k] * p[c.i(1)];
#endif
    return keep(p[k]); }
  if (o == "lift") { P3 &t = q[c.i(2)]; if (c.i(1) == 0) t = P3(p[k]); else t = p[k]; return keep3(t); }
  if (o == "set3") { int a = c.i(2); long kk = c.i(3); V3 t(c.i(4), c.i(5), c.i(6)); V3 u = V3::Zero(); u(a - 1) = 1; Eigen::AngleAxis<T> aa(rad(kk), u);
    switch (c.i(1)) { case 0: q[k] = P3(ax(a, kk), t); break; case 1: q[k] = P3(aa, t); break; default: q[k] = P3(Eigen::Quaternion<T>(aa), t); } return keep3(q[k]); }
  if (o == "t3") { q[k].translation(V3(c.i(1), c.i(2), c.i(3))); return keep3(q[k]); }
  if (o == "r3") { q[k].rotation(ax(c.i(1), c.i(2))); return keep3(q[k]); }
  if (o == "get3") { const P3 &a = q[k]; if (a.rotationMatrix() != a.rotation()) return "!m"; return sh3(a); }
  if (o == "copy3") { P3 z(q[k]); q[c.i(1)] = z; return keep3(q[c.i(1)]); }
  if (o == "mul3") { const P3 &a = q[k]; return sh3(a * q[c.i(1)]); }
  if (o == "imul3") { q[k] *= q[c.i(1)]; return keep3(q[k]); }
  if (o == "inv3") { const P3 &a = q[k]; return sh3(a.inverse()); }
  if (o == "rel3") { const P3 &a = q[k]; return sh3(a.relative(q[c.i(1)])); }
#else
  if (o == "set") { if (c.i(1) == 0) p[k] = P(c.i(2), c.i(3), (float)rad(c.i(4))); else p[k] = mk({c.i(2), c.i(3), c.i(4)}); if (c.i(4) > 2 || c.i(4) < -1) p[k] = mk({c.i(2), c.i(3), c.i(4) > 2 ? c.i(4) - 4 : c.i(4) + 4}); return keep(p[k]); }
  if (o == "ident") { p[k] = P(); return keep(p[k]); }
  if (o == "get") { const P &a = p[k]; V2 t = a.translation(); if (t(0) != a.x() || t(1) != a.y()) return "!t"; return sh(a) + ";" + m2(a.rotationMatrix()); }
  if (o == "mul") { const P &a = p[k]; const P &b = p[c.i(1)]; V3 x, y; x << a.x(), a.y(), a.heading(); y << b.x(), b.y(), b.heading(); P z(concatenate_poses(x, y)); std::string r = sh(a * b), r2 = sh(z); return r == r2 ? r : "!" + r + "|" + r2; }
  if (o == "imul") { if (c.i(2) == 0) { p[k] *= p[c.i(1)]; } else { P &a = p[k]; const P &b = p[c.i(1)]; V3 x, y; x << a.x(), a.y(), a.heading(); y << b.x(), b.y(), b.heading(); if (k == c.i(1)) extend_pose(x, x); else extend_pose(x, y); a = P(x); } return keep(p[k]); }
#endif
  return "?";
}
