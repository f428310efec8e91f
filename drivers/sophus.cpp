// Helpers, interpolators and formatters for rigid transformations (over the stand-in of the Sophus library).
#include "drv.hpp"
#include <cmath>
#include <ecl/linear_algebra/sophus/helpers.hpp>
#include <ecl/linear_algebra/sophus/interpolators.hpp>
#include <ecl/linear_algebra/sophus/formatters.hpp>
using namespace ecl; using namespace Sophus;
static const double R = M_PI / 180;
struct G { double a, x, y; }; // p -> rotation by a (degrees) of p, plus (x, y)
static G mul(const G &l, const G &r) { double c = std::cos(l.a * R), s = std::sin(l.a * R); return G{l.a + r.a, l.x + c * r.x - s * r.y, l.y + s * r.x + c * r.y}; }
static G inv(const G &g) { double c = std::cos(g.a * R), s = std::sin(g.a * R); return G{-g.a, -(c * g.x + s * g.y), s * g.x - c * g.y}; }
static double turn(double d) { return std::fabs(std::remainder(d, 360)); }
static SE3f up(const G &g, double z = 0) { return SE3f(Eigen::Quaternionf(Eigen::AngleAxisf(g.a * R, Eigen::Vector3f::UnitZ())), Eigen::Vector3f(g.x, g.y, z)); }
static SE2f flat2(const G &g) { return SE2f(float(g.a * R), Eigen::Vector2f(g.x, g.y)); }
static bool down(const SE3f &t, G &g) { Eigen::Matrix3f m = t.rotationMatrix(); if (std::fabs(m(2, 2) - 1) > 1e-4 || std::fabs(m(2, 0)) + std::fabs(m(2, 1)) > 1e-3 || std::fabs(t.translation().z()) > 1e-3) return false; g = G{std::atan2(m(1, 0), m(0, 0)) / R, t.translation().x(), t.translation().y()}; return true; }
static bool same(const G &p, const G &q) { return turn(p.a - q.a) < .05 && std::fabs(p.x - q.x) + std::fabs(p.y - q.y) < 2e-3 * (1 + std::fabs(q.x) + std::fabs(q.y)); }
static std::string near(double v) { double k = std::floor(v + .5); return std::fabs(v - k) < 1e-3 * (1 + std::fabs(v)) ? std::to_string((long)k) : "between"; }
static std::string blank(std::string t) { for (char &c : t) if (c == ' ') c = '_'; return t; }
static std::unique_ptr<Format<SE3f>> fm; static SE3f shown;
void drv_reset() { fm.reset(); }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; if (o == "mode") return "ok";
  try {
    if (o == "between") { // kind, a, step, n, k: b is n steps from a; where is k n-ths of the way?
      long kind = c.i(0), n = c.i(3), k = c.i(4); auto va = c.li(1), vs = c.li(2); G a = {(double)va[0], (double)va[1], (double)va[2]}, st = {(double)vs[0], (double)vs[1], (double)vs[2]};
      std::vector<G> w = {a}; for (long j = 0; j < n; ++j) w.push_back(mul(st, w.back())); G g; double t = (double)k / n;
      if (kind == 0) { if (!down(Interpolator<SE3f>(up(a), up(w[n]))(t), g)) return "off the plane"; }
      else if (kind == 1) { if (!down(PlanarInterpolator(up(a), up(w[n]))(t), g)) return "off the plane"; }
      else if (kind == 2) { SE2f r = Interpolator<SE2f>(flat2(a), flat2(w[n]))(t); g = G{r.so2().log() / R, r.translation().x(), r.translation().y()}; }
      else { if (!down(SlidingInterpolator(up(a), up(w[n]))(t), g)) return "off the plane"; G p = inv(a), q = inv(w[n]), h = inv(g); long at = -1; if (turn(g.a - w[k].a) < .05) at = k; else for (long j = 0; j <= n; ++j) if (turn(g.a - w[j].a) < .05) { at = j; break; }
        double ex = p.x + t * (q.x - p.x), ey = p.y + t * (q.y - p.y); return std::to_string(at) + (std::fabs(h.x - ex) + std::fabs(h.y - ey) < 2e-3 * (1 + std::fabs(ex) + std::fabs(ey)) ? ";straight" : ";aside"); }
      for (long j = 0; j <= n; ++j) if (same(g, w[j])) { if (same(w[k], w[j])) return std::to_string(k); return std::to_string(j); } return "elsewhere"; }
    if (o == "coplanar") { PlanarInterpolator p(up(G{(double)c.i(0), 1, 2}, c.i(1)), up(G{(double)c.i(2), 3, -1}, c.i(3))); return "ok"; }
    if (o == "pose") { auto v = c.li(1); Eigen::Vector3f p(v[0], v[1], v[2] * R); SE3f t = c.i(0) ? Converter<SE3f, Eigen::Vector3f>()(p) : toPose3D(p); auto q = c.li(2); Eigen::Vector3f m = t * Eigen::Vector3f(q[0], q[1], q[2]), b = c.i(0) ? Converter<Eigen::Vector3f, SE3f>()(t) : toPose2D(t);
      long d = std::lround(b.z() / R); if (std::fabs(b.z() / R - d) > .01) return "between"; return near(m.x()) + "," + near(m.y()) + "," + near(m.z()) + ";" + near(b.x()) + "," + near(b.y()) + "," + std::to_string(((d % 360) + 360) % 360); }
    if (o == "quaternion") { float th = c.i(1) * R; Eigen::Quaternionf q; if (c.i(0)) PlanarRotation2Quaternion().convert(th, q); else q = PlanarRotation2Quaternion()(th); auto v = c.li(2); Eigen::Vector3f m = q * Eigen::Vector3f(v[0], v[1], v[2]); if (std::fabs(q.norm() - 1) > 1e-5) return "not of length one"; return near(m.x()) + "," + near(m.y()) + "," + near(m.z()); }
    if (o == "points") { auto v = c.li(0); SE3fPtr t = points2DToSophusTransform(v[0], v[1], v[2], v[3]); double d = std::hypot(v[2] - v[0], v[3] - v[1]); Eigen::Vector3f f = *t * Eigen::Vector3f(0, 0, 0), m = *t * Eigen::Vector3f(d, 0, 0), u = *t * Eigen::Vector3f(0, 0, 1); return near(f.x()) + "," + near(f.y()) + "," + near(f.z()) + ";" + near(m.x()) + "," + near(m.y()) + "," + near(m.z()) + ";" + near(u.z()); }
    auto quarters = [&](std::vector<long> t, std::vector<long> q) { return SE3f(Eigen::Quaternionf(q[3] / 2.0f, q[0] / 2.0f, q[1] / 2.0f, q[2] / 2.0f), Eigen::Vector3f(t[0] / 4.0f, t[1] / 4.0f, t[2] / 4.0f)); };
    if (o == "stream") { std::ostringstream s; if (c.i(0)) { s << quarters(c.li(1), c.li(2)); } else { auto v = c.li(1); s << SE2f(0.0f, Eigen::Vector2f(v[0] / 4.0f, v[1] / 4.0f)); } std::string x, u; std::istringstream in(s.str()); while (in >> u) x += (x.empty() ? "" : "_") + u; return x; } // Eigen aligns its columns
    // the formatter
    if (o == "format") { fm.reset(new Format<SE3f>); return "ok"; }
    if (o == "set") { if (c.i(0)) fm->width(c.i(1)); else fm->precision(c.i(1)); return std::to_string(fm->width()) + "," + std::to_string(fm->precision()); }
    if (o == "give") { shown = quarters(c.li(0), c.li(1)); if (c.a.size() > 2) (*fm)(shown, c.i(2), c.i(3)); else (*fm)(shown); return "ok"; }
    if (o == "print") { std::ostringstream s; s << *fm; std::string t = blank(s.str()); return t.empty() ? "nothing" : t; }
  } catch (const StandardException &e) { return "throw:" + std::string(e.flag() == InvalidArgError ? "InvalidArg" : e.flag() == UsageError ? "Usage" : "other"); }
  return "?";
}
