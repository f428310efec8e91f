#include "drv.hpp"
#include "num.hpp"
#include <ecl/geometry/angle.hpp>
#include <ecl/geometry/linear_segment.hpp>
#ifndef VT
#define VT double
#endif
typedef VT T; typedef ecl::Angle<T> A;
static A slot[2];
static const double TOL = sizeof(T) == 4 ? 2e-4 : 1e-7;
static T rad(long d) { return (T)(d * M_PI / 180.0); }
static std::string deg(T r) { if (r > M_PI * (1 + 1e-6) || r < -M_PI * (1 + 1e-6)) return "!range"; std::string s = num((double)r * 180.0 / M_PI, TOL); return s == "-180" ? "180" : s == "-0" ? "0" : s; }
static std::string dg(const A &a) { const T &v = a; return deg(v); }
// rounding must not pile up over a history: the slot goes on from the exact value of what it answered
static std::string sn(A &a) { std::string s = dg(a); if (s[0] != '!' && s[0] != '~') a = A(rad(atol(s.c_str()))); return s; }
void drv_reset() { slot[0] = A(); slot[1] = A(); }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  auto k = [&](int j) -> A & { return slot[c.i(j)]; };
  if (o == "new") { slot[c.i(0)] = A(rad(c.i(1))); return sn(k(0)); }
  if (o == "assign") { k(0) = rad(c.i(1)); return sn(k(0)); }
  if (o == "degs") { k(0) = A::Degrees((T)c.i(1)); return sn(k(0)); }
  if (o == "rads") { k(0) = A::Radians(rad(c.i(1))); return sn(k(0)); }
  if (o == "get") return dg(k(0));
  if (o == "degrees") { T d = k(0).degrees(); std::string s = num(d, TOL); return s == "-180" ? "180" : s; }
  static A none; const A &ca = (o == "wrap" || o == "conv" || o == "line" || o == "dist") ? none : k(0);
  if (o == "plusv") return dg(ca + rad(c.i(1)));
  if (o == "minusv") return dg(ca - rad(c.i(1)));
  if (o == "plus") return dg(ca + k(1));
  if (o == "minus") return dg(ca - k(1));
  if (o == "times") return dg(ca * (T)c.i(1));
  if (o == "addv") { k(0) += rad(c.i(1)); return sn(k(0)); }
  if (o == "subv") { k(0) -= rad(c.i(1)); return sn(k(0)); }
  if (o == "add") { k(0) += k(1); return sn(k(0)); }
  if (o == "sub") { k(0) -= k(1); return sn(k(0)); }
  if (o == "mul") { k(0) *= (T)c.i(1); return sn(k(0)); }
  if (o == "rot") { k(1) = A(ca.rotationMatrix()); return sn(k(1)); }
  if (o == "mat") { A::RotationMatrix m = ca.rotationMatrix(); return num(m(0, 0), TOL) + "," + num(m(0, 1), TOL) + "," + num(m(1, 0), TOL) + "," + num(m(1, 1), TOL); }
  if (o == "wrap") { T v = rad(c.i(0)); const T cv = v; T w = ecl::wrap_angle(cv); const T &r = ecl::wrap_angle(v); if (&r != &v) return "!ref"; return r == w ? deg(w) : "!differ"; }
  if (o == "conv") return num(ecl::radians_to_degrees(rad(c.i(0))), TOL) + "," + num(ecl::degrees_to_radians((T)c.i(0)) * 180 / M_PI, TOL);
  if (o == "line" || o == "dist") { // the same at any scale (powers of two are exact)
    std::string first; for (int e : {0, -12, -30, 20, 60}) { auto S = [&](int k) { return std::ldexp((double)c.i(k), e); };
      const ecl::LinearSegment s(S(0), S(1), S(2), S(3)); std::string r;
      if (o == "line") { double dx = c.i(2) - c.i(0); if (dx == 0) dx = 1; r = num(s.A() * dx) + "," + num(s.B()) + "," + num(std::ldexp(s.C() * dx, -e)); }
      else { double dx = c.i(2) - c.i(0), dy = c.i(3) - c.i(1), L = dx * dx + dy * dy; if (L == 0) L = 1; r = num(std::ldexp(s.squaredDistanceFromPoint(S(4), S(5)) * L, -2 * e)); }
      if (!e) first = r; else if (r != first) return r + "!scale" + std::to_string(e); }
    return first; }
  return "?";
}
