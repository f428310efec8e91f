#include "drv.hpp"
#include "num.hpp"
#include <sstream>
#include <ecl/geometry/cartesian_point.hpp>
#include <ecl/geometry/homogeneous_point.hpp>
#ifndef VT
#define VT double
#endif
typedef VT T; static const bool INT = T(0.5) == 0;
typedef ecl::CartesianPoint<T, 2> P2; typedef ecl::CartesianPoint<T, 3> P3; typedef ecl::CartesianPoint<T, 4> P4;
#if defined(REALS)
typedef ecl::HomogeneousPoint<T> H; static H *h;
#endif
static P2 *p[2]; static P3 *q[2]; static P4 *n;
static const double TOL = sizeof(T) == 4 ? 1e-4 : 1e-8;
static std::string N(double v) { return num(v, TOL); }
void drv_reset() { for (int i = 0; i < 2; ++i) { delete p[i]; delete q[i]; p[i] = new P2(); q[i] = new P3(); } delete n; n = new P4();
#if defined(REALS)
  delete h; h = new H();
#endif
}
static std::string row(const P2 &a) { if (a.x() != a.positionVector()[0] || a.y() != a.positionVector()[1]) return "!vector"; return N(a.x()) + "," + N(a.y()); }
static std::string row(const P3 &a) { if (a.x() != a.positionVector()[0] || a.y() != a.positionVector()[1] || a.z() != a.positionVector()[2]) return "!vector"; return N(a.x()) + "," + N(a.y()) + "," + N(a.z()); }
static std::string row(const P4 &a) { return N(a[0]) + "," + N(a[1]) + "," + N(a[2]) + "," + N(a[3]); }
static void snap(P2 &a) { a.x((T)(std::round(a.x()) + 0.0)); a.y((T)(std::round(a.y()) + 0.0)); }
typedef ecl::linear_algebra::Matrix<T, 2, 1> V2; typedef ecl::linear_algebra::Matrix<T, 3, 1> V3; typedef ecl::linear_algebra::Matrix<T, 4, 1> V4;
#if defined(REALS)
static std::string row(const H &a) { const V4 &v = a.positionVector(); if (a.x() != v[0] || a.y() != v[1] || a.z() != v[2]) return "!vector"; return N(v[0]) + "," + N(v[1]) + "," + N(v[2]) + "," + N(v[3]); }
static std::string reals(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "rot") { P2 &a = *p[c.i(0)]; a.rotate(c.i(1) * M_PI / 2); std::string s = row(a); snap(a); return s; }
  if (o == "times") { const P2 &a = *p[c.i(0)]; return row(a * (double)c.i(1)); }
  if (o == "unit") { std::string first; for (int z : {0, -20, 20}) { P2 a((T)std::ldexp((double)p[c.i(0)]->x(), z), (T)std::ldexp((double)p[c.i(0)]->y(), z)); T m = std::ldexp((double)a.Normalize(), -z); T s = m == 0 ? 1 : m; std::string r = num((double)m * m, TOL) + "," + N(a.x() * s) + "," + N(a.y() * s); if (!z) first = r; else if (r != first) return first + "!scale:" + r; } return first; }
  if (o == "hxyz") { T x = c.i(1), y = c.i(2), z = c.i(3); switch (c.i(0)) { case 0: *h = H(x); break; case 1: *h = H(x, y, z); break; case 2: *h = H(V3(x, y, z)); break; default: { H t; t << x, y, z, T(1); *h = t; } } return row(*h); }
  if (o == "hvec4") { try { H t(V4(c.i(1), c.i(2), c.i(3), c.i(4))); *h = t; return row(*h); } catch (const ecl::StandardException &e) { return e.flag() == ecl::InvalidInputError ? "InvalidInput" : "!flag"; } }
  if (o == "hset") { T v = c.i(1); switch (c.i(0)) { case 0: h->x(v); break; case 1: h->y(v); break; default: h->z(v); } return row(*h); }
  if (o == "hget") { std::ostringstream s; s << *h; H g = *h; if (g.x() != h->x() || g.y() != h->y() || g.z() != h->z()) return "!get"; return row(*h) + s.str(); }
  return "?";
}
#endif
// the same at any scale (not for whole numbers)
static P2 scaled(const P2 &a, int z) { return INT ? a : P2((T)std::ldexp((double)a.x(), z), (T)std::ldexp((double)a.y(), z)); }
template <class F> static std::string anyscale(F f) { std::string first = f(0); if (!INT) for (int z : {-20, 20}) { std::string r = f(z); if (r != first) return first + "!scale" + std::to_string(z) + ":" + r; } return first; }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  auto A = [&](int j) -> P2 & { return *p[c.i(j)]; };
  try {
  if (o == "new") { T x = c.i(2), y = c.i(3); switch (c.i(1)) { case 0: A(0) = P2(x); break; case 1: A(0) = P2(x, y); break; case 2: A(0) = P2(V2(x, y)); break; case 3: A(0) << x, y; break; default: A(0).positionVector() = V2(x, y); } return row(A(0)); }
  if (o == "setx") { A(0).x((T)c.i(1)); return row(A(0)); }
  if (o == "sety") { A(0).y((T)c.i(1)); return row(A(0)); }
  if (o == "at") { const P2 &k = A(0); T v = k[c.i(1)]; if (v != A(0)[c.i(1)]) return "!differ"; return N(v); }
  if (o == "put") { A(0)[c.i(1)] = (T)c.i(2); return row(A(0)); }
  if (o == "copy") { if (c.i(0) == c.i(1)) A(0) = A(1); else { P2 t(A(1)); A(0) = t; } return row(A(0)); }
  if (o == "eq") return anyscale([&](int z) { const P2 a = scaled(A(0), z), b = scaled(A(1), z); return std::string(a == b ? "1" : "0") + (a != b ? "1" : "0"); });
  if (o == "angle") return anyscale([&](int z) { std::string s = N(scaled(A(0), z).get_angle() * 180 / M_PI); return s == "-180" ? std::string("180") : s; });
  if (o == "inc") { A(0) += A(1); return row(A(0)); }
  if (o == "plus") { const P2 &a = A(0), &b = A(1); P2 t = a + b; A(2) = t; return row(A(2)); }
  if (o == "minus") { const P2 &a = A(0), &b = A(1); P2 t = a - b; A(2) = t; return row(A(2)); }
  if (o == "dist") return anyscale([&](int z) { P2 a = scaled(A(0), z), b = scaled(A(1), z); double d = a.distance(b); if (!INT) d = std::ldexp(d, -z); return d < 0 ? std::string("!neg") : num(d * d, TOL); });
  if (o == "norm") { if (A(0).size() != 2) return "!size"; if (!INT) for (int z : {-20, 20}) { P2 a = scaled(A(0), z); if (num(std::ldexp((double)a.Norm(), -z), TOL) != num(A(0).Norm(), TOL)) return "!scale"; } double d = A(0).Norm(); return d < 0 ? "!neg" : num(d * d, TOL); }
  if (o == "show") { std::ostringstream s; s << A(0); s << A(0).size(); return s.str(); }
  if (o == "q3") { P3 &k = *q[c.i(0)]; T x = c.i(2), y = c.i(3), z = c.i(4); switch (c.i(1)) { case 0: k = P3(x); break; case 1: k = P3(x, y, z); break; case 2: k = P3(V3(x, y, z)); break; default: k << x, y, z; } return row(k); }
  if (o == "q3set") { P3 &k = *q[c.i(0)]; T v = c.i(2); switch (c.i(1)) { case 0: k.x(v); break; case 1: k.y(v); break; default: k.z(v); } if (k.x() != k.positionVector()[0] || k.y() != k.positionVector()[1] || k.z() != k.positionVector()[2]) return "!get"; return row(k); }
  if (o == "q3copy") { *q[c.i(0)] = *q[c.i(1)]; return row(*q[c.i(0)]); }
  if (o == "q3show") { std::ostringstream s; s << *q[c.i(0)] << q[c.i(0)]->size(); return s.str(); }
  if (o == "nnew") { std::vector<long> l = c.li(1); if (c.i(0) == 0) *n = P4((T)l[0]); else if (c.i(0) == 1) *n = P4(V4(l[0], l[1], l[2], l[3])); else *n << (T)l[0], (T)l[1], (T)l[2], (T)l[3]; return row(*n); }
  if (o == "nset") { (*n)[c.i(0)] = (T)c.i(1); return row(*n); }
  if (o == "nget") { const P4 &k = *n; T v = k[c.i(0)]; if (v != n->positionVector()[c.i(0)]) return "!vector"; return N(v); }
  } catch (const ecl::StandardException &e) { return e.flag() == ecl::OutOfRangeError ? "OutOfRange" : "!flag"; }
#if defined(REALS)
  return reals(c);
#endif
  return "?";
}
