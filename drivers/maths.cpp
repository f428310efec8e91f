#include "drv.hpp"
#include <cmath>
#include <ecl/math.hpp>
#include <ecl/math/fuzzy.hpp>
#include <ecl/type_traits.hpp>
using namespace ecl;
static std::string S(long v) { return std::to_string(v); }
static std::string rnd(double v) { double n = std::floor(v + 0.5); if (std::fabs(v - n) > 1e-6 * std::max(1.0, std::fabs(n))) return "inexact:" + std::to_string(v); return S((long)n == 0 ? 0 : (long)n); }
static std::string rndf(float v) { float n = std::floor(v + 0.5f); if (std::fabs(v - n) > 1e-4f * std::max(1.0f, std::fabs(n))) return "inexact:" + std::to_string(v); return S((long)n); }
template <class T> std::string le(T v) { std::string r; unsigned char b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); ++i) b[i] = (unsigned char)((unsigned long long)v >> (8 * i)); for (size_t i = 0; i < sizeof(T); ++i) r += (i ? "," : "") + S(b[i]); return r; }
template <class T> std::string lim() { T mn = numeric_limits<T>::minimum, mx = numeric_limits<T>::maximum, one = numeric_limits<T>::one; unsigned by = numeric_limits<T>::bytes, bi = numeric_limits<T>::bits; return S(by) + ";" + S(bi) + ";" + S((long)one) + ";" + le<T>(mn) + ";" + le<T>(mx); }
template <class T> std::string tr() { std::string r; r += is_integral<T>::value ? "1" : "0"; r += ecl::is_signed<T>::value ? "1" : "0"; r += ecl::is_unsigned<T>::value ? "1" : "0"; r += is_float<T>::value ? "1" : "0"; return r; }
#define TYPES(F) F("char", char) F("uchar", unsigned char) F("short", short) F("ushort", unsigned short) F("int", int) F("uint", unsigned int) F("long", long) F("ulong", unsigned long) F("llong", long long) F("ullong", unsigned long long)
struct Any {}; 
void drv_reset() {}
static std::string same(const std::string &a, const std::string &b) { return a == b ? a : a + "!" + b; }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "sign") { long v = c.i(0); return same(same(S(sign((int)v)), S(sign((double)v / 4))), same(S(sign(v)), S(sign((float)v)))); }
  if (o == "psign") { long v = c.i(0); return same(same(S(psign((int)v)), S(psign((double)v / 4))), same(S(psign(v)), S(psign((float)v)))); }
  if (o == "nsign") { long v = c.i(0); return same(same(S(nsign((int)v)), S(nsign((double)v / 4))), same(S(nsign(v)), S(nsign((float)v)))); }
  if (o == "cube") { double r = c.i(0); return same(rnd(cube_root(r * r * r)), rndf(cube_root((float)(r * r * r)))); }
  if (o == "norm2") { long a = c.i(0), b = c.i(1); EuclideanNorm n; std::string r = same(rnd(euclidean_norm((double)a, (double)b)), rnd(n((double)a, (double)b)));
    r = same(r, rndf(euclidean_norm((float)a, (float)b))); r = same(r, rndf(n((float)a, (float)b))); return same(r, S(euclidean_norm((int)a, (int)b))); }
  if (o == "norm3") { long a = c.i(0), b = c.i(1), d = c.i(2); EuclideanNorm n; std::string r = same(rnd(euclidean_norm((double)a, (double)b, (double)d)), rnd(n((double)a, (double)b, (double)d)));
    r = same(r, rndf(euclidean_norm((float)a, (float)b, (float)d))); return same(r, S(n((int)a, (int)b, (int)d))); }
  if (o == "approx") { double x = c.i(0) / 4.0, y = c.i(1) / 4.0, p = c.i(2) / 8.0; return same(isApprox(x, y, p) ? "1" : "0", isApprox((float)x, (float)y, (float)p) ? "1" : "0"); }
  if (o == "leq") { double x = c.i(0) / 4.0, y = c.i(1) / 4.0, p = c.i(2) / 8.0; return same(isApproxOrLessThan(x, y, p) ? "1" : "0", isApproxOrLessThan((float)x, (float)y, (float)p) ? "1" : "0"); }
  if (o == "iapprox") { return same(isApprox((int)c.i(0), (int)c.i(1)) ? "1" : "0", isApprox(c.i(0), c.i(1), 0.5f) ? "1" : "0"); }
  if (o == "ileq") { return same(isApproxOrLessThan((int)c.i(0), (int)c.i(1)) ? "1" : "0", isApproxOrLessThan(c.i(0), c.i(1), 0.5f) ? "1" : "0"); }
  if (o == "mapprox") { if (c.i(2) == 0) return same(isApprox((int)c.i(0), c.i(1) / 4.0) ? "1" : "0", isApprox((long)c.i(0), (float)(c.i(1) / 4.0)) ? "1" : "0"); return isApprox((int)c.i(0), c.i(1) / 4.0, (float)(c.i(2) / 8.0)) ? "1" : "0"; }
  if (o == "const") { const std::string &n = c.a[0];
    if (n == "pi") return S((long)std::floor(pi * 1e8)); if (n == "two_pi") return S((long)std::floor(two_pi * 1e8)); if (n == "pi_2") return S((long)std::floor(pi_2 * 1e8)); if (n == "pi_4") return S((long)std::floor(pi_4 * 1e8));
    if (n == "pi_f") return S((long)std::floor((double)pi_f * 1e6)); if (n == "two_pi_f") return S((long)std::floor((double)two_pi_f * 1e6)); if (n == "pi_2_f") return S((long)std::floor((double)pi_2_f * 1e6)); if (n == "pi_4_f") return S((long)std::floor((double)pi_4_f * 1e6)); }
#define L(n, T) if (o == "limits" && c.a[0] == n) return lim<T>(); if (o == "traits" && c.a[0] == n) return tr<T>();
  TYPES(L)
  if (o == "traits") { if (c.a[0] == "float") return tr<float>(); if (c.a[0] == "double") return tr<double>(); if (c.a[0] == "ldouble") return tr<long double>(); if (c.a[0] == "class") return tr<Any>(); if (c.a[0] == "bool*") return tr<bool *>(); }
  return "?";
}
