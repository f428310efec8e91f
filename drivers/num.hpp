#ifndef VERIF_NUM_HPP_
#define VERIF_NUM_HPP_
#include <cmath>
#include <string>
// the integer a value is (within rounding), or the value itself if it is none
inline std::string num(double v, double tol = 1e-6) {
  if (!std::isfinite(v)) return std::isnan(v) ? "nan" : (v > 0 ? "inf" : "-inf");
  double r = std::round(v);
  if (std::fabs(v - r) <= tol * std::max(1.0, std::fabs(v)) && std::fabs(r) < 9e15) { char b[32]; snprintf(b, sizeof b, "%lld", (long long)r); return b; }
  char b[48]; snprintf(b, sizeof b, "~%.9g", v); return b;
}
#endif
