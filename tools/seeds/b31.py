property = "G03"
edits = [("ecl_geometry/src/lib/tension_spline_blueprints.cpp", "u[i] = beta[i] + beta[i-1] - a[i-1]*a[i-1]/u[i-1];", "u[i] = beta[i] + beta[i-1] - a[i]*a[i-1]/u[i-1];")]
needs = "a tension spline over four or more points that are not equally spaced"
breaks = "the first derivative jumps at the inner points"
demo = r'''
#include <cstdio>
#include <cmath>
#include <ecl/geometry/tension_spline.hpp>
static double jump(double x0, double x1, double x2, double x3) {
  ecl::Array<double> x(4), y(4); x << x0, x1, x2, x3; y << 0, 2, 1, 3;
  ecl::TensionSpline s = ecl::TensionSpline::Natural(x, y, 1.0);
  double h = 1e-5, w = 0;
  for (int i = 1; i < 3; ++i) { double l = (s(x[i]) - s(x[i] - h)) / h, r = (s(x[i] + h) - s(x[i])) / h; w = std::fmax(w, std::fabs(l - r)); }
  return w;
}
int main() {
  if (jump(0, 1, 2, 3) > 1e-2) return 2;
  double w = jump(0, 1, 3, 3.5); if (w > 1e-2) { printf("%f\n", w); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_geometry/src/lib/tension_*.cpp"]
