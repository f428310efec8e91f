property = "G08"
edits = [("ecl_geometry/src/lib/polynomial.cpp", "intercepts << 3*q/p + shift, (-3*q)/(2*p) + shift;", "intercepts << 3*q/p + shift, (-3*q)/(2*p) - shift;")]
needs = "a cubic with a double root away from its axis of symmetry"
breaks = "the double root is reported on the wrong side of the axis"
demo = r'''
#include <cstdio>
#include <cmath>
#include <ecl/geometry/polynomial.hpp>
int main() {
  ecl::CubicPolynomial p; p.coefficients() << 0, 0, -3, 1;   // x^2 (x - 3)
  ecl::Array<double> r = ecl::Roots<ecl::CubicPolynomial>()(p);
  for (unsigned i = 0; i < r.size(); ++i) if (std::fabs(p(r[i])) > 1e-6) { printf("%f\n", r[i]); return 1; }
  return r.size() == 2 ? 0 : 2;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_geometry/src/lib/polynomial*.cpp", "ecl_geometry/src/lib/pascals_triangle.cpp", "ecl_type_traits/src/lib/*.cpp"]
