property = "G01"
edits = [("ecl_geometry/include/ecl/geometry/polynomial.hpp", "            coeff[i] += (*iter)*tmp*coeff[j];", "            if ( coeff[j] == 0.0 ) { break; }\n            coeff[i] += (*iter)*tmp*coeff[j];")]
needs = "a shift of a polynomial with a zero coefficient below a nonzero one"
breaks = "the shifted polynomial misses the terms of the higher coefficients"
demo = r'''
#include <cstdio>
#include <ecl/geometry/polynomial.hpp>
int main() {
  ecl::CubicPolynomial a, b; a.coefficients() << 1, 2, 3, 4; b.coefficients() << 1, 2, 0, 4;
  a.shift_horizontal(2); b.shift_horizontal(2);
  if (a(3) != 10) return 2;
  if (b(3) != 7) { printf("%f\n", b(3)); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_geometry/src/lib/polynomial.cpp", "ecl_geometry/src/lib/pascals_triangle.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp"]
