property = "N01"
edits = [("ecl_math/include/ecl/math/fuzzy.hpp", "std::min( std::abs(x),  std::abs(static_cast<Scalar>(y))) * prec;", "std::min( x,  static_cast<Scalar>(y)) * prec;")]
needs = "two negative numbers that are close to each other"
breaks = "isApprox is false for equal-within-precision negative numbers"
demo = r'''
#include <cstdio>
#include <ecl/math/fuzzy.hpp>
int main() {
  if (!ecl::isApprox(2.0, 2.0 + 1e-14)) return 1;
  if (!ecl::isApprox(-2.0, -2.0 + 1e-14)) { printf("negative\n"); return 1; }
  if (ecl::isApprox(2.0, 2.5)) return 1;
  return 0;
}
'''
srcs = ["ecl_type_traits/src/lib/*.cpp"]
