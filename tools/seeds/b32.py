property = "W01"
edits = [("ecl_type_traits/include/ecl/type_traits/numeric_limits.hpp", "static const unsigned long long maximum = ULLONG_MAX;", "static const unsigned long long maximum = LLONG_MAX;")]
needs = "the widest unsigned type's greatest value"
breaks = "the greatest value reported is half the real one"
demo = r'''
#include <cstdio>
#include <ecl/type_traits.hpp>
int main() {
  unsigned long long m = ecl::numeric_limits<unsigned long long>::maximum;
  if (m + 1 != 0) { printf("%llx\n", m); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp"]
