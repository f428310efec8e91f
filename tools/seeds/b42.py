property = "F01"
edits = [("ecl_formatters/include/ecl/formatters/number.hpp", "    for (int i = n; i > 0; --i )\n    {\n        ostream << ' ';", "    for (signed char i = n; i > 0; --i )\n    {\n        ostream << ' ';")]
needs = "a width more than 127 characters wider than the number"
breaks = "very wide fields come out without their padding"
demo = r'''
#include <cstdio>
#include <sstream>
#include <ecl/formatters.hpp>
int main() {
  ecl::Format<int> f; std::ostringstream a, b;
  a << f(5, 20, ecl::Dec); if (a.str().size() != 20) return 2;
  b << f(5, 200, ecl::Dec); if (b.str().size() != 200) { printf("%u\n", (unsigned)b.str().size()); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp"]
