property = "H01"
edits = [("ecl_linear_algebra/include/ecl/linear_algebra/sophus/formatters.hpp", """      formatter.format.width(prm_width);
      formatter.tmp_formatting = false;
""", """      formatter.format.width(prm_width);
""")]
count = {}
needs = "a transform printed with a format of its own, then another printed with the stored one"
breaks = "a format given for one printing stays in force for the ones after it"
demo = r'''
#include <cstdio>
#include <iostream>
#include <sstream>
#include <ecl/linear_algebra/sophus.hpp>
int main() {
  Sophus::SE3f t; Sophus::SE3fFormatter f(-1, 2);
  std::ostringstream a, b, c; 
  a << f(t); b << f(t, 9, 5); c << f(t);
  if (a.str() != c.str()) { printf("%s\n", c.str().c_str()); return 1; }
  return a.str() == b.str() ? 2 : 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp"]
