property = "F02"
edits = [("ecl_formatters/include/ecl/formatters/floats.hpp", """        format_specifier[2] = '0'+*precision_;
        format_specifier[3] = 'f';
        format_specifier[4] = '\\0';
""", """        format_specifier[2] = '0'+*precision_;
        format_specifier[3] = 'f';
""")]
needs = "a value printed with ten or more decimals, then one printed with fewer"
breaks = "a stray letter follows every value printed afterwards with fewer than ten decimals"
demo = r'''
#include <cstdio>
#include <iostream>
#include <sstream>
#include <ecl/formatters.hpp>
static std::string p(int n) { std::ostringstream o; ecl::Format<double> f; f.precision(n); o << f(1.5); return o.str(); }
int main() {
  std::string a = p(12); if (a != "1.500000000000") return 2;
  a = p(2); if (a != "1.50") { printf("%s\n", a.c_str()); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp"]
