property = "M05"
edits = [("ecl_time/include/ecl/time/random_number_generator.hpp", "      y2 = x2 * w;", "      y2 = mu + x2 * w * std;"),
 ("ecl_time/include/ecl/time/random_number_generator.hpp", "      use_last = false;\n    }", "      use_last = false;\n      return y1;\n    }")]
needs = "two gaussian values asked for in a row with different parameters"
breaks = "the second value has the mean and deviation of the first"
demo = r'''
#include <cstdio>
#include <unistd.h>
#include <ecl/time/random_number_generator.hpp>
int main() {
  ecl::RandomNumberGenerator<double> r(7);
  for (int i = 0; i < 50; ++i) { double a = r.gaussian(1.0, 1000.0), b = r.gaussian(1.0, 0.0); if (a < 900) return 2; if (b > 100 || b < -100) { printf("%g\n", b); return 1; } }
  return 0;
}
'''
srcs = ["ecl_time/src/lib/*.cpp", "ecl_exceptions/src/lib/*.cpp"]
