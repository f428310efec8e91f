property = "M04"
edits = [("ecl_time/src/lib/frequency.cpp", "  if ( time_since_last < minimum_interval ) {\n    minimum_interval = time_since_last;\n  }\n  if ( time_since_last > maximum_interval ) {", "  if ( time_since_last < minimum_interval ) {\n    minimum_interval = time_since_last;\n  } else if ( time_since_last > maximum_interval ) {")]
needs = "a window whose intervals only ever shrink (or hold a single one)"
breaks = "the maximum interval of such a window is reported as zero"
demo = r'''
#include <cstdio>
#include <unistd.h>
#include <ecl/time/frequency.hpp>
int main() {
  ecl::FrequencyMonitor m(0.05, false);
  usleep(30000); m.update(); usleep(30000);
  ecl::FrequencyDiagnostics d = m.analyse();
  double lo = d.minimum_interval, hi = d.maximum_interval;
  printf("%f %f\n", lo, hi);
  return lo >= 0.029 && hi == lo ? 0 : 1;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", ""]
flags = "-DECL_HAS_RT_TIMERS -DECL_HAS_TIMESTAMP"
