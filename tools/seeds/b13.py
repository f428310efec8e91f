property = "M03"
edits = [("ecl_time/src/lib/stopwatch.cpp", "    split_time = start_time;\n", "")]
needs = "a stopwatch restarted after a split, then split again"
breaks = "the first split after a restart counts from the split before it"
demo = r'''
#include <cstdio>
#include <unistd.h>
#include <ecl/time/stopwatch.hpp>
int main() {
  ecl::StopWatch w; usleep(1000); (double)w.split(); usleep(60000); w.restart(); usleep(1000);
  double s = w.split(), e = w.elapsed(); printf("%f %f\n", s, e);
  return s <= e ? 0 : 1;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", ""]
flags = "-DECL_HAS_RT_TIMERS -DECL_HAS_TIMESTAMP"
