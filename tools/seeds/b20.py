property = "M01"
edits = [("ecl_time/src/lib/timestamp_base.cpp", """    int64 nsec = time.tv_nsec + time_stamp.time.tv_nsec;
    if ( nsec >= 1000000000L ) {
      time.tv_sec += 1;
      nsec -= 1000000000L;
    } else if ( nsec <= -1000000000L ) {""", """    int64 nsec = time.tv_nsec + time_stamp.time.tv_nsec;
    if ( nsec >= 1000000000L ) {
      time.tv_sec += 1;
      nsec -= 1000000000L;
    } else if ( nsec < -1000000000L ) {""")]
needs = "two negative durations whose nanoseconds add up to exactly minus one second"
breaks = "the sum's nanoseconds reach a whole second without being carried"
demo = r'''
#include <cstdio>
#include <ecl/time/duration.hpp>
int main() {
  ecl::Duration a(0, -400000000), b(0, -600000000); a += b;
  if (a.sec() != -1 || a.nsec() != 0) { printf("%ld %ld\n", (long)a.sec(), (long)a.nsec()); return 1; }
  ecl::Duration c(-2, -400000000), d(-1, -600000001); c += d;
  return (c.sec() == -4 && c.nsec() == -1) ? 0 : 2;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_time/src/lib/*.cpp"]
