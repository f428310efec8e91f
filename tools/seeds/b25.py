property = "D05"
edits = [("ecl_devices/src/lib/serial_pos.cpp", """      fake_snooze.period(ecl::Duration(0.005));
      div_t d = div(timeout, 5);
""", """      fake_snooze.period(ecl::Duration(0.004));
      div_t d = div(timeout, 5);
""")]
needs = "a read on a silent port with a timeout between 20 and 99 ms"
breaks = "the read gives up a fifth too early"
demo = r'''
#include <cstdio>
#include <cstdlib>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>
#include <termios.h>
#include <ecl/devices/serial.hpp>
static long now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000L + t.tv_nsec; }
int main() {
  int m = posix_openpt(O_RDWR | O_NOCTTY); grantpt(m); unlockpt(m);
  ecl::Serial s; s.open(ptsname(m), ecl::BaudRate_115200); s.block(90);
  char c[4]; long d[3];
  for (int i = 0; i < 3; ++i) { long a = now(); s.read(c, 4); d[i] = (now() - a) / 1000000; }
  if (d[1] < 84 && d[2] < 84) { printf("%ld %ld\n", d[1], d[2]); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_devices/src/lib/serial*.cpp", "ecl_devices/src/lib/detail/*.cpp"]
