property = "X04"
edits = [("ecl_streams/include/ecl/streams/serial_stream.hpp", "open(port_name, baud_rate, data_bits, stop_bits, parity)", "open(port_name, baud_rate, data_bits, (parity == NoParity) ? StopBits_1 : stop_bits, parity)")]
needs = "a stream opened with two stop bits and no parity"
breaks = "the port is set to one stop bit"
demo = r'''
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <termios.h>
#include <ecl/streams/serial_stream.hpp>
static int two(ecl::StopBits b, ecl::Parity p) {
  int m = posix_openpt(O_RDWR | O_NOCTTY); grantpt(m); unlockpt(m); std::string n = ptsname(m);
  ecl::SerialStream s(n, ecl::BaudRate_9600, ecl::DataBits_8, b, p);
  int f = open(n.c_str(), O_RDWR | O_NOCTTY); termios t; tcgetattr(f, &t); close(f);
  return (t.c_cflag & CSTOPB) ? 1 : 0;
}
int main() {
  if (two(ecl::StopBits_1, ecl::NoParity)) return 2;
  if (!two(ecl::StopBits_2, ecl::EvenParity)) return 3;
  if (!two(ecl::StopBits_2, ecl::NoParity)) { printf("one stop bit\n"); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_devices/src/lib/*.cpp", "ecl_streams/src/lib/*.cpp", "ecl_threads/src/lib/*.cpp", "ecl_devices/src/lib/detail/*.cpp"]
