property = "X02"
edits = [("ecl_devices/src/lib/string.cpp", "    buffer_cur_read = buffer+cur_pos;", "    buffer_cur_read = buffer;")]
needs = "a string device that is partly read, then written until it grows, then read again"
breaks = "characters already read are read again"
demo = r'''
#include <cstdio>
#include <string>
#include <ecl/devices/string.hpp>
int main() {
  ecl::String s; char b[400];
  s.write("abcdef", 6); if (s.read(b, 4) != 4) return 2;
  std::string big(600, 'x'); s.write(big.data(), big.size());
  if (s.remaining() != 602) { printf("%lu\n", s.remaining()); return 1; }
  if (s.read(b, 3) != 3 || std::string(b, 3) != "efx") return 1;
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_devices/src/lib/string.cpp"]
