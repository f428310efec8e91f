property = "D02"
edits = [("ecl_devices/src/lib/shared_file.cpp", "	long n = buffer.append(c);\n	if ( buffer.full() ) {", "	long n = buffer.append(c);\n	if ( n == 0 ) {")]
needs = "more characters written one by one than the user's buffer holds, without a flush"
breaks = "the character that finds the buffer full is lost"
demo = r'''
#include <cstdio>
#include <string>
#include <ecl/devices/shared_file.hpp>
static std::string look() { FILE *f = fopen("x", "r"); std::string s; int c; while (f && (c = fgetc(f)) != EOF) s += (char)c; if (f) fclose(f); return s; }
int main() {
  { ecl::SharedFile a("x", ecl::New); for (int i = 0; i < 20000; ++i) a.write((char)('a' + i % 26)); }
  std::string s = look(); printf("%zu\n", s.size());
  for (size_t i = 0; i < s.size(); ++i) if (s[i] != (char)('a' + i % 26)) return 1;
  return s.size() == 20000 ? 0 : 1;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_time/src/lib/*.cpp", "ecl_threads/src/lib/mutex_pos.cpp", "ecl_devices/src/lib/ofile_pos.cpp", "ecl_devices/src/lib/shared_file.cpp", "ecl_devices/src/lib/detail/*.cpp"]
flags = "-DECL_HAS_RT_TIMERS -DECL_HAS_TIMESTAMP"
