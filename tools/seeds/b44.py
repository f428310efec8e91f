property = "X03"
edits = [("ecl_streams/src/lib/log_stream.cpp", "void LogStream::disableMode(int mode) { modes.erase(mode); }", "void LogStream::disableMode(int mode) {\n    std::map<int,std::string>::iterator iter = modes.lower_bound(mode);\n    if ( iter != modes.end() ) { modes.erase(iter); }\n}")]
needs = "disabling a mode that is not enabled while a higher one is"
breaks = "the next higher mode is disabled in its stead"
demo = r'''
#include <cstdio>
#include <ecl/streams/log_stream.hpp>
int main() {
  ecl::LogStream l("b44.log"); l.enableMode(1, "one"); l.enableMode(5, "five");
  l.disableMode(1); if (l.isModeEnabled(1) || !l.isModeEnabled(5)) return 2;
  l.disableMode(3); if (!l.isModeEnabled(5)) { puts("five is gone"); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp", "ecl_streams/src/lib/*.cpp", "ecl_devices/src/lib/*.cpp", "ecl_devices/src/lib/detail/*.cpp", "ecl_time/src/lib/timestamp_base.cpp", "ecl_time/src/lib/timestamp_pos.cpp", "ecl_time/src/lib/snooze_pos.cpp", "ecl_threads/src/lib/*.cpp"]
