property = "E01"
edits = [("ecl_exceptions/include/ecl/exceptions/data_exception.hpp", '    location = std::string(loc) + "\\n         : " + e.location;\n    create_combined_message();\n', '    create_combined_message();\n    location = std::string(loc) + "\\n         : " + e.location;\n')]
needs = "an exception with data rethrown from a second place, and its text read"
breaks = "the places it came from are missing in what()"
demo = r'''
#include <cstdio>
#include <string>
#include <ecl/exceptions/data_exception.hpp>
int main() {
  int d = 7;
  ecl::DataException<int> a("one.cpp:1", ecl::OpenError, "msg", d);
  if (std::string(a.what()).find("one.cpp:1") == std::string::npos) return 2;
  ecl::DataException<int> b("two.cpp:2", a);
  std::string w = b.what();
  return w.find("two.cpp:2") != std::string::npos && w.find("one.cpp:1") != std::string::npos && w.find("msg") != std::string::npos ? 0 : 1;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp"]
