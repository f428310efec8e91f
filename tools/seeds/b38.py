property = "P01"
edits = [("ecl_filesystem/src/lib/realpath.cpp", "::realpath(path.c_str(), buffer)", '::realpath(path.empty() ? "." : path.c_str(), buffer)')]
needs = "an empty path"
breaks = "the empty path, which is no place, stands for the current directory instead of being reported"
demo = r'''
#include <cstdio>
#include <ecl/filesystem/realpath.hpp>
int main() {
  std::string a = "before"; if (ecl::realpath("/usr/..", a).flag() != ecl::NoError || a != "/") return 2;
  a = "before"; if (ecl::realpath("", a).flag() == ecl::NoError) { printf("%s\n", a.c_str()); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_filesystem/src/lib/*.cpp"]
shim = True
