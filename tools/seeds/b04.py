property = "L04"
edits = [("ecl_command_line/include/ecl/command_line/multi_arg.hpp", "		if ( _values.size() > 1 )\n			return false;", "		if ( _values.size() > 2 )\n			return false;")]
needs = "a required multi argument given exactly twice, with another required argument missing"
breaks = "the second value stands in for the missing required argument, or the command line is rejected as having too many"
demo = r'''
#include <cstdio>
#include <ecl/command_line.hpp>
int main() {
  ecl::CmdLine cmd("m", ' ', "1", false);
  ecl::MultiArg<int> m("m", "many", "numbers", true, "int", cmd);
  char a0[] = "p", a1[] = "-m", a2[] = "1", a3[] = "-m", a4[] = "2"; char *av[] = {a0, a1, a2, a3, a4, 0};
  cmd.parse(5, av);
  return m.getValue().size() == 2 ? 0 : 1;
}
'''
