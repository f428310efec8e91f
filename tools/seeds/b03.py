property = "L03"
edits = [("ecl_command_line/include/ecl/command_line/multi_switch_arg.hpp", "		while ( combinedSwitchesMatch( args[*i] ) )\n			++_value;", "		if ( combinedSwitchesMatch( args[*i] ) )\n			++_value;")]
needs = "a multi switch given three or more times in one combined token"
breaks = "the count stops at two and the remaining letters are refused"
demo = r'''
#include <cstdio>
#include <ecl/command_line.hpp>
int main() {
  ecl::CmdLine cmd("m", ' ', "1", false);
  ecl::MultiSwitchArg v("v", "verbose", "how much", cmd);
  char a0[] = "p", a1[] = "-vvv"; char *av[] = {a0, a1, 0};
  cmd.parse(2, av);   // exits with 1 when refused
  if (v.getValue() != 3) { printf("counted %d\n", v.getValue()); return 1; }
  return 0;
}
'''
