property = "L05"
edits = [("ecl_command_line/include/ecl/command_line/std_output.hpp", "			while ( s[stringLen+start] == ' ' && start < len )\n				start++;", "			while ( s[stringLen+start] == ' ' && start + stringLen < len - 1 )\n				start++;")]
needs = "a text broken over lines that ends with blanks at a line break"
breaks = "an extra line is printed"
demo = r'''
#include <iostream>
#include <sstream>
#include <ecl/command_line.hpp>
struct O : public ecl::StdOutput { std::string wrap(const std::string &s) { std::ostringstream o; spacePrint(o, s, 75, 3, 0); return o.str(); } };
int main() {
  std::string s; for (int i = 0; i < 12; ++i) s += "words ";
  s += "   ";
  O o; std::string r = o.wrap(s);
  std::istringstream in(r); std::string l; int blank = 0;
  while (std::getline(in, l)) if (l.find_first_not_of(' ') == std::string::npos) ++blank;
  std::cout << r;
  return blank;
}
'''
