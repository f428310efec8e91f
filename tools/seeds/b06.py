property = "L02"
edits = [("ecl_command_line/include/ecl/command_line/value_arg.hpp", "            if ( valuesRead > 1 )\n                return EXTRACT_TOO_MANY;", "            if ( valuesRead > 2 )\n                return EXTRACT_TOO_MANY;")]
needs = "a value token that spells exactly two values of the type (\"5 6\", \"ab\" for a char, \"5-3\")"
breaks = "the token is accepted with its second value"
demo = r'''
#include <cstdio>
#include <sys/wait.h>
#include <unistd.h>
#include <ecl/command_line.hpp>
int main() {
  pid_t p = fork();
  if (p == 0) {
    freopen("/dev/null", "w", stderr); freopen("/dev/null", "w", stdout);
    ecl::CmdLine cmd("m", ' ', "1", false);
    ecl::ValueArg<int> i("i", "int", "number", false, 0, "int", cmd);
    char a0[] = "p", a1[] = "-i", a2[] = "5-3"; char *av[] = {a0, a1, a2, 0};
    cmd.parse(3, av);
    _exit(42);
  }
  int st; waitpid(p, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 1 ? 0 : 1;
}
'''
