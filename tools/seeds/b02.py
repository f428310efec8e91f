property = "U01"
edits = [("ecl_utilities/include/ecl/utilities/flags.hpp", "if ((value & flag) != 0)", "if ((value & flag) > 0)")]
needs = "a flag occupying the sign bit of the underlying int"
breaks = "testFlag is false for a set flag whose bit is the sign bit"
demo = '''
#include <cstdio>
#include <ecl/utilities/flags.hpp>
enum E { Zero = 0, A = 1, B = 2, Top = (int)0x80000000 };
typedef ecl::Flags<E> Es;
int main() {
  Es f(Top);
  f |= A;
  if (!f.testFlag(Top) || !f.testFlag(A) || f.testFlag(B)) { printf("testFlag is wrong\\n"); return 1; }
  return 0;
}
'''
