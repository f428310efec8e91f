property = "Q01"
edits = [("ecl_concepts/include/ecl/concepts/containers.hpp", "\t\tcontainer.resize(1);\n", "")]
needs = "a container of fixed size offered where a dynamic one is asked for"
breaks = "the concept accepts containers that cannot be resized"
demo = r'''
#include <cstdio>
#include <cstdlib>
#include <string>
static int compiles(const char *type) {
  FILE *f = fopen("t.cpp", "w");
  fprintf(f, "#include <vector>\n#include <array>\n#include <ecl/concepts.hpp>\nstruct S { typedef int *iterator; int a[3]; int *begin() { return a; } int *end() { return a + 3; } unsigned size() { return 3; } };\nint main() { ecl_compile_time_concept_check(ecl::DynamicContainerConcept< %s >); }\n", type);
  fclose(f);
  return system(("g++ -std=c++14 -w -fsyntax-only " + std::string(INC) + " t.cpp 2>/dev/null").c_str()) == 0;
}
int main() {
  if (!compiles("std::vector<int>")) return 2;
  if (compiles("int")) return 3;
  if (compiles("S")) { printf("accepted\n"); return 1; }
  return 0;
}
'''
flags = '-DINC="\\"$I -I$D/shim\\""'
srcs = ["ecl_exceptions/src/lib/*.cpp"]
