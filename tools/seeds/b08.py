property = "C01"
edits = [("ecl_containers/include/ecl/containers/array/array_dynamic_no_mem_check.hpp", "        	if ( this == &array ) { return; }\n        	if ( array.size() == 0 ) {\n        		clear();\n        	} else {\n				resize(array.size());\n", "        	if ( this == &array ) { return; }\n        	if ( array.size() == 0 ) {\n        		clear();\n        	} else {\n				if ( array.size() > buffer_size ) { resize(array.size()); }\n")]
needs = "a dynamic array assigned a smaller one"
breaks = "the array keeps its old size and old elements after the ones assigned"
demo = r'''
#include <cstdio>
#include <ecl/containers/array.hpp>
int main() {
  ecl::Array<int> a(4), b(2), e; a << 1, 2, 3, 4; b << 7, 8;
  e = b; if (e.size() != 2 || e[1] != 8) return 2;
  e = a; if (e.size() != 4 || e[3] != 4) return 3;
  a = b; if (a.size() != 2 || a[0] != 7 || a[1] != 8) { printf("kept %zu\n", (size_t)a.size()); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp"]
