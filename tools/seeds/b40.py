property = "C04"
edits = [("ecl_containers/include/ecl/containers/stencil/stencil.hpp", """      b_iter = s.b_iter;
      e_iter = s.e_iter;
    }
    else""", """      e_iter = s.b_iter + ((size() > 0 && s.size() > size()) ? size() : s.size());
      b_iter = s.b_iter;
    }
    else""")]
needs = "a stencil assigned a longer stencil of the same array"
breaks = "the stencil keeps its own length and misses the end of the window"
demo = r'''
#include <cstdio>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
int main() {
  ecl::Array<int> a(8); for (int i = 0; i < 8; ++i) a[i] = i;
  ecl::Stencil<ecl::Array<int> > s(a, 1, 4), t(a, 2, 3), u(a, 0, 6);
  s = t; if (s.size() != 3 || s[0] != 2) return 2;
  s = u; if (s.size() != 6) { printf("%u\n", (unsigned)s.size()); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp", "ecl_formatters/src/lib/*.cpp"]
