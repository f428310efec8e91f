property = "A01"
edits = [("ecl_core_apps/src/utils/quaternion2yaw.cpp", "2*acos(w)* ecl::sign(z)", "2*asin(z)")]
needs = "a rotation of more than half a turn (a negative real component)"
breaks = "rotations whose real component is negative are reported as their supplement"
demo = r'''
#define main qmain
#include "ecl_core_apps/src/utils/quaternion2yaw.cpp"
#undef main
#include <sstream>
#include <cstdlib>
#include <cmath>
static double yaw(const char *z, const char *w) {
  std::ostringstream o; std::streambuf *k = std::cout.rdbuf(o.rdbuf());
  char a[][8] = {"q", "--", "0", "0"}, zz[32], ww[32]; snprintf(zz, 32, "%s", z); snprintf(ww, 32, "%s", w);
  char *v[] = {a[0], a[1], a[2], a[3], zz, ww, 0};
  int r = qmain(6, v); std::cout.rdbuf(k);
  std::string s = o.str(); size_t p = s.find("-> "); if (r || p == std::string::npos) exit(3);
  return atof(s.c_str() + p + 3);
}
int main() {
  double d = yaw("0.8", "-0.6"); if (std::fabs(d - 2 * std::acos(-0.6)) > 1e-4) { printf("%f\n", d); return 1; }
  return 0;
}
'''
flags = '-I"$PWD"'
srcs = ["ecl_exceptions/src/lib/*.cpp"]
