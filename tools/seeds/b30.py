property = "G05"
edits = [("ecl_geometry/src/lib/angle.cpp", """		wrapped = fmod(angle-pi,2.0*pi)+pi;""", """		wrapped = angle+2.0*pi;""")]
needs = "an angle below minus one and a half turns"
breaks = "only one turn is taken away, so the angle stays outside its range"
demo = r'''
#include <cstdio>
#include <cmath>
#include <ecl/geometry/angle.hpp>
int main() {
  const double pi = 3.14159265358979323846;
  const double a = -4.0, b = -12.0; 
  if (std::fabs(ecl::wrap_angle(a) - (a + 2 * pi)) > 1e-9) return 2;
  double w = ecl::wrap_angle(b); if (std::fabs(w - (b + 4 * pi)) > 1e-9) { printf("%f\n", w); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_geometry/src/lib/angle.cpp"]
