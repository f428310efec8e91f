property = "G04"
edits = [("ecl_geometry/src/lib/linear_segment.cpp", "  if ( squared_length_p2p1 != 0 ) { // special case handling", "  if ( squared_length_p2p1 > 1e-6 ) { // special case handling")]
needs = "a segment shorter than a thousandth"
breaks = "a short segment is taken for its first point"
demo = r'''
#include <cstdio>
#include <cmath>
#include <ecl/geometry/linear_segment.hpp>
int main() {
  ecl::LinearSegment a(0, 0, 2, 0), b(0, 0, 0.0005, 0);
  if (std::fabs(a.squaredDistanceFromPoint(3, 0) - 1) > 1e-9) return 2;
  double d = b.squaredDistanceFromPoint(0.0005, 0);
  if (d > 1e-12) { printf("%g\n", d); return 1; }
  return 0;
}
'''
srcs = ["ecl_geometry/src/lib/linear_segment.cpp"]
