property = "G09"
edits = [("ecl_geometry/include/ecl/geometry/cartesian_point.hpp", """		double tx = x()*c - y()*s;
		double ty = x()*s + y()*c;

		elements[0] = tx;
		elements[1] = ty;
""", """		elements[0] = x()*c - y()*s;
		elements[1] = x()*s + y()*c;
""")]
needs = "a point off the axes rotated by an angle that is not a multiple of a half turn"
breaks = "the second coordinate is turned from the already turned first one"
demo = r'''
#include <cstdio>
#include <cmath>
#include <ecl/geometry/cartesian_point.hpp>
int main() {
  ecl::CartesianPoint2d p(1, 0); p.rotate(0); if (p.x() != 1 || p.y() != 0) return 2;
  ecl::CartesianPoint2d q(3, 4); q.rotate(0.5);
  double n = std::sqrt(q.x() * q.x() + q.y() * q.y()); if (std::fabs(n - 5) > 1e-9) { printf("%f\n", n); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp"]
