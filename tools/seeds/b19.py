property = "G07"
edits = [("ecl_geometry/src/lib/odometry_helper.cpp", "      min_squared_distance = temp_squared_distance;\n    }\n\n    segment_start = segment_end;\n", "      min_squared_distance = temp_squared_distance;\n      segment_start = segment_end;\n    }\n")]
needs = "a trajectory whose second segment is farther from the position than the first, and whose third is nearer again"
breaks = "the distance is measured to a line between samples that do not follow each other"
demo = r'''
#include <cstdio>
#include <cmath>
#include <ecl/geometry/odometry_helper.hpp>
int main() {
  using namespace ecl::odometry;
  std::vector<Pose2D> v; double p[4][2] = {{0, 0}, {2, 0}, {2, 10}, {1, 10}};
  for (auto &q : p) { Pose2D a; a << q[0], q[1], 0; v.push_back(a); }
  Trajectory2D t = vectorToTrajectory(v); Position2D x; x << 1, 5;
  double d = ecl::odometry::distance(x, t); if (std::fabs(d - 1) > 1e-6) { printf("%f\n", d); return 1; }
  x << 0, 2; d = ecl::odometry::distance(x, t); if (std::fabs(d - 2) > 1e-6) { printf("%f\n", d); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_geometry/src/lib/odometry_helper.cpp", "ecl_geometry/src/lib/linear_segment.cpp", "ecl_geometry/src/lib/angle.cpp", "ecl_linear_algebra/src/lib/*.cpp"]
