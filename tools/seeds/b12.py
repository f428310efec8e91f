property = "R01"
edits = [("ecl_mobile_robot/src/lib/differential_drive.cpp", "  if ( dr(0) < 0.0 ) {", "  if ( diff(0) < 0.0 ) {")]
needs = "two poses one of which lies ahead of the other along a heading that points to negative x"
breaks = "driving forwards is reported as driving backwards (and the other way round)"
demo = r'''
#include <cstdio>
#include <cmath>
#include <ecl/mobile_robot/kinematics/differential_drive.hpp>
int main() {
  using ecl::linear_algebra::Vector3d; using ecl::linear_algebra::Vector2d;
  Vector3d a, b; a << 0, 0, 0.3; b << std::cos(0.3), std::sin(0.3), 0.4;
  Vector2d d = ecl::mobile_robot::DifferentialDriveKinematics::PoseToBaseDifferential(a, b); if (std::fabs(d[0] - 1) > 1e-9) return 2;
  a << 0, 0, 3; b << std::cos(3.0), std::sin(3.0), 3;
  d = ecl::mobile_robot::DifferentialDriveKinematics::PoseToBaseDifferential(a, b);
  printf("%f\n", d[0]);
  return std::fabs(d[0] - 1) < 1e-9 ? 0 : 1;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_mobile_robot/src/lib/*.cpp", "ecl_geometry/src/lib/angle.cpp", "ecl_linear_algebra/src/lib/*.cpp"]
