property = "J01"
edits = [("ecl_manipulators/src/lib/trajectory.cpp", """        if ((fabs(Maximum<CubicPolynomial>()(t_f - t, t_f + t, trailing_quintics[j].derivative().derivative()))
            < fabs(max_accelerations[j]))
            && (fabs(Minimum<CubicPolynomial>()(t_f - t, t_f + t, trailing_quintics[j].derivative().derivative()))
                < fabs(max_accelerations[j])))""", """        if (fabs(Maximum<CubicPolynomial>()(t_f - t, t_f + t, trailing_quintics[j].derivative().derivative()))
            < fabs(max_accelerations[j]))""")]
needs = "a trajectory that has to brake hard in the positive direction into its last waypoint"
breaks = "the deceleration of the last corner is not held within the limit"
demo = r'''
#include <cstdio>
#include <cmath>
#include <ecl/manipulators/trajectory.hpp>
#include <ecl/manipulators/waypoint.hpp>
using namespace ecl;
static double worst(double sign) {
  Trajectory<JointAngles> t(1, "t"); t.maxAccelerations(0.5);
  double a[] = {0, 1, 2, 3, 4, 7};
  for (double x : a) { WayPoint<JointAngles> w(1); w.angles() << sign * x; w.nominalRates() << 1.0; w.duration(0.5); t.append(w); }
  t.tensionSplineInterpolation(5);
  double d = t.duration(), m = 0;
  for (double s = 0.9 * d; s < d; s += d / 20000) m = std::fmax(m, std::fabs(t.dderivative(0, s)));
  return m;
}
int main() {
  for (double s : {1.0, -1.0}) { double m = worst(s); if (m > 0.55) { printf("%f: %f\n", s, m); return 1; } }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_manipulators/src/lib/*.cpp", "ecl_geometry/src/lib/*.cpp", "ecl_type_traits/src/lib/*.cpp"]
