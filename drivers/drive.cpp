// DifferentialDriveKinematics
#include "drv.hpp"
#include "num.hpp"
#include <ecl/linear_algebra.hpp>
#include <ecl/mobile_robot/kinematics/differential_drive.hpp>
typedef ecl::mobile_robot::DifferentialDriveKinematics K;
using ecl::linear_algebra::Vector3d; using ecl::linear_algebra::Vector2d;
static K *k[2]; static double B[2], R[2]; static Vector3d p; static const double D = 3.14159265358979323846 / 180;
static void put(int i, double b, double r) { delete k[i]; k[i] = new K(b, r); B[i] = b; R[i] = r; }
static double half(double a, double n) { return a < -n / 2 + 1e-6 ? a + n : a; }  // half turns either way
static std::string n(double v) { return num(v, 1e-6); }
void drv_reset() { put(0, 1, 1); put(1, 1, 1); p << 0, 0, 0; }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; if (o == "rest") { p << 0, 0, 0; return "ok"; }
  if (o == "between") { Vector3d a, b; a << c.i(0), c.i(1), c.i(2) * D; b << c.i(3), c.i(4), c.i(5) * D; Vector2d r = K::PoseToBaseDifferential(a, b); return n(r[0] * std::abs(r[0])) + "," + n(half(r[1] / D, 360)); }
  int i = c.i(0);
  if (o == "new") { put(i, c.i(1), c.i(2)); return "ok"; }
  if (o == "copy") { K *t = new K(*k[1 - i]); delete k[i]; k[i] = t; B[i] = B[1 - i]; R[i] = R[1 - i]; return "ok"; }
  if (o == "wheels") { Vector3d u = k[i]->poseUpdateFromWheelDifferential(c.i(1) * D, c.i(2) * D); return n(2 * u[0] / D) + "," + n(u[1]) + "," + n(half(u[2] / D * B[i], 360 * B[i])); }
  if (o == "base") { Vector3d u = k[i]->poseUpdateFromBaseDifferential(c.i(1), c.i(2) * D); return n(u[0]) + "," + n(u[1]) + "," + n(half(u[2] / D, 360)); }
  if (o == "rates") { Vector2d u = k[i]->baseToWheelVelocities(c.i(1), c.i(2)); return n(u[0] * 2 * R[i]) + "," + n(u[1] * 2 * R[i]); }
  if (o == "drive") {
    Vector2d w = k[i]->baseToWheelVelocities(c.i(1), c.i(2) * 90 * D); Vector3d u = k[i]->poseUpdateFromWheelDifferential(w[0], w[1]), q;
    q << p[0] + cos(p[2]) * u[0] - sin(p[2]) * u[1], p[1] + sin(p[2]) * u[0] + cos(p[2]) * u[1], p[2] + u[2];
    Vector2d b = K::PoseToBaseDifferential(p, q);
    q[0] = std::floor(q[0] + .5); q[1] = std::floor(q[1] + .5); double h = half(std::remainder(q[2] / D, 360), 360); p = q; p[2] = std::floor(h / 90 + .5) * 90 * D;
    return n(q[0]) + "," + n(q[1]) + "," + n(h) + "," + n(b[0]) + "," + n(half(b[1] / D, 360));
  }
  return "?";
}
