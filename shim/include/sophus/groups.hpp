// Minimal stand-in for Sophus' SO2/SE2/SO3/SE3 (templates, pre-1.0 API subset).
#ifndef VERIF_SHIM_SOPHUS_GROUPS_HPP_
#define VERIF_SHIM_SOPHUS_GROUPS_HPP_
#include <cmath>
#include <iostream>
#include <Eigen/Core>
#include <Eigen/Geometry>
namespace Sophus {
template <typename T> class SO2 {
public:
  typedef T Tangent;
  SO2() : th(0) {}
  explicit SO2(const T& t) : th(t) {}
  T log() const { return std::atan2(std::sin(th), std::cos(th)); }
  static SO2 exp(const T& t) { return SO2(t); }
  SO2 inverse() const { return SO2(-th); }
  SO2 operator*(const SO2& o) const { return SO2(th + o.th); }
  Eigen::Matrix<T,2,1> operator*(const Eigen::Matrix<T,2,1>& p) const { return matrix() * p; }
  Eigen::Matrix<T,2,2> matrix() const { Eigen::Matrix<T,2,2> m; m << std::cos(th), -std::sin(th), std::sin(th), std::cos(th); return m; }
private:
  T th;
};
template <typename T> class SE2 {
public:
  typedef Eigen::Matrix<T,3,1> Tangent;
  typedef Eigen::Matrix<T,2,1> Point;
  SE2() : t(Point::Zero()) {}
  SE2(const SO2<T>& so2, const Point& p) : r(so2), t(p) {}
  SE2(const T& theta, const Point& p) : r(theta), t(p) {}
  const SO2<T>& so2() const { return r; }
  const Point& translation() const { return t; }
  Point& translation() { return t; }
  Eigen::Matrix<T,2,2> rotationMatrix() const { return r.matrix(); }
  SE2 inverse() const { SO2<T> i = r.inverse(); return SE2(i, -(i * t)); }
  SE2 operator*(const SE2& o) const { return SE2(r * o.r, Point(t + r * o.t)); }
  static SE2 exp(const Tangent& a) {
    T th = a[2], s, c;
    if (std::abs(th) < T(1e-6)) { s = 1 - th*th/6; c = th/2 - th*th*th/24; }
    else { s = std::sin(th)/th; c = (1 - std::cos(th))/th; }
    return SE2(SO2<T>(th), Point(s*a[0] - c*a[1], c*a[0] + s*a[1]));
  }
  static Tangent log(const SE2& o) {
    T th = o.r.log(), h = th/2, k;
    if (std::abs(th) < T(1e-6)) k = 1 - th*th/12; else k = h * std::cos(h)/std::sin(h);
    Tangent r; r << k*o.t[0] + h*o.t[1], -h*o.t[0] + k*o.t[1], th; return r;
  }
  Tangent log() const { return log(*this); }
private:
  SO2<T> r; Point t;
};
template <typename T> class SO3 {
public:
  typedef Eigen::Matrix<T,3,1> Tangent;
  SO3() : q(Eigen::Quaternion<T>::Identity()) {}
  explicit SO3(const Eigen::Matrix<T,3,3>& m) : q(m) { q.normalize(); }
  explicit SO3(const Eigen::Quaternion<T>& o) : q(o) { q.normalize(); }
  const Eigen::Quaternion<T>& unit_quaternion() const { return q; }
  Eigen::Matrix<T,3,3> matrix() const { return q.toRotationMatrix(); }
  SO3 inverse() const { return SO3(q.conjugate()); }
  SO3 operator*(const SO3& o) const { return SO3(q * o.q); }
  Eigen::Matrix<T,3,1> operator*(const Eigen::Matrix<T,3,1>& p) const { return q * p; }
  static SO3 exp(const Tangent& w) {
    T n = w.norm();
    if (n < T(1e-10)) return SO3(Eigen::Quaternion<T>(1, w[0]/2, w[1]/2, w[2]/2));
    return SO3(Eigen::Quaternion<T>(Eigen::AngleAxis<T>(n, w/n)));
  }
  Tangent log() const {
    Eigen::Quaternion<T> p = q; if (p.w() < 0) p.coeffs() *= -1;
    T n = p.vec().norm();
    if (n < T(1e-10)) return 2*p.vec();
    return Tangent(p.vec() * (2*std::atan2(n, p.w())/n));
  }
private:
  Eigen::Quaternion<T> q;
};
template <typename T> class SE3 {
public:
  typedef Eigen::Matrix<T,6,1> Tangent;
  typedef Eigen::Matrix<T,3,1> Point;
  typedef Eigen::Matrix<T,3,3> Mat;
  SE3() : t(Point::Zero()) {}
  SE3(const Mat& R, const Point& p) : r(R), t(p) {}
  SE3(const Eigen::Quaternion<T>& Q, const Point& p) : r(Q), t(p) {}
  SE3(const SO3<T>& R, const Point& p) : r(R), t(p) {}
  const SO3<T>& so3() const { return r; }
  const Point& translation() const { return t; }
  Point& translation() { return t; }
  Mat rotationMatrix() const { return r.matrix(); }
  const Eigen::Quaternion<T>& unit_quaternion() const { return r.unit_quaternion(); }
  Eigen::Matrix<T,4,4> matrix() const { Eigen::Matrix<T,4,4> m = Eigen::Matrix<T,4,4>::Identity(); m.template topLeftCorner<3,3>() = r.matrix(); m.template topRightCorner<3,1>() = t; return m; }
  SE3 inverse() const { SO3<T> i = r.inverse(); return SE3(i, Point(-(i * t))); }
  SE3 operator*(const SE3& o) const { return SE3(r * o.r, Point(t + r * o.t)); }
  Point operator*(const Point& p) const { return r * p + t; }
  static Mat hat(const Point& w) { Mat m; m << 0,-w[2],w[1], w[2],0,-w[0], -w[1],w[0],0; return m; }
  static Mat V(const Point& w) {
    T th = w.norm(); Mat W = hat(w);
    if (th < T(1e-5)) return Mat::Identity() + W/2 + W*W/6;
    return Mat::Identity() + W*((1-std::cos(th))/(th*th)) + W*W*((th-std::sin(th))/(th*th*th));
  }
  static SE3 exp(const Tangent& a) { Point w = a.template tail<3>(); Point u = a.template head<3>(); return SE3(SO3<T>::exp(w), Point(V(w)*u)); }
  static Tangent log(const SE3& o) { Point w = o.r.log(); Tangent a; a.template tail<3>() = w; a.template head<3>() = V(w).inverse()*o.t; return a; }
  Tangent log() const { return log(*this); }
private:
  SO3<T> r; Point t;
};
typedef SO2<float> SO2f; typedef SO2<double> SO2d;
typedef SE2<float> SE2f; typedef SE2<double> SE2d;
typedef SO3<float> SO3f; typedef SO3<double> SO3d;
typedef SE3<float> SE3f; typedef SE3<double> SE3d;
}
#endif
