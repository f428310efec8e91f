// running statistics, covariance ellipses and ellipsoids
#include "drv.hpp"
#include "num.hpp"
#include <cmath>
#include <ecl/linear_algebra.hpp>
#include <ecl/statistics/cumulative_statistics.hpp>
#include <ecl/statistics/covariance_ellipsoid.hpp>
using namespace ecl; using namespace Eigen;
static CumulativeStatistics<double> sd; static CumulativeStatistics<float> sf;
// these are used again and again
static CovarianceEllipsoid<double, 2> e2d; static CovarianceEllipsoid<float, 2> e2f; static CovarianceEllipsoid<double, 3> e3d; static CovarianceEllipsoid<float, 3> e3f;
static int n_ = 0;
template <typename S> static S tol(); template <> double tol<double>() { return 1e-6; } template <> float tol<float>() { return 2e-3f; }
template <typename T, typename S> static std::string stat(const S &s) { double n = s.size(); return num(n) + "," + num(s.mean() * n, tol<T>()) + "," + num(s.variance() * n * (n - 1), tol<T>()); }
template <typename V> static std::string canon(V v, double t) { for (int i = 0; i < v.size(); ++i) if (std::fabs(v[i]) > t * v.norm()) { if (v[i] < 0) v = -v; break; } std::string r; for (int i = 0; i < v.size(); ++i) r += (i ? "," : "") + num(v[i], t * 10); return r; }
template <typename M> static std::string square(const M &A, double t) { return (A.transpose() * A - M::Identity()).norm() < t ? "square" : "askew"; }
template <typename T, typename E> static std::string e2(E &keep, const Cmd &c) {
  typedef Matrix<T, 2, 2> M; const std::string &o = c.op; double t = tol<T>(), k = 1; M m; bool any = false; double x, y, z, l, s;
  if (o == "e2") { x = c.i(1), y = c.i(2), z = c.i(3), l = c.i(4), s = c.i(5); any = l == s; Matrix2d R; R << x / z, -y / z, y / z, x / z; Matrix2d D; D << l * l, 0, 0, s * s; Matrix2d W = R * D * R.transpose(); W(1, 0) = W(0, 1); m = W.cast<T>(); }
  if (o == "e2t") m << c.i(1), std::ldexp(1.0, -(int)c.i(3)), std::ldexp(1.0, -(int)c.i(3)), c.i(2);
  if (o == "e2n") m << c.i(1), 0, 0, c.i(1) * (1 + std::ldexp(1.0, -(int)c.i(2)));
  E fresh; E *e = &keep; if (n_++ % 3) { fresh = E(m); e = &fresh; } else keep.compute(m);
  Matrix<T, 2, 1> L = e->lengths(); M A = e->axes();
  if (o != "e2") { L = L.cwiseProduct(L).eval(); std::string r = num(L[0], t) + "," + num(L[1], t) + "|"; if (o == "e2t") r += canon(Matrix<T, 2, 1>(A.col(0)), t) + ";" + canon(Matrix<T, 2, 1>(A.col(1)), t) + "|"; return r + square(A, t); }
  std::string r = num(L[0], t) + "," + num(L[1], t) + "|"; Matrix<double, 2, 1> rot(std::cos(e->rotation()) * z, std::sin(e->rotation()) * z);
  if (any) r += "any"; else r += canon(Matrix<T, 2, 1>(A.col(0) * T(z)), t) + ";" + canon(Matrix<T, 2, 1>(A.col(1) * T(z)), t) + ";" + canon(rot, t);
  Matrix<double, 2, 1> i = e->intercepts().template cast<double>();
  return r + "|" + num(i[0] * i[0] * (x * x * s * s + y * y * l * l), t) + "," + num(i[1] * i[1] * (x * x * l * l + y * y * s * s), t) + "|" + square(A, t);
}
template <typename T, typename E> static std::string e3(E &keep, const Cmd &c) {
  typedef Matrix<T, 3, 3> M; double t = tol<T>(); auto q = c.li(1), l = c.li(2); bool sort = c.i(3); Quaterniond Q(q[0], q[1], q[2], q[3]); double N = Q.squaredNorm(); Q.normalize();
  Matrix3d W = Q.toRotationMatrix() * Vector3d(l[0] * l[0], l[1] * l[1], l[2] * l[2]).asDiagonal() * Q.toRotationMatrix().transpose(); W = ((W + W.transpose()) / 2).eval(); M m = W.cast<T>();
  E fresh; E *e = &keep; if (n_++ % 3) { fresh = sort && n_ % 2 ? E(m) : E(m, sort); e = &fresh; } else if (sort && n_ % 2) keep.compute(m); else keep.compute(m, sort);
  Matrix<T, 3, 1> L = e->lengths(); M A = e->axes(); int p[3] = {0, 1, 2}; std::sort(p, p + 3, [&](int a, int b) { return L[a] < L[b]; });
  std::string r; for (int i = 0; i < 3; ++i) r += (i ? "," : "") + num(L[p[i]], t); r += "|";
  if (l[0] == l[1] || l[1] == l[2]) r += "any"; else for (int i = 0; i < 3; ++i) r += (i ? ";" : "") + canon(Matrix<T, 3, 1>(A.col(p[i]) * T(N)), t);
  M B = A * L.cwiseProduct(L).asDiagonal() * A.transpose(); r += "|" + square(A, t) + ((B - m).norm() <= t * m.norm() ? "|same" : "|other"); if (sort) r += A.determinant() > 0 ? "|right" : "|left"; return r;
}
template <typename E> static std::string e0() { E e; std::string r; for (int i = 0; i < e.lengths().size(); ++i) r += (i ? "," : "") + num(e.lengths()[i]); r += "|"; for (int i = 0; i < e.axes().size(); ++i) r += (i ? "," : "") + num(e.axes()(i)); return r; }
void drv_reset() { sd = CumulativeStatistics<double>(); sf = CumulativeStatistics<float>(); }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; bool f = c.i(0);
  if (o == "push") { if (f) sf.push_back(c.i(1)); else sd.push_back(c.i(1)); return "ok"; }
  if (o == "clear") { if (f) sf.clear(); else sd.clear(); return "ok"; }
  if (o == "copy") { if (f) { CumulativeStatistics<float> x(sf); sf.clear(); sf.push_back(77); sf = x; } else { CumulativeStatistics<double> x(sd); sd.clear(); sd.push_back(77); sd = x; } return "ok"; }
  if (o == "stat") return f ? stat<float>(sf) : stat<double>(sd);
  if (o == "e0") return c.i(1) == 2 ? (f ? e0<CovarianceEllipsoid2f>() : e0<CovarianceEllipsoid2d>()) : (f ? e0<CovarianceEllipsoid3f>() : e0<CovarianceEllipsoid3d>());
  if (o == "e3") return f ? e3<float>(e3f, c) : e3<double>(e3d, c);
  return f ? e2<float>(e2f, c) : e2<double>(e2d, c);
}
