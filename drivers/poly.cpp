#include "drv.hpp"
#include <algorithm>
#include "num.hpp"
#include <set>
#include <initializer_list>
#include <ecl/geometry/polynomial.hpp>
#include <ecl/exceptions/standard_exception.hpp>
using namespace ecl;
struct Base { virtual ~Base() {} virtual std::string run(const Cmd &c) = 0; };
template <class A> static std::string list(const A &a, int n) { std::string r; for (int i = 0; i < n; ++i) r += (i ? "," : "") + num(a[i]); return r; }
template <unsigned N> struct Div { static std::string run(const Polynomial<N> &, double) { return "?"; } };
template <> struct Div<2> { static std::string run(const Polynomial<2> &p, double f) { double rem = 99, rem2 = 98; LinearFunction q = Division<QuadraticPolynomial>()(p, f, rem); LinearFunction q2 = QuadraticPolynomial::Division(p, f, rem2);
  std::string a = list(q.coefficients(), 2) + ";" + num(rem), b = list(q2.coefficients(), 2) + ";" + num(rem2); return a == b ? a : "!" + a + "|" + b; } };
template <> struct Div<3> { static std::string run(const Polynomial<3> &p, double f) { double rem = 99, rem2 = 98; QuadraticPolynomial q = Division<CubicPolynomial>()(p, f, rem); QuadraticPolynomial q2 = CubicPolynomial::Division(p, f, rem2);
  std::string a = list(q.coefficients(), 3) + ";" + num(rem), b = list(q2.coefficients(), 3) + ";" + num(rem2); return a == b ? a : "!" + a + "|" + b; } };
template <unsigned N> struct P : Base {
  Polynomial<N> p;
  std::string run(const Cmd &c) {
    const Polynomial<N> &q = p;
    if (c.op == "put") { p.coefficients()[c.i(0)] = c.i(1); return "ok"; }
    if (c.op == "at") return num(q(c.i(0)));
    if (c.op == "d") return num(q.derivative((double)c.i(0)));
    if (c.op == "dd") return num(q.dderivative((double)c.i(0)));
    if (c.op == "deriv") return list(q.derivative().coefficients(), N);
    if (c.op == "coef") { Polynomial<N> copy(q); return list(copy.coefficients(), N + 1); }
    if (c.op == "shift") { p.shift_horizontal(c.i(0)); return "ok"; }
    if (c.op == "show") { std::ostringstream o; o << q; return o.str(); }
    if (c.op == "div") return Div<N>::run(p, c.i(0));
    return "?";
  }
};
struct P0 : Base { Polynomial<0> p; std::string run(const Cmd &c) {
  if (c.op == "put") { p.coefficients()[c.i(0)] = c.i(1); return "ok"; }
  if (c.op == "at") return num(p(c.i(0))); if (c.op == "d") return num(p.derivative((double)c.i(0))); if (c.op == "dd") return num(p.dderivative((double)c.i(0)));
  if (c.op == "deriv") return list(p.derivative().coefficients(), 1); if (c.op == "coef") return list(p.coefficients(), 1); if (c.op == "shift") { p.shift_horizontal(c.i(0)); return "ok"; } return "?"; } };
static std::unique_ptr<Base> cur;
template <unsigned N> static void mk(const std::vector<long> &v) { P<N> *x = new P<N>(); for (unsigned i = 0; i <= N; ++i) x->p.coefficients()[i] = v[i]; cur.reset(x); }
template <int N> static std::string pascal(int row) { PascalsTriangle<N> t; const PascalsTriangle<N> &ct = t; std::string r; for (typename PascalsTriangle<N>::const_iterator i = ct.begin(row); i != ct.end(row); ++i) { if (!r.empty()) r += ","; r += std::to_string(*i); } return r; }
// one shot questions are asked at several scales of x and of y: by powers of two, which are exact
static int ex, ey;
static double X(double v) { return std::ldexp(v, ex); } static double Y(double v) { return std::ldexp(v, ey); } static double D1(double v) { return std::ldexp(v, ey - ex); } static double D2(double v) { return std::ldexp(v, ey - 2 * ex); }
static std::string nx(double v) { return num(std::ldexp(v, -ex)); } static std::string ny(double v) { return num(std::ldexp(v, -ey)); } static std::string n1(double v) { return num(std::ldexp(v, ex - ey)); } static std::string n2(double v) { return num(std::ldexp(v, 2 * ex - ey)); }
template <class F> static void co(F &f, std::initializer_list<double> l) { int i = 0; for (double c : l) { f.coefficients()[i] = std::ldexp(c, ey - i * ex); ++i; } }
static std::string roots(const Array<double> &a, const Array<double> &b) {
  std::vector<double> v; for (unsigned i = 0; i < a.size(); ++i) v.push_back(a[i]);
  if (a.size() != b.size()) return "!differ"; for (unsigned i = 0; i < a.size(); ++i) if (!(a[i] == b[i]) && !(std::isnan(a[i]) && std::isnan(b[i]))) return "!differ";
  std::sort(v.begin(), v.end()); std::string r = std::to_string(v.size()) + ":"; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + nx(v[i]); return r;
}
static std::string rl(double c0, double c1) { LinearFunction f; co(f, {c0, c1}); return roots(Roots<LinearFunction>()(f), LinearFunction::Roots(f)); }
static std::string rq(double c0, double c1, double c2) { QuadraticPolynomial f; co(f, {c0, c1, c2}); return roots(Roots<QuadraticPolynomial>()(f), QuadraticPolynomial::Roots(f)); }
static std::string rc(double c0, double c1, double c2, double c3) { CubicPolynomial f; co(f, {c0, c1, c2, c3}); return roots(Roots<CubicPolynomial>()(f), CubicPolynomial::Roots(f)); }
static Intersection<LinearFunction> inter;
void drv_reset() { cur.reset(); inter = Intersection<LinearFunction>(); }
static std::string do1(const Cmd &c) {
  auto I = [&](int k) { return (double)c.i(k); };
  try {
    if (c.op == "new") { auto v = c.li(0); switch (v.size()) { case 1: { P0 *x = new P0(); x->p.coefficients()[0] = v[0]; cur.reset(x); break; } case 2: mk<1>(v); break; case 3: mk<2>(v); break; case 4: mk<3>(v); break; case 5: mk<4>(v); break; case 6: mk<5>(v); break; case 7: mk<6>(v); break; case 8: mk<7>(v); break; default: return "?"; } return "ok"; }
    if (c.op == "pascal") { int r = c.i(1); switch (c.i(0)) { case 1: return pascal<1>(r); case 2: return pascal<2>(r); case 3: return pascal<3>(r); case 4: return pascal<4>(r); case 5: return pascal<5>(r); case 6: return pascal<6>(r); case 7: return pascal<7>(r); case 8: return pascal<8>(r); case 10: return pascal<10>(r); } return "?"; }
    if (c.op == "lin") { LinearFunction f = LinearFunction::Interpolation(X(I(0)), Y(I(1)), X(I(2)), Y(I(3))); LinearFunction g; g.coefficients() << 7, 7; g = LinearFunction::Interpolation(X(I(0)), Y(I(1)), X(I(2)), Y(I(3))); LinearFunction h = LinearInterpolation(X(I(0)), Y(I(1)), X(I(2)), Y(I(3))).instantiate();
      for (int j = 0; j < 2; ++j) if (f.coefficients()[j] != g.coefficients()[j] || f.coefficients()[j] != h.coefficients()[j]) return "!differ"; return ny(f(X(I(0)))) + "," + ny(f(X(I(2)))) + "," + ny(f(X(2 * I(2) - I(0)))); }
    if (c.op == "slope") { LinearFunction f = LinearFunction::PointSlopeForm(X(I(0)), Y(I(1)), D1(I(2))), g = LinearPointSlopeForm(X(I(0)), Y(I(1)), D1(I(2))).instantiate(); for (int j = 0; j < 2; ++j) if (f.coefficients()[j] != g.coefficients()[j]) return "!differ"; return ny(f(X(I(0)))) + "," + ny(f(X(I(0) + 1))) + "," + n1(f.derivative(X(3.0))); }
    if (c.op == "cub1") { CubicPolynomial p = CubicPolynomial::DerivativeInterpolation(X(I(0)), Y(I(1)), D1(I(2)), X(I(3)), Y(I(4)), D1(I(5))); CubicPolynomial q = CubicDerivativeInterpolation(X(I(0)), Y(I(1)), D1(I(2)), X(I(3)), Y(I(4)), D1(I(5))).instantiate(); for (int j = 0; j < 4; ++j) if (p.coefficients()[j] != q.coefficients()[j]) return "!differ";
      return ny(p(X(I(0)))) + "," + n1(p.derivative(X(I(0)))) + "," + ny(p(X(I(3)))) + "," + n1(p.derivative(X(I(3)))); }
    if (c.op == "cub2") { CubicPolynomial p; p.coefficients() << 1, 2, 3, 4; p = CubicPolynomial::SecondDerivativeInterpolation(X(I(0)), Y(I(1)), D2(I(2)), X(I(3)), Y(I(4)), D2(I(5))); CubicPolynomial q = CubicSecondDerivativeInterpolation(X(I(0)), Y(I(1)), D2(I(2)), X(I(3)), Y(I(4)), D2(I(5))).instantiate(); for (int j = 0; j < 4; ++j) if (p.coefficients()[j] != q.coefficients()[j]) return "!differ";
      return ny(p(X(I(0)))) + "," + n2(p.dderivative(X(I(0)))) + "," + ny(p(X(I(3)))) + "," + n2(p.dderivative(X(I(3)))); }
    if (c.op == "quin") { QuinticPolynomial p = QuinticPolynomial::Interpolation(X(I(0)), Y(I(1)), D1(I(2)), D2(I(3)), X(I(4)), Y(I(5)), D1(I(6)), D2(I(7))); double a = X(I(0)), b = X(I(4)); QuinticPolynomial q = QuinticInterpolation(X(I(0)), Y(I(1)), D1(I(2)), D2(I(3)), X(I(4)), Y(I(5)), D1(I(6)), D2(I(7))).instantiate(); for (int j = 0; j < 6; ++j) if (p.coefficients()[j] != q.coefficients()[j]) return "!differ";
      return ny(p(a)) + "," + n1(p.derivative(a)) + "," + n2(p.dderivative(a)) + "," + ny(p(b)) + "," + n1(p.derivative(b)) + "," + n2(p.dderivative(b)); }
    if (c.op == "rlin") return c.i(0) ? rl(-I(0) * I(1), I(0)) : rl(I(1), 0);
    if (c.op == "rquad") { double a = I(0), r = I(1), t = I(2); return rq(a * r * t, -a * (r + t), a); }
    if (c.op == "rquad0") { double a = I(0), h = I(1), k = I(2); return rq(a * (h * h + k), -2 * a * h, a); }
    if (c.op == "rquadl") return c.i(0) ? rq(-I(0) * I(1), I(0), 0) : rq(I(1), 0, 0);
    if (c.op == "rcub") { double a = I(0), r = I(1), t = I(2), u = I(3); return rc(-a * r * t * u, a * (r * t + t * u + u * r), -a * (r + t + u), a); }
    if (c.op == "rcub1") { double a = I(0), r = I(1), h = I(2), k = I(3), m = h * h + k; return rc(-a * r * m, a * (m + 2 * h * r), -a * (2 * h + r), a); }
    if (c.op == "rcubq") { double a = I(0), r = I(1), t = I(2); return rc(a * r * t, -a * (r + t), a, 0); }
    if (c.op == "rcubl") return c.i(0) ? rc(-I(0) * I(1), I(0), 0, 0) : rc(I(1), 0, 0, 0);
    if (c.op == "elin") { LinearFunction f; co(f, {I(2), I(3)}); std::string a = ny(Maximum<LinearFunction>()(X(I(0)), X(I(1)), f)) + "," + ny(Minimum<LinearFunction>()(X(I(0)), X(I(1)), f)), b = ny(LinearFunction::Maximum(X(I(0)), X(I(1)), f)) + "," + ny(LinearFunction::Minimum(X(I(0)), X(I(1)), f)); return a == b ? a : "!" + a + "|" + b; }
    if (c.op == "ecubs") { auto v = c.li(2); CubicPolynomial f; co(f, {(double)v[0], (double)v[1], (double)v[2], std::ldexp(I(4), -(int)I(3))}); return ny(CubicPolynomial::Maximum(X(I(0)), X(I(1)), f)) + "," + ny(CubicPolynomial::Minimum(X(I(0)), X(I(1)), f)); }
    if (c.op == "rquads") { QuadraticPolynomial f; co(f, {-I(0) * I(1), I(0), std::ldexp(I(3), -(int)I(2))}); auto a = QuadraticPolynomial::Roots(f); std::string r = std::to_string(a.size()) + ":"; for (unsigned i = 0; i < a.size(); ++i) r += std::fabs(a[i]) > 1e6 ? "" : num(a[i]); return r; }
    if (c.op == "ecub") { auto v = c.li(2); CubicPolynomial f; co(f, {(double)v[0], (double)v[1], (double)v[2], (double)v[3]}); std::string a = ny(Maximum<CubicPolynomial>()(X(I(0)), X(I(1)), f)) + "," + ny(Minimum<CubicPolynomial>()(X(I(0)), X(I(1)), f)), b = ny(CubicPolynomial::Maximum(X(I(0)), X(I(1)), f)) + "," + ny(CubicPolynomial::Minimum(X(I(0)), X(I(1)), f)); return a == b ? a : "!" + a + "|" + b; }
    if (c.op == "cross") { LinearFunction f, g; co(f, {I(0), I(1)}); co(g, {I(2), I(3)}); CartesianPoint2d p, q; std::string r, r2;
      try { p = inter(f, g); r = nx(p.x()) + "," + ny(p.y()); } catch (StandardException &e) { r = e.flag() == OutOfRangeError ? "throw:OutOfRange" : "throw:other"; }
      try { q = LinearFunction::Intersection(f, g); r2 = nx(q.x()) + "," + ny(q.y()); } catch (StandardException &e) { r2 = e.flag() == OutOfRangeError ? "throw:OutOfRange" : "throw:other"; }
      return r == r2 ? r + ";" + (inter.fail() ? "1" : "0") : "!" + r + "|" + r2; }
    return cur->run(c);
  } catch (StandardException &e) { return "throw"; }
}
std::string drv_do(const Cmd &c) {
  static const std::set<std::string> one = {"lin", "slope", "cub1", "cub2", "quin", "rlin", "rquad", "rquad0", "rquadl", "rcub", "rcub1", "rcubq", "rcubl", "elin", "ecub", "ecubs", "cross"};
  ex = ey = 0; std::string r = do1(c); if (!one.count(c.op)) return r;
  static const int sc[][2] = {{-30, 0}, {0, -30}, {21, 8}, {-9, 33}};
  for (auto &z : sc) { ex = z[0]; ey = z[1]; std::string q = do1(c); if (q != r) return r + "!scale" + std::to_string(ex) + "," + std::to_string(ey) + ":" + q; }
  return r;
}
