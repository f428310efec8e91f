#include "drv.hpp"
#include <algorithm>
#include "num.hpp"
#include <ecl/geometry/cubic_spline.hpp>
#include <ecl/geometry/smooth_linear_spline.hpp>
#include <ecl/geometry/tension_spline.hpp>
#include <ecl/exceptions/data_exception.hpp>
using namespace ecl;
// everything is done at several scales of x and of y: by powers of two, which are exact
static const int NS = 4; static const int scales[NS][2] = {{0, 0}, {-24, 0}, {0, -24}, {15, 9}}; static int ex, ey;
static double sx(double v) { return std::ldexp(v, ex); } static double sy(double v) { return std::ldexp(v, ey); } static double s1(double v) { return std::ldexp(v, ey - ex); } static double s2(double v) { return std::ldexp(v, ey - 2 * ex); }
static double uy(double v) { return std::ldexp(v, -ey); } static double u1(double v) { return std::ldexp(v, ex - ey); } static double u2(double v) { return std::ldexp(v, 2 * ex - ey); }
static CubicSpline cubs[NS]; static std::unique_ptr<SmoothLinearSpline> sms[NS]; static TensionSpline tens[NS]; static double tau; static std::vector<long> X;
void drv_reset() { for (int z = 0; z < NS; ++z) { cubs[z] = CubicSpline(); sms[z].reset(); tens[z] = TensionSpline(); } }
static Array<double> arr(const std::vector<long> &v, int e) { Array<double> a(v.size()); for (size_t i = 0; i < v.size(); ++i) a[i] = std::ldexp((double)v[i], e); return a; }
static std::string fl(ErrorFlag f) { return f == OutOfRangeError ? "OutOfRange" : f == ConstructorError ? "Constructor" : "other"; }
static std::string do1(const Cmd &c, CubicSpline &cub, std::unique_ptr<SmoothLinearSpline> &sm, TensionSpline &ten) {
  const std::string &o = c.op;
  const CubicSpline &cc = cub; const TensionSpline &cz = ten; struct { const TensionSpline &t; double operator()(double x) const { return uy(t(sx(x))); } double derivative(double x) const { return u1(t.derivative(sx(x))); } double dderivative(double x) const { return u2(t.dderivative(sx(x))); } } ct = {cz};
  const double T6 = 1e-6;
  try {
    if (o == "nat" || o == "clamp" || o == "heur") {
      auto xs = c.li(0), ys = c.li(1); Array<double> x = arr(xs, ex), y = arr(ys, ey);
      // the same spline, whichever way it is made from its description: constructed, instantiated, assigned to a spline that was another
      auto make = [&](auto bp) { CubicSpline n(bp), m = bp.instantiate(), w = cub; w = bp; w = CubicSpline(w); bp.apply(cub);
        for (int q = 4 * xs.front(); q <= 4 * xs.back(); ++q) { double t = sx(q / 4.0); for (const CubicSpline *z : {&m, &w, &n}) if (cc(t) != (*z)(t) || cc.derivative(t) != z->derivative(t) || cc.dderivative(t) != z->dderivative(t)) return std::string("!differ"); }
        return std::string("ok"); };
      return o == "nat" ? make(CubicSpline::Natural(x, y)) : o == "clamp" ? make(CubicSpline::ContinuousDerivatives(x, y, s1(c.i(3)), s1(c.i(4)))) : make(CubicSpline::DerivativeHeuristic(x, y, s1(c.i(2)), s1(c.i(3))));
    }
    if (o == "at") return num(uy(cc(sx(c.i(0) / 4.0))) * 2304, T6);
    if (o == "d") return num(u1(cc.derivative(sx(c.i(0) / 4.0))) * 576, T6);
    if (o == "dd") return num(u2(cc.dderivative(sx(c.i(0) / 4.0))) * 144, T6);
    if (o == "smooth") { sm.reset(new SmoothLinearSpline(arr(c.li(0), ex), arr(c.li(1), ey), s2(c.i(2) < 0 ? 1e9 : c.i(2) / 4.0))); return "ok"; }
    if (o == "sat") return num(uy((*sm)(sx(c.i(0) / 2.0))) * c.i(1), T6);
    if (o == "sd") return num(u1(sm->derivative(sx(c.i(0) / 2.0))) * c.i(1), T6);
    if (o == "sdd") return num(u2(sm->dderivative(sx(c.i(0) / 2.0))) * c.i(1), T6);
    if (o == "tens") { auto xs = c.li(0), ys = c.li(1); tau = c.i(2) / 10.0; auto bp = TensionSpline::Natural(arr(xs, ex), arr(ys, ey), std::ldexp(tau, -ex)); TensionSpline n(bp), m = bp.instantiate(), w = ten; w = bp; bp.apply(ten); X = xs;
      for (int q = 4 * xs.front(); q <= 4 * xs.back(); ++q) { double t = sx(q / 4.0); for (const TensionSpline *z : {&m, &w, &n}) if (cz(t) != (*z)(t) || cz.derivative(t) != z->derivative(t) || cz.dderivative(t) != z->dderivative(t)) return "!differ"; }
      return "ok"; }
    if (o == "tknot") { double x = X.at(c.i(0)); return num(ct(x)); }
    if (o == "tjump") { double x = X.at(c.i(0)), e = 1e-8; return num(ct.derivative(x + e) - ct.derivative(x), 1e-4) + "," + num(ct.dderivative(x + e) - ct.dderivative(x), 1e-4); }
    if (o == "tends") return num(ct.dderivative((double)X.front())) + "," + num(ct.dderivative((double)X.back()));
    if (o == "tode") { int i = c.i(0); double a = X.at(i), b = X.at(i + 1), m = (a + b) / 2, e = 1e-11; double z0 = ct.dderivative(i ? a + e : a), z1 = ct.dderivative(b);
      double r1 = ct.dderivative(m) - (z0 + z1) / (2 * cosh(tau * (b - a) / 2));
      double r2 = ct(m) - ct.dderivative(m) / (tau * tau) - ((ct(a) - z0 / (tau * tau)) + (ct(b) - z1 / (tau * tau))) / 2; return num(r1, 1e-5) + "," + num(r2, 1e-5); }
    if (o == "tslope") { int i = c.i(0); double a = X.at(i), b = X.at(i + 1), m = a + (b - a) * 0.3, e = 1e-5; double r1 = (ct(m + e) - ct(m - e)) / (2 * e) - ct.derivative(m), r2 = (ct.derivative(m + e) - ct.derivative(m - e)) / (2 * e) - ct.dderivative(m);
      double sc = std::max(1.0, std::fabs(ct.dderivative(m))); return num(r1 / sc, 1e-3) + "," + num(r2 / sc, 1e-3); }
    if (o == "tlin") return num(2 * ct((X.at(c.i(0)) + X.at(c.i(0) + 1)) / 2.0), 0.2);
    if (o == "tline") return num(2 * ct(c.i(0) / 2.0));
    if (o == "tout") { int w = c.i(1); double x = c.i(0) < 0 ? X.front() - 1.0 : X.back() + 1.0; double v = w == 0 ? ct(x) : w == 1 ? ct.derivative(x) : ct.dderivative(x); return num(v); }
    if (o == "tfun") { auto I = [&](int k) { return (double)c.i(k); }; TensionFunction f(TensionFunction::Interpolation(sx(I(0)), sy(I(1)), s2(I(2)), sx(I(3)), sy(I(4)), s2(I(5)))), g = blueprints::TensionSecondDerivativeInterpolation(sx(I(0)), sy(I(1)), s2(I(2)), sx(I(3)), sy(I(4)), s2(I(5))).instantiate(); double t = std::ldexp(c.i(6) / 10.0, -ex);
      if (f(t, sx(I(0))) != g(t, sx(I(0)))) return "!differ"; return num(uy(f(t, sx(I(0))))) + "," + num(u2(f.dderivative(t, sx(I(0))))) + "," + num(uy(f(t, sx(I(3))))) + "," + num(u2(f.dderivative(t, sx(I(3))))); }
  } catch (DataException<int> &e) { return "throw:" + fl(e.flag()) + (e.flag() == ConstructorError ? ":" + std::to_string(e.data()) : ""); }
  catch (StandardException &e) { return "throw:" + fl(e.flag()); }
  return "?";
}
std::string drv_do(const Cmd &c) {
  std::string r;
  for (int z = 0; z < NS; ++z) { ex = scales[z][0]; ey = scales[z][1]; std::string q = do1(c, cubs[z], sms[z], tens[z]); if (!z) r = q; else if (q != r) return r + "!scale" + std::to_string(ex) + "," + std::to_string(ey) + ":" + q; }
  return r;
}
