// Eigen::MatrixFormatter
#include "drv.hpp"
#include <memory>
#include <ecl/linear_algebra.hpp>
struct Slot { virtual ~Slot() {} virtual Slot *copy() = 0; virtual std::string go(const Cmd &c) = 0; };
template <class M> struct K : Slot {
  typedef typename M::Scalar T; typename M::Formatter f; std::shared_ptr<M> m;
  typedef typename M::Formatter F;
  static F make(long p, long w) { return p != 2 ? F(w, p) : w != -1 ? F(w) : F(); }
  K(long p, long w) : f(make(p, w)) {}
  K(const K &o) : f(o.f), m(o.m) {}
  Slot *copy() { return new K(*this); }
  std::string go(const Cmd &c) {
    const std::string &o = c.op;
    if (o == "get") return std::to_string(f.precision()) + "," + std::to_string(f.width());
    if (o == "prec") { if (&f.precision(c.i(0)) != &f) return "!"; return "ok"; }
    if (o == "width") { if (&f.width(c.i(0)) != &f) return "!"; return "ok"; }
    if (o == "give" || o == "givetmp") {
      auto v = c.li(1); long r = c.i(0), n = v.size() / r; m.reset(new M(r, n)); for (long i = 0; i < r; ++i) for (long j = 0; j < n; ++j) m->coeffRef(i, j) = v[i * n + j] / (T)8;
      if (o == "give") f(*m); else f(*m, (int)c.i(2), (unsigned)c.i(3)); return "ok";
    }
    if (o == "out") {
      std::ostringstream s;
      try { std::ostream &r = (s << f); if (&r != &s) return "!stream"; } catch (const ecl::StandardException &e) { return s.str().empty() && e.flag() == ecl::UsageError ? "Usage" : "!" + s.str(); }
      std::string t = s.str(); for (char &x : t) if (x == '\n') x = '/'; return t;
    }
    return "?";
  }
};
static std::unique_ptr<Slot> s;
void drv_reset() { s.reset(); }
std::string drv_do(const Cmd &c) {
  if (c.op == "mode") {
#ifdef NDEBUG
    return "0";
#else
    return "1";
#endif
  }
  if (c.op == "new") {
    long p = c.i(1), w = c.i(2);
    switch (c.i(0)) {
      case 0: s.reset(new K<Eigen::Matrix<double, 1, 3> >(p, w)); break; case 1: s.reset(new K<ecl::linear_algebra::Vector3d>(p, w)); break; case 2: s.reset(new K<ecl::linear_algebra::Matrix2f>(p, w)); break;
      case 3: s.reset(new K<Eigen::Matrix<float, 1, 3> >(p, w)); break; case 4: s.reset(new K<ecl::linear_algebra::MatrixXd>(p, w)); break; default: s.reset(new K<Eigen::Matrix<float, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> >(p, w));
    } return "ok";
  }
  if (c.op == "copy") { Slot *q = s->copy(); s.reset(q); return "ok"; }
  return s->go(c);
}
