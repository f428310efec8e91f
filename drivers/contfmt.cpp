#include "drv.hpp"
#include <memory>
#include <ecl/containers.hpp>
#include <ecl/formatters.hpp>
using namespace ecl;
struct Slot { virtual ~Slot() {} virtual Slot *copy() = 0; virtual std::string go(const Cmd &c) = 0; };
template <class F> static std::string out(F &f) {
  std::ostringstream o;
  try { std::ostream &r = (o << f); if (&r != &o) return "!stream"; } catch (const StandardException &e) { return o.str().empty() && e.flag() == UsageError ? "Usage" : "!" + o.str(); }
  return o.str();
}
// containers given to a formatter
template <class T> struct Hold; // builds a container of the values
template <class T, size_t N> struct Hold<Array<T, N> > { Array<T, N> a; Hold(const std::vector<long> &v) { for (size_t i = 0; i < N; ++i) a[i] = v.at(i) / (T)8; } Array<T, N> &get() { return a; } };
template <class T> struct Hold<Array<T> > { Array<T> a; Hold(const std::vector<long> &v) : a(v.size()) { for (size_t i = 0; i < v.size(); ++i) a[i] = v[i] / (T)8; } Array<T> &get() { return a; } };
template <class T> struct Hold<Stencil<Array<T> > > { Array<T> a; std::unique_ptr<Stencil<Array<T> > > s; Hold(const std::vector<long> &v) : a(v.size() + 3) { for (size_t i = 0; i < a.size(); ++i) a[i] = i < 2 || i - 2 >= v.size() ? 123456 : v[i - 2] / (T)8; s.reset(new Stencil<Array<T> >(a.stencil(2, v.size()))); } Stencil<Array<T> > &get() { return *s; } };
template <class C, class F> struct K : Slot {
  F f; std::shared_ptr<Hold<C> > h;
  static F mk(long p, long w) { if constexpr (std::is_constructible<F, int, int>::value) { if (w == -1) { if (p == 2) return F(); return F(p); } return F(p, w); } else { F f; f((unsigned)p, (int)w); return f; } }
  K(long p, long w) : f(mk(p, w)) {}
  Slot *copy() { return new K(*this); }
  std::string go(const Cmd &c) {
    const std::string &o = c.op;
    if (o == "getp") return std::to_string(f.precision());
    if (o == "prec") f.precision(c.i(0)); else if (o == "width") f.width(c.i(0)); else if (o == "set") f((unsigned)c.i(0), (int)c.i(1));
    else if (o == "give") { h.reset(new Hold<C>(c.li(0))); f(h->get()); } else if (o == "givetmp") { h.reset(new Hold<C>(c.li(0))); f(h->get(), (unsigned)c.i(1), (int)c.i(2)); }
    else if (o == "out") return out(f); else return "?";
    return "ok";
  }
};
static std::unique_ptr<Slot> s;
static Slot *make(long k, long p, long w) {
  switch (k) { case 0: return new K<Array<float, 3>, Format<Array<float, 3> > >(p, w); case 1: return new K<Array<double, 3>, Array<double, 3>::Formatter>(p, w); case 2: return new K<Array<float>, Format<Array<float> > >(p, w);
    case 3: return new K<Array<double>, Array<double>::Formatter>(p, w); case 4: return new K<Stencil<Array<float> >, Format<Stencil<Array<float> > > >(p, w); default: return new K<Stencil<Array<double> >, Format<Stencil<Array<double> > > >(p, w); }
}
void drv_reset() { s.reset(make(2, 2, -1)); }
template <class T> static void fill(T &a, const std::vector<long> &v) { for (size_t i = 0; i < v.size(); ++i) a[i] = v[i]; }
template <class A, class Fm> static std::string bytes(A &a, Fm &f, long first, long n, int way) {
  std::ostringstream o;
  if (way == 1) o << f(a.stencil(first, n)); else if (way == 2) { const A &k = a; o << f(k.begin() + first, k.begin() + first + n); } else o << f(a);
  return o.str();
}
template <class B> static std::string kinds(int k, const std::vector<long> &v, long first, long n) {
  bool all = first == 0 && n == (long)v.size(); int way = all ? k / 3 % 3 : 1 + k / 3 % 2;
  if (v.size() == 4) { Array<B, 4> a; fill(a, v); Format<Array<B, 4> > f; return bytes(a, f, first, n, way); }
  Array<B> a(v.size()); fill(a, v); typename Array<B>::Formatter f; return bytes(a, f, first, n, way);
}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "mode") {
#ifdef NDEBUG
    return "0";
#else
    return "1";
#endif
  }
  if (o == "new") { s.reset(make(c.i(0), c.i(1), c.i(2))); return "ok"; }
  if (o == "copy") { Slot *q = s->copy(); s.reset(q); return "ok"; }
  if (o == "bytes") {
    int k = c.i(0); auto v = c.li(1); long f = c.i(2), n = c.i(3);
    if (k == 9) { PushAndPop<unsigned char, 4> p; for (long i = 0; i < 3; ++i) p.push_back(0); for (long i = 0; i < 3; ++i) p.pop_front(); for (long i = f; i < f + n; ++i) p.push_back((unsigned char)v[i]); formatters::PushAndPopFormatter<unsigned char, 4> fm; std::ostringstream o; o << fm(p); return o.str(); }
    switch (k % 3) { case 0: return kinds<char>(k, v, f, n); case 1: return kinds<signed char>(k, v, f, n); default: return kinds<unsigned char>(k, v, f, n); }
  }
  return s->go(c);
}
