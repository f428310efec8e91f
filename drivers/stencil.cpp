#include "drv.hpp"
#include <vector>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/containers/stencil/specialisations.hpp>
#include <ecl/exceptions/standard_exception.hpp>
struct Base { virtual ~Base() {} virtual std::string go(const Cmd &) = 0; virtual std::string view() = 0; };
template <class A> void fillA(A &a, const std::vector<long> &v) { for (size_t i = 0; i < v.size(); ++i) a[i] = v[i]; }
template <class A> struct ViaArray { static ecl::Stencil<A> open(A &a, unsigned s, unsigned n) { return a.stencil(s, n); } };
template <class X> struct ViaArray<std::vector<X> > { static ecl::Stencil<std::vector<X> > open(std::vector<X> &a, unsigned s, unsigned n) { return ecl::Stencil<std::vector<X> >(a, s, n); } };
template <class S, bool W> struct Wr { static void put(S &s, long i, long v) { if (v % 2) s.at(i) = v; else s[i] = v; }
  static void init(S &s, const std::vector<long> &v) { switch (v.size()) { case 1: s << v[0]; break; case 2: s << v[0], v[1]; break; case 3: s << v[0], v[1], v[2]; break; case 4: s << v[0], v[1], v[2], v[3]; break; } } };
template <class S> struct Wr<S, false> { static void put(S &, long, long) {} static void init(S &, const std::vector<long> &) {} };
// both ways give the same: a value or a throw
template <class F, class G> static std::string both(F f, G g) {
  std::string r, q; bool t = false, u = false; ecl::ErrorFlag e = ecl::NoError, d = ecl::NoError;
  try { r = f(); } catch (ecl::StandardException &x) { t = true; e = x.flag(); }
  try { q = g(); } catch (ecl::StandardException &x) { u = true; d = x.flag(); }
  if (t != u) return t ? "!throws:" + q : "!const throws:" + r;
  if (t && e != d) return "!throws"; if (t) throw ecl::StandardException(LOC, e);
  return r == q ? r : r + "!const";
}
template <class S, bool W, bool P> struct Ops {
  std::unique_ptr<S> w[4];
  bool common(const Cmd &c, std::string &r) {
    auto &x = w[c.i(0)];
    if (c.op == "sub") { S t = x->stencil(c.i(2), c.i(3)); w[c.i(1)].reset(new S(t)); }
    else if (c.op == "settle") { try { x->resettle(c.i(1), c.i(2)); } catch (...) { x.reset(); throw; } }
    else if (c.op == "size") r = std::to_string(x->size());
    else if (c.op == "at") { const S &cx = *x; r = both([&]() { return std::to_string((long)x->at(c.i(1))); }, [&]() { return std::to_string((long)cx.at(c.i(1))); }); }
    else if (c.op == "idx") { const S &cx = *x; r = both([&]() { return std::to_string((long)(*x)[c.i(1)]); }, [&]() { return std::to_string((long)cx[c.i(1)]); }); }
    else if (c.op == "put") Wr<S, W>::put(*x, c.i(1), c.i(2));
    else if (c.op == "iter") { r = ""; for (auto it = x->begin(); it != x->end(); ++it) r += (r.empty() ? "" : ",") + std::to_string((long)*it);
      const S &cx = *x; std::string q; for (auto it = cx.begin(); it != cx.end(); ++it) q += (q.empty() ? "" : ",") + std::to_string((long)*it); if (q != r) r += "!const"; }
    else if (c.op == "riter") { r = ""; for (auto it = x->rbegin(); it != x->rend(); ++it) r += (r.empty() ? "" : ",") + std::to_string((long)*it);
      const S &cx = *x; std::string q; for (auto it = cx.rbegin(); it != cx.rend(); ++it) q += (q.empty() ? "" : ",") + std::to_string((long)*it); if (q != r) r += "!const"; }
    else if (c.op == "front") { const S &cx = *x; r = std::to_string((long)x->front()); if (&cx.front() != &x->front()) r += "!const"; }
    else if (c.op == "back") { const S &cx = *x; r = std::to_string((long)x->back()); if (&cx.back() != &x->back()) r += "!const"; }
    else if (c.op == "init") Wr<S, W>::init(*x, c.li(1));
    else if (c.op == "let") *x = *w[c.i(1)];
    else return false;
    return true;
  }
};
template <class A> struct OverArray : Base, Ops<ecl::Stencil<A>, true, true> {
  A a, b; typedef ecl::Stencil<A> S;
  OverArray(A &x, A &y) : a(x), b(y) {}
  std::string view() override { std::string r = ";a="; for (size_t i = 0; i < a.size(); ++i) r += (i ? "," : "") + std::to_string((long)a[i]); r += ";b="; for (size_t i = 0; i < b.size(); ++i) r += (i ? "," : "") + std::to_string((long)b[i]); return r; }
  std::string go(const Cmd &c) override {
    std::string r = "ok";
    if (c.op == "open") { S t = ViaArray<A>::open(c.a[1] == "b" ? b : a, c.i(2), c.i(3)); this->w[c.i(0)].reset(new S(t)); }
    else if (c.op == "ctor") this->w[c.i(0)].reset(new S(c.a[1] == "b" ? b : a, (unsigned)c.i(2), (unsigned)c.i(3)));
    else if (c.op == "print") { std::ostringstream o; o << *this->w[c.i(0)]; r = o.str(); for (char &ch : r) if (ch == ' ') ch = '_'; }
    else if (!this->common(c, r)) r = "?";
    return r;
  }
};
template <class P, bool W> struct OverPtr : Base, Ops<ecl::Stencil<P>, W, false> {
  std::vector<unsigned char> a, b; typedef ecl::Stencil<P> S;
  std::string view() override { std::string r = ";a="; for (size_t i = 0; i < a.size(); ++i) r += (i ? "," : "") + std::to_string((long)a[i]); r += ";b="; for (size_t i = 0; i < b.size(); ++i) r += (i ? "," : "") + std::to_string((long)b[i]); return r; }
  std::string go(const Cmd &c) override {
    std::string r = "ok";
    if (c.op == "ctor") { auto &x = c.a[1] == "b" ? b : a; this->w[c.i(0)].reset(new S((P)x.data(), (unsigned)x.size(), (unsigned)c.i(2), (unsigned)c.i(3))); }
    else if (!this->common(c, r)) r = "?";
    return r;
  }
};
static std::unique_ptr<Base> o;
template <int N> Base *fixed(const std::vector<long> &x, const std::vector<long> &y) { ecl::Array<int, N> a, b; fillA(a, x); fillA(b, y); return new OverArray<ecl::Array<int, N> >(a, b); }
void drv_reset() { o.reset(); }
std::string drv_do(const Cmd &c) {
  std::string r = "ok";
  try {
    if (c.op == "make") {
      auto x = c.li(1), y = c.li(2); char k = c.a[0][0];
      if (k == 'f') { switch (x.size()) { case 2: o.reset(fixed<2>(x, y)); break; case 3: o.reset(fixed<3>(x, y)); break; case 6: o.reset(fixed<6>(x, y)); break; } }
      else if (k == 'd') { ecl::Array<int> a(x.size()), b(y.size()); fillA(a, x); fillA(b, y); o.reset(new OverArray<ecl::Array<int> >(a, b)); }
      else if (k == 'v') { std::vector<int> a(x.begin(), x.end()), b(y.begin(), y.end()); o.reset(new OverArray<std::vector<int> >(a, b)); }
      else if (k == 'u') { auto *p = new OverPtr<unsigned char *, true>(); p->a.assign(x.begin(), x.end()); p->b.assign(y.begin(), y.end()); o.reset(p); }
      else { auto *p = new OverPtr<const unsigned char *, false>(); p->a.assign(x.begin(), x.end()); p->b.assign(y.begin(), y.end()); o.reset(p); }
    } else r = o->go(c);
  } catch (ecl::StandardException &e) { r = e.flag() == ecl::OutOfRangeError ? "throw:OutOfRange" : "throw:other"; }
  return r + o->view();
}
