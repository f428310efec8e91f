#include "drv.hpp"
#include <ecl/containers/array.hpp>
#include <ecl/exceptions/standard_exception.hpp>
typedef VT T;
template <class X> struct Conv { static X to(long v) { return (X)v; } static std::string from(const X &v) { return std::to_string((long)v); } };
template <> struct Conv<std::string> { static std::string to(long v) { return std::to_string(v); } static std::string from(const std::string &s) { return s; } };
typedef Conv<T> C;
struct Base { virtual ~Base() {} virtual std::string go(const Cmd &, Base *) = 0; virtual size_t size() const = 0; virtual Base *clone() const = 0; };
template <class A, bool D> struct Extra { static void resize(A &, long) {} static void clear(A &) {} static A konst(long, long v) { static T t; t = C::to(v); return A::Constant(t); } };
template <class A> struct Extra<A, true> { static void resize(A &a, long n) { a.resize(n); } static void clear(A &a) { a.clear(); } static A konst(long n, long v) { static T t; t = C::to(v); return A::Constant(n, t); } };
// both ways give the same: a value or a throw
template <class F, class G> static std::string both(F f, G g) {
  std::string r, q; bool t = false, u = false; ecl::ErrorFlag e = ecl::NoError, d = ecl::NoError;
  try { r = f(); } catch (ecl::StandardException &x) { t = true; e = x.flag(); }
  try { q = g(); } catch (ecl::StandardException &x) { u = true; d = x.flag(); }
  if (t != u) return t ? "!throws:" + q : "!const throws:" + r;
  if (t && e != d) return "!throws"; if (t) throw ecl::StandardException(LOC, e);
  return r == q ? r : r + "!const";
}
template <class A, bool D> struct Impl : Base {
  A a;
  Impl() : a() {}
  template <class X> Impl(const X &x) : a(x) {}
  size_t size() const override { return a.size(); }
  Base *clone() const override { return new Impl(a); }
  std::string go(const Cmd &c, Base *other) override {
    const A &ca = a;
    if (c.op == "at") return both([&]() { return C::from(a.at(c.i(1))); }, [&]() { return C::from(ca.at(c.i(1))); });
    if (c.op == "idx") return both([&]() { return C::from(a[c.i(1)]); }, [&]() { return C::from(ca[c.i(1)]); });
    if (c.op == "put") { if (c.i(2) % 2) a.at(c.i(1)) = C::to(c.i(2)); else a[c.i(1)] = C::to(c.i(2)); return "ok"; }
    if (c.op == "front") return both([&]() { return C::from(a.front()); }, [&]() { return C::from(ca.front()); });
    if (c.op == "back") return both([&]() { return C::from(a.back()); }, [&]() { return C::from(ca.back()); });
    if (c.op == "iter") { std::string r, q; for (typename A::iterator it = a.begin(); it != a.end(); ++it) r += (r.empty() ? "" : ",") + C::from(*it);
      for (typename A::const_iterator it = ca.begin(); it != ca.end(); ++it) q += (q.empty() ? "" : ",") + C::from(*it); return r == q ? r : "!const"; }
    if (c.op == "riter") { std::string r, q; for (typename A::reverse_iterator it = a.rbegin(); it != a.rend(); ++it) r += (r.empty() ? "" : ",") + C::from(*it);
      for (typename A::const_reverse_iterator it = ca.rbegin(); it != ca.rend(); ++it) q += (q.empty() ? "" : ",") + C::from(*it); return r == q ? r : "!const"; }
    if (c.op == "print") { std::ostringstream o; o << ca; std::string r = o.str(); for (char &ch : r) if (ch == ' ') ch = '_'; return r; }
    if (c.op == "init") { auto v = c.li(1);
      switch (v.size()) {
        case 1: a << C::to(v[0]); break;
        case 2: a << C::to(v[0]), C::to(v[1]); break;
        case 3: a << C::to(v[0]), C::to(v[1]), C::to(v[2]); break;
        case 4: a << C::to(v[0]), C::to(v[1]), C::to(v[2]), C::to(v[3]); break;
        case 5: a << C::to(v[0]), C::to(v[1]), C::to(v[2]), C::to(v[3]), C::to(v[4]); break;
        default: return "?"; }
      return "ok"; }
    if (c.op == "assign") { a = static_cast<Impl *>(other)->a; return "ok"; }
    if (c.op == "reconst") { a = Extra<A, D>::konst(c.i(1), c.i(2)); return "ok"; }
    if (c.op == "resize") { Extra<A, D>::resize(a, c.i(1)); return "ok"; }
    if (c.op == "clear") { Extra<A, D>::clear(a); return "ok"; }
#ifdef ECL_MEM_CHECK_ARRAYS
    if (c.op == "smash") { char *p = c.a[1] == "lo" ? (char *)(&*a.begin()) - 1 : (char *)(&*a.begin() + a.size()); volatile char *q = p; *q = 'x'; return "ok"; }
    if (c.op == "guard") { std::string r; r += a.bufferUnderRun() ? "1" : "0"; r += a.bufferOverRun() ? "1" : "0"; r += a.bufferOverFlow() ? "1" : "0"; return r; }
#endif
    return "?";
  }
};
template <int N> Base *fx(bool k, long v) { typedef ecl::Array<T, N> A; return k ? new Impl<A, false>(Extra<A, false>::konst(0, v)) : new Impl<A, false>(); }
static Base *make(char kind, long n, bool k, long v) {
  typedef ecl::Array<T> A;
  if (kind == 'd') { if (k) return new Impl<A, true>(Extra<A, true>::konst(n, v)); return n ? new Impl<A, true>((unsigned)n) : new Impl<A, true>(); }
  switch (n) { case 1: return fx<1>(k, v); case 2: return fx<2>(k, v); case 3: return fx<3>(k, v); case 4: return fx<4>(k, v); case 8: return fx<8>(k, v); } return 0;
}
static std::unique_ptr<Base> obj[2];
void drv_reset() { obj[0].reset(); obj[1].reset(); }
std::string drv_do(const Cmd &c) {
  auto &o = obj[c.a[0] == "b"]; std::string r = "ok";
  try {
    if (c.op == "new") o.reset(make(c.a[1][0], c.i(2), false, 0));
    else if (c.op == "const") o.reset(make(c.a[1][0], c.i(2), true, c.i(3)));
    else if (c.op == "copy") o.reset(obj[c.a[1] == "b"]->clone());
    else r = o->go(c, c.op == "assign" ? obj[c.a[1] == "b"].get() : 0);
  } catch (ecl::StandardException &e) { r = e.flag() == ecl::OutOfRangeError ? "throw:OutOfRange" : "throw:other"; }
  return r + ";n=" + std::to_string(o->size());
}
