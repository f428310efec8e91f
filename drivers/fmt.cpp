#include "drv.hpp"
#include <memory>
#include <cstring>
#include <cmath>
#include <thread>
#include <functional>
#include <ecl/formatters.hpp>
#include <ecl/exceptions/standard_exception.hpp>
using namespace ecl;
struct Slot { virtual ~Slot() {} virtual Slot *copy() = 0; virtual void assign(Slot *) = 0; virtual std::string go(const Cmd &c) = 0; };
static std::function<void()> during; // runs when the first character of an output arrives
struct Buf : std::stringbuf {
  void first() { if (during) { auto d = std::move(during); during = nullptr; std::thread(d).join(); } }
  int_type overflow(int_type c) override { first(); return std::stringbuf::overflow(c); }
  std::streamsize xsputn(const char *s, std::streamsize n) override { first(); return std::stringbuf::xsputn(s, n); }
};
struct Stream : std::ostream { Buf b; Stream() : std::ostream(nullptr) { rdbuf(&b); } std::string str() { return b.str(); } };
template <class F> static std::string out(F &f) {
  Stream o;
  try { std::ostream &r = (o << f); if (&r != &o) return "!stream"; } catch (const StandardException &e) { return o.str().empty() && e.flag() == UsageError ? "Usage" : "!" + o.str(); }
  return "[" + o.str() + "]";
}
static Alignment al(long a) { switch (a) { case 1: return LeftAlign; case 2: return RightAlign; case 3: return CentreAlign; default: return NoAlign; } }
static IntegralBase ba(long b) { switch (b) { case 0: return Bin; case 1: return Hex; default: return Dec; } }
template <class T> struct I : Slot {
  static Format<T> mk(long w, long a, long b) { if (b != 0 && b != 1) { if (a < 1 || a > 3) { if (w == -1) return Format<T>(); return Format<T>(w); } return Format<T>(w, al(a)); } return Format<T>(w, al(a), ba(b)); }
  Format<T> f; I(long w, long a, long b) : f(mk(w, a, b)) {} I(const Format<T> &g) : f(g) {}
  Slot *copy() { return new I(f); } void assign(Slot *s) { f = static_cast<I *>(s)->f; }
  static T val(const Cmd &c) { unsigned long v = 0; for (long n : c.li(1)) v = v << 4 | n; return (T)v; }
  std::string go(const Cmd &c) {
    const std::string &o = c.op;
    if (o == "width") f.width(c.i(1)); else if (o == "align") f.align(al(c.i(1))); else if (o == "base") f.base(ba(c.i(1)));
    else if (o == "set") f((int)c.i(1), al(c.i(2)), ba(c.i(3))); else if (o == "val") f(val(c)); else if (o == "tmp") f(val(c), (int)c.i(2), ba(c.i(3))); else if (o == "tmpall") f(val(c), (int)c.i(2), al(c.i(3)), ba(c.i(4)));
    else if (o == "out") return out(f); else return "?";
    return "ok";
  }
};
template <class T> struct D : Slot {
  static Format<T> mk(long w, long p, long a) { if (a < 1 || a > 3) { if (p == 4) { if (w == -1) return Format<T>(); return Format<T>(w); } return Format<T>(w, p); } return Format<T>(w, p, al(a), Fixed); }
  Format<T> f; D(long w, long p, long a) : f(mk(w, p, a)) {} D(const Format<T> &g) : f(g) {}
  Slot *copy() { return new D(f); } void assign(Slot *s) { f = static_cast<D *>(s)->f; }
  static T val(const Cmd &c) { auto v = c.li(1); return (T)(v[1] == 0 ? v[0] / 8.0 : std::ldexp((double)v[0], v[1])); }
  std::string go(const Cmd &c) {
    const std::string &o = c.op;
    if (o == "width") f.width(c.i(1)); else if (o == "align") f.align(al(c.i(1))); else if (o == "prec") f.precision(c.i(1));
    else if (o == "get") return std::to_string(f.precision()) + "," + std::to_string(f.width());
    else if (o == "set") f((unsigned)c.i(4), (int)c.i(1), al(c.i(2)), Fixed); else if (o == "set2") f((unsigned)c.i(1), (int)c.i(2)); else if (o == "val") f(val(c)); else if (o == "tmp") f(val(c), (unsigned)c.i(4), (int)c.i(2)); else if (o == "tmpall") f(val(c), (unsigned)c.i(5), (int)c.i(2), al(c.i(3)), Fixed);
    else if (o == "out") return out(f); else return "?";
    return "ok";
  }
};
struct S : Slot {
  Format<std::string> f; S(long w, long a) : f(w, al(a)) {} S(const Format<std::string> &g) : f(g) {}
  Slot *copy() { return new S(f); } void assign(Slot *s) { f = static_cast<S *>(s)->f; }
  std::string go(const Cmd &c) {
    const std::string &o = c.op;
    if (o == "width") f.width(c.i(1)); else if (o == "align") f.align(al(c.i(1)));
    else if (o == "set") f(c.i(1), al(c.i(2))); else if (o == "val") f(c.s(1)); else if (o == "tmp") f(c.s(1), c.i(2)); else if (o == "tmpall") f(c.s(1), c.i(2), al(c.i(3)));
    else if (o == "out") return out(f); else return "?";
    return "ok";
  }
};
// formatters are built over memory that is not zero
static std::unique_ptr<Slot> sl[3];
void *operator new(size_t n) { void *p = malloc(n ? n : 1); memset(p, 0x5b, n); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void drv_reset() { for (auto &p : sl) p.reset(); }
static Slot *make(const Cmd &c) {
  long w = c.i(2), a = c.i(3), b = c.i(4), p = c.i(5);
  switch (c.i(1)) { case 0: return new I<short>(w, a, b); case 1: return new I<int>(w, a, b); case 2: return new I<long>(w, a, b); case 3: return new I<char>(w, a, b); case 4: return new I<signed char>(w, a, b); case 5: return new I<unsigned short>(w, a, b);
    case 6: return new I<unsigned int>(w, a, b); case 7: return new I<unsigned long>(w, a, b); case 8: return new I<unsigned char>(w, a, b); case 9: return new D<float>(w, p, a); case 10: return new D<double>(w, p, a); default: return new S(w, a); }
}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "mode") {
#ifdef NDEBUG
    return "0";
#else
    return "1";
#endif
  }
  auto &p = sl[c.i(0)];
  if (o == "new") { p.reset(make(c)); return "ok"; }
  if (o == "end") { p.reset(); return "ok"; }
  if (o == "copy") { Slot *q = sl[c.i(1)]->copy(); p.reset(q); return "ok"; }
  if (o == "assign") { p->assign(sl[c.i(1)].get()); return "ok"; }
  if (o == "both") { // slot 0's output starts, then another thread prints slot 1
    std::string b; bool done = false; Cmd d = c; d.op = "out"; Slot *q = sl[c.i(1)].get();
    during = [&] { b = q->go(d); done = true; };
    std::string a = p->go(d);
    during = nullptr;
    if (!done) b = q->go(d);
    return a + " " + b;
  }
  return p->go(c);
}
