#include "drv.hpp"
#include <ecl/containers/fifo.hpp>
#include <ecl/exceptions/standard_exception.hpp>
template <class X> struct Conv { static X to(long v) { return (X)v; } static std::string from(const X &v) { return std::to_string((long)v); } };
template <> struct Conv<std::string> { static std::string to(long v) { return std::to_string(v); } static std::string from(const std::string &s) { return s; } };
typedef VT T; typedef Conv<T> C; typedef ecl::FiFo<T> F;
static std::unique_ptr<F> f; static long len;
void drv_reset() { f.reset(); }
std::string drv_do(const Cmd &c) {
  try {
    if (c.op == "new") { len = c.i(0); f.reset(c.i(1) < 0 ? new F((unsigned)len) : new F((unsigned)len, C::to(c.i(1)))); return "ok"; }
    const F &cf = *f;
    if (c.op == "push") { f->push_back(C::to(c.i(0))); return "ok"; }
    if (c.op == "fill") { f->fill(C::to(c.i(0))); return "ok"; }
    if (c.op == "at") { std::string r = C::from((*f)[c.i(0)]); return r == C::from(cf[c.i(0)]) ? r : "!const"; }
    if (c.op == "put") { (*f)[c.i(0)] = C::to(c.i(1)); return "ok"; }
    if (c.op == "all") { std::string r; for (int i = 0; i < len; ++i) r += (i ? "," : "") + C::from(cf[i]); return r; }
    if (c.op == "idx") return std::to_string(f->get_idx());
    if (c.op == "resize") { f->resize(c.i(0)); len = c.i(0); return "ok"; }
  } catch (ecl::StandardException &e) { return e.flag() == ecl::OutOfRangeError ? "throw:OutOfRange" : "throw:other"; }
  return "?";
}
