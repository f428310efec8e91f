#include "drv.hpp"
#include <cstring>
#include <memory>
#include <ecl/converters.hpp>
#include <ecl/exceptions/standard_exception.hpp>
using namespace ecl;
static Converter<char *, void> *vd; static Converter<int, std::string> *is_; static Converter<int, char> *ic; static Converter<char, int> *ci; static Converter<char, unsigned int> *cu;
template <class T> static void re(T *&p) { delete p; p = new T(); }
void drv_reset() { re(vd); re(is_); re(ic); re(ci); re(cu); }
static std::string txt(const char *p) { return p ? std::string(p) : "NULL"; }
static std::string flag(const Error &e) { switch (e.flag()) { case NoError: return ""; case ConversionError: return "Conversion"; case OutOfRangeError: return "OutOfRange"; default: return "!flag"; } }
// a buffer with guards on either side; the conversion may use n bytes
struct Ext { char b[320]; long n; Ext(long n) : n(n) { memset(b, 0x7e, sizeof b); } char *beg() { return b + 16; } char *end() { return b + 16 + n - 1; }
  bool ok() { for (int i = 0; i < 16; ++i) if (b[i] != 0x7e) return false; for (size_t i = 16 + n; i < sizeof b; ++i) if (b[i] != 0x7e) return false; return true; }
  bool has(const char *p) { return !p || (p >= beg() && p <= end()); } };
// ways: 0 own converter, own buffer; 1 own converter, given buffer; 2 general converter, own buffer; 3 general converter, given buffer; 4 the general converter kept over the script (250 bytes)
template <class T, class... A> static std::string conv(int way, long n, const T &v, A... a) {
  if (way == 0) { Converter<char *, T> k(n); return txt(k(v, a...)); }
  if (way == 2) { Converter<char *, void> k(n); return txt(k(v, a...)); }
  if (way == 4) return txt((*vd)(v, a...));
  Ext e(n); std::string r; const char *p;
  if (way == 1) { Converter<char *, T> k(e.beg(), e.end()); p = k(v, a...); } else { Converter<char *, void> k(e.beg(), e.end()); p = k(v, a...); }
  if (!e.has(p)) return "!outside"; r = txt(p); return e.ok() ? r : "!overrun";
}
static std::string num(int t, int w, long n, const std::string &s) {
  long long x = strtoll(s.c_str(), 0, 10); unsigned long long u = strtoull(s.c_str(), 0, 10);
  switch (t) { case 0: return conv<char>(w, n, x); case 1: return conv<short>(w, n, x); case 2: return conv<int>(w, n, x); case 3: return conv<long>(w, n, x); case 4: return conv<unsigned char>(w, n, x); case 5: return conv<unsigned short>(w, n, x);
    case 6: return conv<unsigned int>(w, n, x); case 7: return conv<unsigned long>(w, n, u); case 8: return conv<long long>(w, n, x); default: return conv<unsigned long long>(w, n, u); }
}
template <class F> static std::string chk(F f) { try { return f(); } catch (const StandardException &e) { switch (e.flag()) { case ConversionError: return "Conversion"; case OutOfRangeError: return "OutOfRange"; default: return "!flag"; } } }
template <class K> static std::string fin(K &k, bool bad, const std::string &v) { std::string e = flag(k.error()); if (bad) return "error:" + e; return e.empty() ? v : v + ":" + e; }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "mode") {
#ifdef NDEBUG
    return "0";
#else
    return "1";
#endif
  }
  if (o == "num") return num(c.i(0), c.i(1), c.i(2), c.s(3));
  if (o == "flt") { int t = c.i(0), w = c.i(1), p = c.i(4); long n = c.i(2); double v = c.i(3) / 8.0; if (p == -1 && (c.i(3) & 1)) return t ? conv<double>(w, n, v) : conv<float>(w, n, (float)v); return t ? conv<double>(w, n, v, p) : conv<float>(w, n, (float)v, p); }
  if (o == "bool") { bool v = c.i(2); int w = c.i(0); long n = c.i(1); if (w == 0) { Converter<char *, bool> k; return txt(k(v)); } if (w == 4) return txt((*vd)(v)); if (w == 2) { Converter<char *, void> k(n); return txt(k(v)); } Ext e(n); Converter<char *, void> k(e.beg(), e.end()); std::string r = txt(k(v)); return e.ok() ? r : "!overrun"; }
  return chk([&]() -> std::string {
    if (o == "str") { int v = strtol(c.s(1).c_str(), 0, 10); if (c.i(0)) { Converter<std::string> k; return k(v); } Converter<std::string, int> k; return k(v); }
    if (o == "is") { std::string s; for (auto &x : c.strs(1)) s += x; bool bad; if (c.a[1] == "[]") s = ""; { std::istringstream q(s); int i; char ch; bad = !(q >> i) || q.get(ch); } if (c.i(0)) { Converter<int> k; int v = k(s); if (!bad) return fin(*is_, false, std::to_string(v)); } int v = (*is_)(s); return fin(*is_, bad, std::to_string(v)); }
    if (o == "ic") { char ch = c.s(1)[0]; bool bad = ch < '0' || ch > '9'; int v = (*ic)(ch); return fin(*ic, bad, std::to_string(v)); }
    if (o == "ci") { bool bad = c.i(1) < 0 || c.i(1) > 9; char v = (*ci)((int)c.i(1)); return fin(*ci, bad, std::string(1, v)); }
    if (o == "cu") { bool bad = c.i(1) > 9; char v = (*cu)((unsigned)c.i(1)); return fin(*cu, bad, std::string(1, v)); }
    return "?";
  });
}
