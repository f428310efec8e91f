#include "drv.hpp"
#include <memory>
#include <cstring>
#include <cmath>
#include <map>
#include <ecl/streams/text_stream.hpp>
#include <ecl/streams/string_stream.hpp>
#include <ecl/streams/manipulators.hpp>
using namespace ecl;
// a device of characters that fails on demand
struct Mem {
  std::string b; size_t rd = 0; long bad = 0; bool full = false; long fl = 0; std::function<void()> hook;
  bool shut = false; bool open() { return !shut; } bool isOpen() { return !shut; }
  long read(char &c) { if (shut) abort(); if (hook && rd > 0) { auto h = hook; hook = nullptr; h(); } if (bad == (long)rd + 1) return -1; if (rd >= b.size()) return 0; c = b[rd++]; return 1; }
  long read(char *s, unsigned long n) { unsigned long k = 0; while (k < n && rd < b.size()) s[k++] = b[rd++]; return k; }
  long write(char c) { if (shut) abort(); if (full) return -1; b += c; return 1; }
  long write(const char *s, unsigned long n) { if (shut) abort(); if (full) return -1; b.append(s, n); return n; }
  void flush() { ++fl; }
  unsigned long remaining() { return b.size() - rd; } unsigned long size() { return b.size(); } std::string str() { return b; } void clear() { b = ""; rd = 0; bad = 0; }
};
namespace ecl { template <> class is_sink<Mem> : public True {}; template <> class is_source<Mem> : public True {}; template <> class is_sourcesink<Mem> : public True {}; }
static std::string flag(const Error &e) { switch (e.flag()) { case NoError: return ""; case ReadError: return "Read"; case ConversionError: return "Conversion"; case OutOfRangeError: return "OutOfRange"; case WriteError: return "Write"; default: return "!flag"; } }
// plain decimal text with sig significant digits
static std::string plain(double v, int sig) {
  char b[64]; snprintf(b, sizeof b, "%.*e", sig - 1, v); std::string m; int ex = atoi(strchr(b, 'e') + 1); bool neg = b[0] == '-';
  for (char *p = b; *p != 'e'; ++p) if (*p >= '0' && *p <= '9') m += *p;
  std::string i, f; if (ex >= 0) { while ((int)m.size() < ex + 1) m += '0'; i = m.substr(0, ex + 1); f = m.substr(ex + 1); } else { i = "0"; f = std::string(-ex - 1, '0') + m; }
  while (!f.empty() && f.back() == '0') f.pop_back();
  std::string t = i + (f.empty() ? "" : "." + f); return (neg && t != "0" ? "-" : "") + t;
}
template <class S> static std::string st(S &s, const std::string &v, bool same) {
  if (s.fail() != (s.errorStatus().flag() != NoError)) return "!state";
  if (!s.fail()) return "ok:" + v; return "fail:" + flag(s.errorStatus()) + (same ? "" : "!changed");
}
template <class S, class T> static std::string rint(S &s, T x) { T v = x; auto &r = (s >> v); (void)r; return st(s, std::to_string(v), v == x); }
template <class S> static std::string rd(S &s, int t) {
  switch (t) { case 1: return rint<S, short>(s, 91); case 2: return rint<S, int>(s, 91); case 3: return rint<S, long>(s, 91); case 4: return rint<S, long long>(s, 91); case 5: return rint<S, unsigned char>(s, 91); case 6: return rint<S, unsigned short>(s, 91); case 7: return rint<S, unsigned int>(s, 91);
    case 8: return rint<S, unsigned long>(s, 91); case 9: return rint<S, unsigned long long>(s, 91); case 10: { float v = 91.5f; s >> v; return st(s, plain(v, 6), v == 91.5f); } case 11: { double v = 91.5; s >> v; return st(s, plain(v, 15), v == 91.5); }
    case 12: { std::string v = "?"; s >> v; return st(s, v, v == "?"); } case 13: { bool v = true; s >> v; std::string a = st(s, v ? "1" : "0", v); return a; } default: { char v = '?'; s >> v; return st(s, std::string(1, v), true); } }
}
struct Any { virtual ~Any() {} virtual std::string go(const Cmd &c) = 0; };
static std::string chs(const Cmd &c, size_t k) { std::string r; if (c.a.at(k) == "[]") return r; for (auto &x : c.strs(k)) r += x; return r; }
template <class S> struct K : Any {
  S s;
  void extra(Mem &m, const Cmd &c, std::string &r) {
    if (c.op == "shut") m.shut = c.i(0), r = "ok"; else if (c.op == "break") m.bad = m.rd + c.i(0), r = "ok"; else if (c.op == "heal") m.bad = 0, r = "ok"; else if (c.op == "full") m.full = c.i(0), r = "ok"; else if (c.op == "flushes") r = std::to_string(m.fl);
    else if (c.op == "nest") { std::string other; TextStream<Mem> o; o.device().b = chs(c, 1); int t = c.i(0); m.hook = [&]() { other = rd(o, t); }; std::string a = rd(s, t); if (m.hook) { m.hook = nullptr; other = rd(o, t); } r = a + "|" + other; }
  }
  void extra(String &d, const Cmd &c, std::string &r) {
    if (c.op == "c_str") r = d.c_str();
  }
  std::string go(const Cmd &c) {
    const std::string &o = c.op; std::string r; std::string v;
    auto done = [&]() { return s.fail() ? "fail:" + flag(s.errorStatus()) : std::string("ok"); };
    if (o == "text") { v = chs(c, 1); switch (c.i(0)) { case 0: s << v; break; case 1: s << v.c_str(); break; default: if (v.empty()) s << ""; for (char ch : v) s << ch; } return done(); }
    if (o == "num") { v = c.s(1); long long x = strtoll(v.c_str(), 0, 10); unsigned long long u = strtoull(v.c_str(), 0, 10);
      switch (c.i(0)) { case 1: s << (short)x; break; case 2: s << (int)x; break; case 3: s << (long)x; break; case 4: s << x; break; case 6: s << (unsigned short)x; break; case 7: s << (unsigned int)x; break; case 8: s << (unsigned long)u; break; default: s << u; } return done(); }
    if (o == "flt") { if (c.i(0)) s << c.i(1) / 8.0; else s << (float)(c.i(1) / 8.0); return done(); }
    if (o == "big") { double x = std::ldexp((double)c.i(1), 4 * c.i(2)); if (c.i(0)) s << x; else s << (float)x; return done(); }
    if (o == "bool") { s << (c.i(0) == 1); return done(); }
    if (o == "endl") { s << ecl::endl; return done(); }
    if (o == "clr") { s << ecl::clrscr; return done(); }
    if (o == "flush") { s.flush(); return done(); }
    if (o == "read") return rd(s, c.i(0));
    if (o == "left") return std::to_string(s.device().remaining());
    if (o == "size") return std::to_string(s.device().size());
    if (o == "str") return s.device().str();
    if (o == "clear") { s.device().clear(); return "ok"; }
    if (o == "raw") { if (c.i(0)) s.enableRawCharReads(); else s.disableRawCharReads(); return "ok"; }
    if (o == "fail") return s.fail() ? "1:" + flag(s.errorStatus()) : "0";
    if (o == "dread") { long n = c.i(0); if (n == 1) { char ch = 0; long k = s.device().read(ch); return std::to_string(k) + ":" + (k == 1 ? std::string(1, ch) : ""); } std::unique_ptr<char[]> b(new char[n]); long k = s.device().read(b.get(), n); return std::to_string(k) + ":" + std::string(b.get(), k); }
    if (o == "dwrite") { v = chs(c, 1); long k = 0; if (c.i(0)) { for (char ch : v) k += s.device().write(ch); } else k = s.device().write(v.data(), v.size()); return std::to_string(k); }
    extra(s.device(), c, r); return r.empty() && o != "c_str" ? "?" : r;
  }
};
static std::unique_ptr<Any> a; static std::string kind = "mem";
#ifdef STRINGSTREAM
struct SS : K<StringStream> { std::string go(const Cmd &c) { if (c.op == "str") { std::string x = s.str(), y = s.c_str(); return x == y ? x : "!" + x + "|" + y; } if (c.op == "clear") { s.clear(); return "ok"; } return K<StringStream>::go(c); } };
void drv_reset() { a.reset(new SS); }
#else
void drv_reset() { a.reset(new K<TextStream<Mem> >); }
#endif
static std::string escnl(const std::string &s) { std::string r; for (char c : s) if (c == '\n') r += "\\n"; else r += c; return r; }
std::string drv_do(const Cmd &c) { try { return escnl(a->go(c)); } catch (const StandardException &e) { return e.flag() == OpenError ? "throw:Open" : "throw"; } }
