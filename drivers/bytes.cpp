#include "drv.hpp"
#include <cstring>
#include <vector>
#include <ecl/converters.hpp>
#include <ecl/exceptions/standard_exception.hpp>
using namespace ecl;
typedef std::vector<char> C; typedef std::vector<unsigned char> U; typedef std::vector<signed char> S;
void drv_reset() { std::cout.rdbuf(nullptr); } // (the conversion writes messages there)
template <class A> static std::string row(const A &a) { std::string s; for (auto x : a) s += (s.empty() ? "" : ",") + std::to_string((int)(unsigned char)x); return s; }
// a converter that fails throws in debug builds, and is left with an error in others
template <class K> static std::string status(const K &k) { return k.error().flag() == NoError ? "" : k.error().flag() == ConversionError ? "Conversion" : "!flag"; }
template <class K, class A, class T> static std::string to(long n, const std::vector<long> &l) {
  T v = 0; unsigned char b[sizeof(T)]; if (l.size() != sizeof(T)) return "!size"; for (size_t i = 0; i < sizeof(T); ++i) b[i] = l[i]; memcpy(&v, b, sizeof(T));
  A a(n, 0x5a); A old = a; K k; const A &r = k(a, v); if (&r != &a) return "!ref"; std::string e = status(k); if (!e.empty() && a != old) return "!touched"; return e.empty() ? row(a) : e;
}
template <class A, class T> static std::string both(long n, const std::vector<long> &l) { return to<Converter<A, T>, A, T>(n, l); }
template <class T, class A> static std::string from(const std::vector<long> &l) {
  A a; for (long x : l) a.push_back((typename A::value_type)x); Converter<T, A> k; const A &ca = a; T v = k(ca); std::string e = status(k); if (!e.empty()) return e;
  unsigned char b[sizeof(T)]; memcpy(b, &v, sizeof(T)); return row(std::vector<unsigned char>(b, b + sizeof(T)));
}
template <class T> static std::string fr(int kind, const std::vector<long> &l) { return kind == 0 ? from<T, C>(l) : kind == 1 ? from<T, U>(l) : from<T, S>(l); }
template <class A> static std::string viaVoid(int t, long n, const std::vector<long> &l);
#define VV(A) { A a(n, 0); Converter<A> k; long v = 0; for (size_t i = 0; i < l.size(); ++i) v |= (long)l[i] << 8 * i; switch (t) { case 0: k(a, (int)v); break; case 1: k(a, (unsigned int)v); break; case 2: k(a, (long)v); break; default: k(a, (unsigned long)v); } return row(a); }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  try {
    if (o == "to") {
      int t = c.i(0), kind = c.i(1); long n = c.i(2); std::vector<long> l = c.li(3);
      if (n == (long)l.size() && (l[0] & 1) && t < 4) { if (kind == 0) VV(C) else if (kind == 1) VV(U) else VV(S) }
      switch (t) {
        case 0: return kind == 0 ? both<C, int>(n, l) : kind == 1 ? both<U, int>(n, l) : both<S, int>(n, l);
        case 1: return kind == 0 ? both<C, unsigned int>(n, l) : kind == 1 ? both<U, unsigned int>(n, l) : both<S, unsigned int>(n, l);
        case 2: return kind == 0 ? both<C, long>(n, l) : kind == 1 ? both<U, long>(n, l) : both<S, long>(n, l);
        case 3: return kind == 0 ? both<C, unsigned long>(n, l) : kind == 1 ? both<U, unsigned long>(n, l) : both<S, unsigned long>(n, l);
        default: return kind == 0 ? both<C, long long>(n, l) : kind == 1 ? both<U, long long>(n, l) : both<S, long long>(n, l);
      }
    }
    if (o == "from") {
      std::vector<long> l = c.li(3); int kind = c.i(1);
      switch (c.i(0)) { case 0: return fr<int>(kind, l); case 1: return fr<unsigned int>(kind, l); case 2: return fr<long>(kind, l); case 3: return fr<unsigned long>(kind, l); case 4: return fr<long long>(kind, l);
        case 5: return fr<short>(kind, l); case 6: return fr<unsigned short>(kind, l); case 7: return fr<unsigned long long>(kind, l); default: return fr<char>(kind, l); }
    }
    if (o == "hex") {
      std::string s; for (auto &x : c.strs(1)) s += x; if (c.a[1] == "[]") s = "";
      if (c.i(0)) { Converter<C> k; C r = k(s.c_str()); return row(r); }
      Converter<C, char *> k; C r = k(s.c_str()); std::string e = status(k); if (!e.empty() && !r.empty()) return "!left"; return e.empty() ? row(r) : e;
    }
  } catch (const StandardException &e) { return e.flag() == ConversionError ? "Conversion" : "!flag"; }
  return "?";
}
