#include "drv.hpp"
#include <ecl/utilities/flags.hpp>
enum E { eMin = -2147483647 - 1, eZero = 0, eMax = 2147483647 };
typedef ecl::Flags<E> F;
static F f[4];
static int bits(const Cmd &c, size_t k) { unsigned v = 0; for (long b : c.li(k)) v |= 1u << b; return (int)v; }
void drv_reset() { for (auto &x : f) x = F(); }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; F &x = f[c.i(0)]; std::string r;
  if (o == "fromenum") x = F((E)bits(c, 1));
  else if (o == "copy") { F y(f[c.i(1)]); x = y; }
  else if (o == "assign") x = f[c.i(1)];
  else if (o == "assignenum") x = (E)bits(c, 1);
  else if (o == "clear") x.clear();
  else if (o == "default") x = F();
  else if (o == "ior") x |= f[c.i(1)];
  else if (o == "iorenum") x |= (E)bits(c, 1);
  else if (o == "ixor") x ^= f[c.i(1)];
  else if (o == "ixorenum") x ^= (E)bits(c, 1);
  else if (o == "iand") x &= bits(c, 1);
  else if (o == "or") x = f[c.i(1)] | f[c.i(2)];
  else if (o == "orenum") x = f[c.i(1)] | (E)bits(c, 2);
  else if (o == "enumor") x = (E)bits(c, 2) | f[c.i(1)];
  else if (o == "xor") x = f[c.i(1)] ^ f[c.i(2)];
  else if (o == "xorenum") x = f[c.i(1)] ^ (E)bits(c, 2);
  else if (o == "andenum") x = f[c.i(1)] & (E)bits(c, 2);
  else if (o == "andmask") x = f[c.i(1)] & bits(c, 2);
  else if (o == "not") x = ~f[c.i(1)];
  else if (o == "test") { const F &cx = x; r = cx.testFlag((E)bits(c, 1)) ? "1" : "0"; }
  else return "?";
  return r + std::to_string((int)f[1]) + "," + std::to_string((int)f[2]) + "," + std::to_string((int)f[3]);
}
