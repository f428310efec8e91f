#include "drv.hpp"
#include "num.hpp"
#include <deque>
#include <unistd.h>
#ifndef VT
#define VT double
#endif
static std::deque<long> src; static long used; static unsigned seeded;
extern "C" int rand(void) throw() { if (src.empty()) { printf("!dry\n"); fflush(stdout); _exit(3); } long u = src.front(); src.pop_front(); ++used; return u == 32 ? 1 << 30 : (int)(u / 64.0 * RAND_MAX); }
extern "C" void srand(unsigned s) throw() { seeded = s; }
#include <ecl/time/random_number_generator.hpp>
typedef ecl::RandomNumberGenerator<VT> R;
static R *g;
static const double TOL = sizeof(VT) == 4 ? 2e-4 : 1e-6;
void drv_reset() { src.clear(); delete g; g = new R(); }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "feed") { for (long x : c.li(0)) src.push_back(x); return "ok"; }
  if (o == "uniform") { VT v = g->uniform(); if (v < 0 || v > 1) return "!range"; return num(v * 64.0, TOL); }
  if (o == "range") { VT r = c.i(0); VT v = g->uniform(r); return num(v * 64.0, TOL * 10 * r); }
  if (o == "pair") {
    used = 0; const VT sd = c.i(0), mu = c.i(1); double a = (g->gaussian(sd, mu) - mu) / sd; long n = used; // the second value comes with its own deviation and mean
    const VT sd2 = c.i(3), mu2 = c.i(4); VT b1; if (mu2 == 0) b1 = g->gaussian(sd2); else b1 = g->gaussian(sd2, mu2); double b = (b1 - mu2) / sd2;
    if (used != n) return "!used";
    double w = 1024 * std::exp(-(a * a + b * b) / 2);
    // the accepted point was (x1, x2)
    std::vector<long> l = c.li(2); double x1 = l[0] - 32, x2 = l[1] - 32;
    double cr = a * x2 - b * x1; if (std::fabs(cr) < 1e-3 * (std::fabs(x1) + std::fabs(x2))) cr = 0;
    double big = x1 * x1 >= x2 * x2 ? a : b;
    return num(w, 2e-3) + "," + num(cr) + "," + (big > 0 ? "1" : "-1") + "," + std::to_string(used);
  }
  if (o == "seed") { R k((unsigned)c.i(0)); return std::to_string(seeded); }
  return "?";
}
