#define DRV_FORK
#include "drv.hpp"
#include <thread>
#include "singleton.hpp"
template <int N> std::atomic<int> Thing<N>::made(0);
template struct Thing<1>; template struct Thing<2>; template struct Thing<3>;
template <int N> int *here() { return &Thing<N>::instance().v; }
static int *get(int t) { return t == 1 ? here<1>() : t == 2 ? here<2>() : here<3>(); }
void drv_reset() {}
static int *seen[4];
std::string drv_do(const Cmd &c) {
  int t = c.i(0); std::string r; int *p = 0;
  if (c.op == "race") {
    int n = c.i(1); std::vector<std::thread> th; std::vector<int *> a(n); std::atomic<int> go(0); std::vector<int> v(n);
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] { ++go; while (go < n) {} a[i] = (i & 1) ? other_tu(t) : get(t); v[i] = *a[i]; });
    for (auto &x : th) x.join();
    r = "same"; for (int i = 0; i < n; ++i) { if (a[i] != a[0] || v[i] != v[0]) r = "different"; } p = a[0];
  } else { p = c.op == "other" ? other_tu(t) : get(t); if (c.op == "set") { *p = c.i(1); r = "ok"; } else r = std::to_string(*p); }
  if (seen[t] && seen[t] != p) r += "!moved"; seen[t] = p;
  return r + ";" + std::to_string(Thing<1>::made) + "," + std::to_string(Thing<2>::made) + "," + std::to_string(Thing<3>::made);
}
