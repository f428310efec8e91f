#include "drv.hpp"
#include "fsroot.hpp"
#include <thread>
#include <ecl/devices/shared_file.hpp>
using namespace ecl;
static std::unique_ptr<SharedFile> f[3];
void drv_reset() { for (auto &x : f) x.reset(); for (auto &x : f) x.reset(new SharedFile()); fresh(); }
// records of one byte repeated with a head and a tail
static std::string race(int nt, int rounds, int size, bool reopen) {
  std::string name = path("race"); unlink(name.c_str());
  { SharedFile keep(name, New); std::vector<std::thread> ts; std::unique_ptr<SharedFile> own;
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t]() {
      std::unique_ptr<SharedFile> s(new SharedFile(name, New));
      for (int k = 0; k < rounds; ++k) {
        std::string rec = "<" + std::to_string(t) + ":" + std::to_string(k) + ":" + std::string(size, 'a' + t) + ">";
        if (s->write(rec.c_str(), rec.size()) != (long)rec.size()) std::abort();
        if (k % 2) { if (!s->flush()) std::abort(); } else if (reopen) { s.reset(); s.reset(new SharedFile(name, New)); } else s->flush();
      } });
    for (auto &t : ts) t.join();
    if (keep.count() != 1) return "!count " + std::to_string(keep.count()); }
  std::ifstream in(name.c_str(), std::ios::binary); std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); unlink(name.c_str());
  std::vector<int> next(nt, 0); size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('>', p); if (e == std::string::npos) return "!torn"; std::string rec = t.substr(p, e - p + 1); int who = -1, k = -1; if (sscanf(rec.c_str(), "<%d:%d:", &who, &k) != 2 || who < 0 || who >= nt) return "!torn " + rec.substr(0, 20);
    if (rec != "<" + std::to_string(who) + ":" + std::to_string(k) + ":" + std::string(size, 'a' + who) + ">") return "!torn " + rec.substr(0, 20);
    if (k != next[who]) return "!order"; ++next[who]; p = e + 1;
  }
  for (int n : next) if (n != rounds) return "!lost"; return "ok";
}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; int i = 0; if (o != "mode" && o != "look" && o != "fds" && o != "race") i = c.i(0);
  if (root.empty()) drv_reset();
  SharedFile *p = f[i].get();
  auto res = [&](long v, bool good) { return good ? "ok:" + std::to_string(v) : std::to_string(v) + ":" + flag(p->error().flag()); };
  if (o == "mode") return "ok";
  if (o == "new") { f[i].reset(); f[i].reset(new SharedFile()); return "ok"; }
  if (o == "endbad") { fault = "fwrite"; fault_e = ENOSPC; f[i].reset(); fault = ""; f[i].reset(new SharedFile()); return "ok"; }
  if (o == "make") { f[i].reset(); std::string r = grab([&]() { f[i].reset(new SharedFile(path(c.s(1)), c.i(2) ? Append : New)); return std::string("ok:1"); }); if (!f[i]) f[i].reset(new SharedFile()); return r; }
  if (o == "open") return grab([&]() { bool b = p->open(path(c.s(1)), c.i(2) ? Append : New); return res(b, b); });
  if (o == "isopen") return p->open() ? "1" : "0";
  if (o == "count") return std::to_string(p->count());
  if (o == "w" || o == "wbad") return grab([&]() { if (o == "wbad") { fault = "fwrite"; fault_e = ENOSPC; }
    long way = c.i(1), n = c.i(3), r; char ch = c.s(2)[0]; std::unique_ptr<char[]> q(new char[n]); memset(q.get(), ch, n);
    if (way == 0) r = p->write(ch); else r = p->write(q.get(), (unsigned long)n);
    return res(r, r >= 0); });
  if (o == "flush" || o == "flushbad") return grab([&]() { if (o == "flushbad") { fault = "fwrite"; fault_e = ENOSPC; } bool b = p->flush(); return res(b, b); });
  if (o == "look") return look(c.s(0));
  if (o == "fds") return std::to_string(fds() - base);
  if (o == "race") { try { return race(c.i(0), c.i(1), c.i(2), c.i(3)); } catch (StandardException &e) { return "throw:" + flag(e.flag()); } }
  return "?";
}
