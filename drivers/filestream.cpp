// log streams (0, 1), a shared file stream (2) and a plain file stream (3)
#include "drv.hpp"
#include "fsroot.hpp"
#include <thread>
#include <ecl/streams/file_streams.hpp>
#include <ecl/streams/shared_file_stream.hpp>
#include <ecl/streams/log_stream.hpp>
using namespace ecl;
typedef TimeStructure T;
static T now; static bool ticking = false;
namespace ecl {
TimeError epoch_time(T &t) { t = now; return TimeError(NoError); }
TimeError realtime_epoch_time(T &t) { t = now; return TimeError(NoError); }
TimeError sleep(const T &) { return TimeError(NoError); }
TimeError sleep_until(const T &) { return TimeError(NoError); }
}
static std::unique_ptr<LogStream> l[2]; static std::unique_ptr<SharedFileStream> sf; static std::unique_ptr<OFileStream> of;
static void put(int i) { if (i < 2) l[i].reset(); else if (i == 2) sf.reset(); else of.reset(); }
template <class S> static std::string make(std::unique_ptr<S> &p, const std::string &n, long m) { p.reset(); std::string r = grab([&]() { if (m > 1) p.reset(new S(path(n))); else p.reset(new S(path(n), m ? Append : New)); return std::string("ok"); }); if (!p) p.reset(new S()); return r; }
template <class S> static std::string say(S &s, const Cmd &c) { return grab([&]() { long w = c.i(1); std::string t = c.s(2); if (w == 0) s << t; else if (w == 1) s << t.c_str(); else if (w == 2) s << t[0]; else s << (int)strtol(t.c_str(), 0, 10); return std::string(s.fail() ? "fail" : "ok"); }); }
void drv_reset() { for (int i = 0; i < 4; ++i) put(i); for (auto &x : l) x.reset(new LogStream()); sf.reset(new SharedFileStream()); of.reset(new OFileStream()); fresh(); now = T(); }
// every thread logs its own records, whole, through a log stream of its own
static std::string race(int nt, int rounds) {
  std::string name = path("race"); unlink(name.c_str());
  { LogStream keep(name, New); std::vector<std::thread> ts;
    for (int t = 0; t < nt; ++t) ts.emplace_back([&, t]() { LogStream s(name, New); s.disableTimeStamp(); s.enableMode(t, "T" + std::to_string(t)); for (int k = 0; k < rounds; ++k) { LOG(s, t) << k << " said " << std::string(20 + k % 7, 'a' + t) << "\n"; LOG(s, t + 1) << "never"; FLUSH(s) } });
    for (auto &t : ts) t.join(); }
  std::ifstream in(name.c_str()); std::string line; std::vector<int> next(nt, 0);
  while (std::getline(in, line)) { int t = -1, k = -1; if (sscanf(line.c_str(), "[T%d] : %d said", &t, &k) != 2 || t < 0 || t >= nt || k != next[t]) return "!" + line; 
    if (line != "[T" + std::to_string(t) + "] : " + std::to_string(k) + " said " + std::string(20 + k % 7, 'a' + t)) return "!" + line; ++next[t]; }
  unlink(name.c_str()); for (int n : next) if (n != rounds) return "!lost"; return "ok";
}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; if (root.empty()) drv_reset();
  if (o == "mode") return "ok";
  if (o == "tick") { now.tv_sec = c.i(0); now.tv_nsec = c.i(1); return "ok"; }
  if (o == "look") { std::ifstream in(path(c.s(0)).c_str(), std::ios::binary); if (!in) return "none"; return "=" + std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }
  if (o == "fds") return std::to_string(fds() - base);
  if (o == "race") { try { return race(c.i(0), c.i(1)); } catch (StandardException &e) { return "throw:" + flag(e.flag()); } }
  int i = c.i(0);
  if (o == "new") { put(i); if (i < 2) l[i].reset(new LogStream()); else if (i == 2) sf.reset(new SharedFileStream()); else of.reset(new OFileStream()); return "ok"; }
  if (o == "make") return i < 2 ? make(l[i], c.s(1), c.i(2)) : i == 2 ? make(sf, c.s(1), c.i(2)) : make(of, c.s(1), c.i(2));
  if (o == "open") return grab([&]() { WriteMode m = c.i(2) ? Append : New; std::string p = path(c.s(1)); bool b = i < 2 ? l[i]->device().open(p, m) : i == 2 ? sf->device().open(p, m) : of->device().open(p, m); return std::string(b ? "ok" : "no"); });
  if (o == "isopen") return (i < 2 ? l[i]->device().open() : i == 2 ? sf->device().open() : of->device().open()) ? "1" : "0";
  if (o == "say") return i < 2 ? say(*l[i], c) : i == 2 ? say(*sf, c) : say(*of, c);
  if (o == "flush") return grab([&]() { if (i < 2) l[i]->flush(); else if (i == 2) sf->flush(); else of->flush(); return std::string("ok"); });
  LogStream &s = *l[i];
  if (o == "FLUSH") return grab([&]() { if (true) FLUSH(s) else return std::string("!else"); return std::string("ok"); });
  if (o == "on") { s.enableMode(c.i(1), c.s(2)); return "ok"; }
  if (o == "on0") { s.enableMode(c.i(1)); return "ok"; }
  if (o == "off") { s.disableMode(c.i(1)); return "ok"; }
  if (o == "hdr") { if (c.i(1)) s.enableHeader(); else s.disableHeader(); return "ok"; }
  if (o == "stamp") { if (c.i(1)) s.enableTimeStamp(); else s.disableTimeStamp(); return "ok"; }
  if (o == "any") return s.isEnabled() ? "1" : "0";
  if (o == "is") return s.isModeEnabled(c.i(1)) ? "1" : "0";
  if (o == "log") return grab([&]() { std::string t = c.s(2); int n = 0; if (true) LOG(s, c.i(1)) << t << ++n; else return std::string("!else"); return "ok:" + std::to_string(n); });
  if (o == "log0") return grab([&]() { s.log(c.i(1)) << c.s(2); return std::string("ok"); });
  return "?";
}
