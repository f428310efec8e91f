// signals and slots of one message type; slots may act when they run, and wait in a thread of their own
#define DRV_FORK
#include "drv.hpp"
#include <atomic>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <sys/syscall.h>
#include <ecl/sigslots.hpp>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#endif
using namespace ecl;
typedef std::string Str;
static const int F = 4, V = 8;
struct Log { int n[2][F]; bool bad; Log() { memset(n, 0, sizeof n); bad = false; } Str show() const { Str r; for (int k = 0; k < 2; ++k) { for (int f = 0; f < F; ++f) r += (f ? "," : "") + std::to_string(n[k][f]); if (!k) r += "/"; } return r + (bad ? "!data" : ""); } };
static thread_local Log *log_ = 0; static thread_local Str data_; static int kind = 0;
struct Armed { int f; Str what; int v; Str t; }; static Armed armed = {-1, "", 0, ""};
static std::mutex mx; static std::condition_variable cv; static int phase = 0; // 0: nobody waits, 1: a slot waits, 2: it may go on
static void act(const Armed &a);
static void ran(int f, const Str *d) {
  if (!log_) { fprintf(stderr, "runs outside of an emission\n"); abort(); }
  if (!d) ++log_->n[0][f]; else if (*d == "9" && data_ != "9") ++log_->n[1][f]; else if (*d == data_) ++log_->n[0][f]; else log_->bad = true;
  if (armed.f == f) { Armed a = armed; armed.f = -1; act(a); }
}
static void g0() { ran(0, 0); } static void g1() { ran(1, 0); } static void d0(const Str &s) { ran(0, &s); } static void d1(const Str &s) { ran(1, &s); }
struct Obj { int f; void g() { ran(f, 0); } void d(const Str &s) { ran(f, &s); } }; static Obj objs[2] = {{2}, {3}};
struct Any { virtual ~Any() {} virtual Any *copy() { return 0; } virtual void assign(Any &) {} virtual void connect(const Str &) = 0; virtual void hear(const Str &t) { connect(t); } virtual void disconnect() = 0; virtual void drop(const Str &) {} virtual void emit(const Str &) {} virtual Str conns() { return ""; } };
struct SigV : Any { Signal<> s; SigV() {} SigV(const Str &t) : s(t) {} SigV(const SigV &o) : s(o.s) {} Any *copy() { return new SigV(*this); } void assign(Any &o) { s = static_cast<SigV &>(o).s; } void connect(const Str &t) { s.connect(t); } void hear(const Str &t) { s.connectAsSlot(t); } void disconnect() { s.disconnect(); } void emit(const Str &) { s.emit(); } };
struct SigD : Any { Signal<const Str &> s; SigD() {} SigD(const Str &t) : s(t) {} SigD(const SigD &o) : s(o.s) {} Any *copy() { return new SigD(*this); } void assign(Any &o) { s = static_cast<SigD &>(o).s; } void connect(const Str &t) { s.connect(t); } void hear(const Str &t) { s.connectAsSlot(t); } void disconnect() { s.disconnect(); } void emit(const Str &d) { s.emit(d); } };
typedef void (*FD)(const Str &); static VoidFunction gv[2] = {g0, g1}; static FD gd[2] = {d0, d1};
struct SlotV : Any { Slot<> s; SlotV(int f) : s(f < 2 ? Slot<>(gv[f % 2]) : Slot<>(&Obj::g, objs[f - 2])) {} SlotV(int f, const Str &t) : s(f < 2 ? Slot<>(gv[f % 2], t) : Slot<>(&Obj::g, objs[f - 2], t)) {} SlotV(const SlotV &o) : s(o.s) {} Any *copy() { return new SlotV(*this); } void assign(Any &o) { s = static_cast<SlotV &>(o).s; } void connect(const Str &t) { s.connect(t); } void disconnect() { s.disconnect(); } };
struct SlotD : Any { typedef Slot<const Str &> S; S s; SlotD(int f) : s(f < 2 ? S(gd[f % 2]) : S(&Obj::d, objs[f - 2])) {} SlotD(int f, const Str &t) : s(f < 2 ? S(gd[f % 2], t) : S(&Obj::d, objs[f - 2], t)) {} SlotD(const SlotD &o) : s(o.s) {} Any *copy() { return new SlotD(*this); } void assign(Any &o) { s = static_cast<SlotD &>(o).s; } void connect(const Str &t) { s.connect(t); } void disconnect() { s.disconnect(); } Str conns() { return drv::join(s.connections().begin(), s.connections().end()); } };
// both in one, and the only one that can leave a single topic
struct RawV : Any { SigSlot<> s; RawV(int f) : s(gv[f % 2]) {} void connect(const Str &t) { s.connectSignal(t); } void hear(const Str &t) { s.connectSlot(t); } void disconnect() { s.disconnect(); } void drop(const Str &t) { s.disconnect(t); } void emit(const Str &) { s.emit(); } };
struct RawD : Any { SigSlot<const Str &> s; RawD(int f) : s(gd[f % 2]) {} void connect(const Str &t) { s.connectSignal(t); } void hear(const Str &t) { s.connectSlot(t); } void disconnect() { s.disconnect(); } void drop(const Str &t) { s.disconnect(t); } void emit(const Str &d) { s.emit(d); } Str conns() { return drv::join(s.subscribedTopics().begin(), s.subscribedTopics().end()); } };
static Any *var[V];
static void act(const Armed &a) {
  if (a.what == "throw") throw 7;
  if (a.what == "pause") { std::unique_lock<std::mutex> l(mx); phase = 1; cv.notify_all(); while (phase != 2) cv.wait(l); phase = 0; return; }
  if (!var[a.v]) return;
  if (a.what == "drop") var[a.v]->disconnect(); else if (a.what == "end") { delete var[a.v]; var[a.v] = 0; } else if (a.what == "link") var[a.v]->hear(a.t);
  else if (a.what == "emit") var[a.v]->emit("9");
}
static Str emission(Any *a, const Str &d) { Log l; Log *was = log_; Str wd = data_; log_ = &l; data_ = d; Str r; try { a->emit(d); } catch (int) { r = "!thrown"; } log_ = was; data_ = wd; return l.show() + r; }
static std::atomic<int> tid[2]; static std::atomic<int> ready[2]; static Str said[2]; static std::thread *th[2];
static char state(int k) { char f[64], b[256]; snprintf(f, sizeof f, "/proc/self/task/%d/stat", (int)tid[k]); int d = open(f, O_RDONLY); if (d < 0) return '?'; int n = read(d, b, 255); close(d); if (n < 0) n = 0; b[n] = 0; char *p = strrchr(b, ')'); return p ? p[2] : '?'; }
static bool settled(int k) { for (int n = 0, q = 0; n < 200000; ++n) { if (ready[k]) return false; if (state(k) == 'S') ++q; else q = 0; if (q >= 4) return !ready[k]; usleep(q ? 60 : 20); } return true; }
static Str stats() {
  std::ostringstream o; std::streambuf *b = std::cout.rdbuf(o.rdbuf()); if (kind) SigSlotsManager<const Str &>::printStatistics(); else SigSlotsManager<>::printStatistics(); std::cout.rdbuf(b);
  std::istringstream in(o.str()); Str line, r; while (std::getline(in, line)) { size_t c = line.rfind(": "); if (c == Str::npos) { if (line != "Topics") r += "!" + line; continue; } Str v = line.substr(c + 2); if (line.find("Name") != Str::npos) r += (r.empty() ? "" : ";") + v; else r += ":" + v; } return r;
}
static Str race(int nt, int rounds) { // emitting, connecting and ending at full speed
  std::vector<std::thread> ts; static std::atomic<long> total; total = 0; struct C { void g() { ++total; } void d(const Str &) { ++total; } }; static C c; Signal<> sv("r"); Signal<const Str &> sd("r"); Slot<> kv(&C::g, c, "r"); Slot<const Str &> kd(&C::d, c, "r");
  for (int t = 0; t < nt; ++t) ts.emplace_back([&, t]() { for (int k = 0; k < rounds; ++k) { if (t % 3 == 0) { sv.emit(); sd.emit("x"); } else if (t % 3 == 1) { Slot<> a(&C::g, c, "r"); Slot<const Str &> b(&C::d, c); b.connect("r"); if (k % 2) a.disconnect(); } else { Signal<> s("r"); s.emit(); s.disconnect(); Signal<const Str &> q; q.connect("r"); q.emit("y"); } } });
  for (auto &t : ts) t.join(); long least = 0; for (int t = 0; t < nt; ++t) if (t % 3 != 1) least += 2L * rounds; return total >= least ? "ok" : "lost";
}
void drv_reset() {}
static bool yes(const Cmd &c, size_t k) { return c.a.size() > k; }
Str drv_do(const Cmd &c) {
  const Str &o = c.op; if (o == "kind") { kind = c.i(0); return "ok"; }
  if (o == "stats") return stats();
  if (o == "race") return race(c.i(0), c.i(1));
  if (o == "arm") { armed.f = c.i(0); armed.what = c.s(1); armed.v = c.i(2); armed.t = c.s(3); return "ok"; }
  if (o == "go") { { std::unique_lock<std::mutex> l(mx); phase = 2; cv.notify_all(); } th[0]->join(); delete th[0]; th[0] = 0; Str r = said[0]; if (th[1]) { th[1]->join(); delete th[1]; th[1] = 0; r += ":ended"; } return r; }
  if (o == "over") { armed.f = -1; for (int v = 0; v < V; ++v) { delete var[v]; var[v] = 0; } Str r = stats();
#if defined(__SANITIZE_ADDRESS__)
    if (__lsan_do_recoverable_leak_check()) r += "!leak";
#endif
    return r.empty() ? "ok" : r; }
  int v = c.i(0); Any *&a = var[v];
  if (o == "signal") { if (yes(c, 1)) a = kind ? (Any *)new SigD(c.s(1)) : new SigV(c.s(1)); else a = kind ? (Any *)new SigD() : new SigV(); return "ok"; }
  if (o == "slot") { int f = c.i(1); if (yes(c, 2)) a = kind ? (Any *)new SlotD(f, c.s(2)) : new SlotV(f, c.s(2)); else a = kind ? (Any *)new SlotD(f) : new SlotV(f); return "ok"; }
  if (o == "raw") { a = kind ? (Any *)new RawD(c.i(1)) : new RawV(c.i(1)); return "ok"; }
  if (o == "copy") { a = var[c.i(1)]->copy(); return "ok"; }
  if (o == "assign") { a->assign(*var[c.i(1)]); return "ok"; }
  if (o == "end") { delete a; a = 0; return "ok"; }
  if (o == "pub") { a->connect(c.s(1)); return "ok"; }
  if (o == "sub") { a->hear(c.s(1)); return "ok"; }
  if (o == "disc") { a->disconnect(); return "ok"; }
  if (o == "disc1") { a->drop(c.s(1)); return "ok"; }
  if (o == "conns") return a->conns();
  if (o == "emit") return emission(a, c.s(1));
  if (o == "temit") { Str d = c.s(1); Any *p = a; ready[0] = 0; phase = 0; static Log *shown; th[0] = new std::thread([p, d]() { Log l; shown = &l; log_ = &l; data_ = d; Str r; try { p->emit(d); } catch (int) { r = "!thrown"; } std::unique_lock<std::mutex> k(mx); said[0] = l.show() + r; ready[0] = 1; cv.notify_all(); });
    { std::unique_lock<std::mutex> l(mx); while (phase != 1 && !ready[0]) cv.wait(l); if (phase == 1) return "in:" + shown->show(); } th[0]->join(); delete th[0]; th[0] = 0; return said[0]; }
  if (o == "tend") { Any *p = a; a = 0; ready[1] = 0; tid[1] = 0; th[1] = new std::thread([p]() { tid[1] = syscall(SYS_gettid); delete p; ready[1] = 1; }); while (!tid[1]) usleep(50); if (settled(1)) return "waits"; th[1]->join(); delete th[1]; th[1] = 0; return "ok"; }
  return "?";
}
