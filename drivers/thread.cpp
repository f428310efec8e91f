// threads whose tasks begin, wait and end on command; every handle must be joined or detached exactly once
#define DRV_FORK
#include "drv.hpp"
#include <thread>
#include <atomic>
#include <mutex>
#include <set>
#include <map>
#include <deque>
#include <cstring>
#include <pthread.h>
#include <poll.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <ecl/exceptions/standard_exception.hpp>
#include "file_errors.hpp"
#include <ecl/threads/thread.hpp>
#include <ecl/threads/threadable.hpp>
using namespace ecl;
static int fault = 0; static bool bad = false; static std::set<unsigned long> handles; static std::mutex guard; static thread_local int nice_ = 99;
extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int __real_pthread_join(pthread_t, void **); int __real_pthread_detach(pthread_t); int __real_pthread_cancel(pthread_t);
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { if (fault) { int e = fault; fault = 0; return e; } std::lock_guard<std::mutex> g(guard); int r = __real_pthread_create(t, a, f, x); if (r == 0) handles.insert((unsigned long)*t); return r; }
static bool mine(pthread_t t, bool drop) { std::lock_guard<std::mutex> g(guard); bool b = handles.count((unsigned long)t) > 0; if (!b) bad = true; if (drop) handles.erase((unsigned long)t); return b; }
int __wrap_pthread_join(pthread_t t, void **v) { if (!mine(t, false)) return ESRCH; int r = __real_pthread_join(t, v); if (r == 0) mine(t, true); return r; }
int __wrap_pthread_detach(pthread_t t) { if (!mine(t, true)) return ESRCH; return __real_pthread_detach(t); }
int __wrap_pthread_cancel(pthread_t t) { if (!mine(t, false)) return ESRCH; return __real_pthread_cancel(t); }
int __wrap_setpriority(__priority_which_t, id_t, int p) { nice_ = p; return 0; }
}
// a running task: where it takes orders, and the thread it runs in
struct Body { int in[2]; std::atomic<int> tid, nice; std::atomic<long> stack; std::string said; int kind; Body(int k) : tid(0), nice(0), stack(0), kind(k) { if (pipe(in)) exit(3); } ~Body() { close(in[0]); close(in[1]); } };
static std::atomic<long> done, copies; static Body *next_; static std::atomic<int> answered;
static Thread *th[2];
static void body(Body *b, int i) {
  pthread_attr_t a; size_t n = 0; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstacksize(&a, &n); pthread_attr_destroy(&a); b->stack = n; b->nice = nice_; b->tid = syscall(SYS_gettid);
  for (;;) { char c = 0; if (read(b->in[0], &c, 1) != 1) return; if (c == 'q') { ++done; return; }
    if (c == 'j') { try { th[i]->join(); b->said = "ok"; } catch (StandardException &e) { b->said = "throw:" + flag(e.flag()); } ++answered; } }
}
static int who_;
static void free_() { Body *b = next_; int i = who_; body(b, i); }
struct Obj { Body *b; int i; void run() { body(b, i); } } obj[2];
struct Fun { typedef void result_type; Body *b; int i; char pad[100]; Fun(Body *b, int i) : b(b), i(i) { ++copies; } Fun(const Fun &o) : b(o.b), i(o.i) { ++copies; } ~Fun() { --copies; } void operator()() { body(b, i); } };
static void one(Body *b) { body(b, who_); }

struct Job : public Threadable { Body *b = 0; int i = 0; void runnable() { body(b, i); } };
static std::unique_ptr<Thread> t_[2]; static std::unique_ptr<Job> jobs[2]; static Body *now[4]; static std::deque<Body *> orphans;
static long base = -1;
static bool alive(Body *b) { char f[64]; snprintf(f, sizeof f, "/proc/self/task/%d", (int)b->tid); struct stat s; return stat(f, &s) == 0; }
static std::string gone(Body *b) { for (int n = 0; n < 200000; ++n) { if (!alive(b)) return "ok"; usleep(n < 200 ? 20 : 100); } return "stays"; }
static std::string begun(Body *b, long stack) { for (int n = 0; n < 200000 && !b->tid; ++n) usleep(n < 200 ? 20 : 100); if (!b->tid) return "!never"; return "ok:" + (b->nice == 99 ? std::string("own") : std::to_string(b->nice)) + (stack > 0 && b->stack != stack ? "!stack" + std::to_string(b->stack) : ""); }
void drv_reset() { if (base >= 0) return; base = 0; for (int i = 0; i < 2; ++i) { t_[i].reset(new Thread()); th[i] = t_[i].get(); jobs[i].reset(new Job()); } }
template <class F> static std::string grab(F g) { try { std::string r = g(); fault = 0; return r; } catch (StandardException &e) { fault = 0; return "throw:" + flag(e.flag()); } }
static std::string go(int i, int kind, Priority p, long stack, bool make, Body *b) {
  next_ = b; who_ = i; obj[i].b = b; obj[i].i = i; Error e(NoError);
  #define GO(...) do { if (make) { t_[i].reset(); th[i] = 0; t_[i].reset(new Thread(__VA_ARGS__, p, stack)); th[i] = t_[i].get(); } else e = th[i]->start(__VA_ARGS__, p, stack); } while (0)
  switch (kind) { case 0: GO(free_); break; case 1: GO(&Obj::run, obj[i]); break; case 2: { Fun f(b, i); GO(f); break; } case 3: { Fun *f = new Fun(b, i); --copies; GO(ref(*f)); break; } default: GO(generateFunctionObject(one, b)); }
  return e.flag() == NoError ? "ok" : flag(e.flag());
}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; if (o == "mode") return "ok"; if (base < 0) drv_reset();
  if (o == "stat") { std::lock_guard<std::mutex> g(guard); return std::to_string(done) + ":" + std::to_string(copies) + ":" + std::to_string(handles.size()) + (bad ? "!handle" : ""); }
  if (o == "orphan") { Body *b = orphans.front(); orphans.pop_front(); if (write(b->in[1], "q", 1) < 0) return "?"; return gone(b); }
  int i = c.i(0);
  if (o == "new" || o == "drop") { if (now[i] && alive(now[i])) orphans.push_back(now[i]); now[i] = 0; th[i] = 0; t_[i].reset(); t_[i].reset(new Thread()); th[i] = t_[i].get(); return "ok"; }
  if (o == "start" || o == "make" || o == "startbad" || o == "makebad") {
    bool mk = o[0] == 'm', fl = o.size() > 5; int kind = c.i(1); Body *b = new Body(kind); Body *was = now[i];
    if (mk) { if (was && alive(was)) orphans.push_back(was); now[i] = 0; was = 0; }
    std::string r = grab([&]() { if (fl) fault = num(c.s(2)); return go(i, kind, fl ? DefaultPriority : (Priority)c.i(2), fl ? -1 : c.i(3), mk, b); });
    if (!t_[i]) { t_[i].reset(new Thread()); th[i] = t_[i].get(); }
    if (r == "ok" && !(mk && fl)) { now[i] = b; r = begun(b, fl ? 0 : c.i(3)); } else if (r == "ok") r = "quiet";
    return r; }
  if (o == "running") return t_[i]->isRunning() ? "1" : "0";
  if (o == "finish") { if (write(now[i]->in[1], "q", 1) < 0) return "?"; return gone(now[i]); }
  if (o == "cancel") return grab([&]() { th[i]->cancel(); if (now[i] && c.i(1)) return gone(now[i]); return std::string("ok"); });
  if (o == "join") return grab([&]() { th[i]->join(); return std::string("ok"); });
  if (o == "self") { int a = answered; if (write(now[i]->in[1], "j", 1) < 0) return "?"; for (int n = 0; n < 200000 && answered == a; ++n) usleep(20); return now[i]->said; }
  if (o == "joinw") { std::atomic<int> st(0); std::string r; std::thread w([&]() { st = 1; r = grab([&]() { th[i]->join(); return std::string("ok"); }); st = 2; }); while (st == 0) usleep(20); usleep(3000); bool early = st == 2; if (write(now[i]->in[1], "q", 1) < 0) return "?"; std::string g = gone(now[i]); w.join(); return (early ? "early:" : "") + g + ":" + r; }
  Job &j = *jobs[i];
  if (o == "jstart") { bool fl = c.a.size() > 2; Body *b = new Body(9); Body *was = now[2 + i]; if (!was || !alive(was)) j.b = b; std::string r = grab([&]() { if (fl) fault = num(c.s(2)); return std::string(j.start((Priority)c.i(1)) ? "1" : "0"); }); if (r == "1" && !fl) { now[2 + i] = b; r = begun(b, 0); } return r; }
  if (o == "jrunning") return j.isRunning() ? "1" : "0";
  if (o == "jfinish") { if (write(now[2 + i]->in[1], "q", 1) < 0) return "?"; return gone(now[2 + i]); }
  return "?";
}
