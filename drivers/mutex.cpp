// mutexes and threads that wait for them: every thread acts on command and tells when it is made to wait
#define DRV_FORK
#include "drv.hpp"
#include <thread>
#include <atomic>
#include <cstring>
#include <pthread.h>
#include <poll.h>
#include <time.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <ecl/exceptions/standard_exception.hpp>
#include "file_errors.hpp"
#include <ecl/threads/mutex.hpp>
#include <ecl/time/duration.hpp>
using namespace ecl;
static const int N = 4;
struct Msg { int who; char kind; char text[58]; };
static int res[2] = {-1, -1}; static int cmd[N][2]; static std::atomic<int> tid[N]; static bool waits[N]; static int holder = -1; static std::unique_ptr<Mutex> m;
static thread_local int self_ = -1; static thread_local bool watch = false;
static void tell(int who, char kind, const std::string &t) { Msg x; memset(&x, 0, sizeof x); x.who = who; x.kind = kind; strncpy(x.text, t.c_str(), 57); if (write(res[1], &x, sizeof x) < 0) _exit(3); }
static thread_local bool fake = false; static timespec now_, until_; static thread_local std::string fault; static thread_local int fault_errno = 0;
static bool inject(const char *f) { if (fault != f) return false; fault.clear(); return true; }
extern "C" {
int __real_clock_gettime(clockid_t, timespec *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *); int __real_pthread_mutexattr_init(pthread_mutexattr_t *); int __real_pthread_mutexattr_settype(pthread_mutexattr_t *, int);
int __wrap_clock_gettime(clockid_t c, timespec *t) { if (!fake) return __real_clock_gettime(c, t); *t = now_; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *p) { return inject("unlock") ? fault_errno : __real_pthread_mutex_unlock(p); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *p) { return inject("try") ? fault_errno : __real_pthread_mutex_trylock(p); }
int __wrap_pthread_mutex_init(pthread_mutex_t *p, const pthread_mutexattr_t *a) { return inject("init") ? fault_errno : __real_pthread_mutex_init(p, a); }
int __wrap_pthread_mutexattr_init(pthread_mutexattr_t *a) { return inject("attr") ? fault_errno : __real_pthread_mutexattr_init(a); }
int __wrap_pthread_mutexattr_settype(pthread_mutexattr_t *a, int k) { return inject("type") ? fault_errno : __real_pthread_mutexattr_settype(a, k); }
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_timedlock(pthread_mutex_t *, const timespec *); int __real_pthread_mutex_clocklock(pthread_mutex_t *, clockid_t, const timespec *);
static bool busy(pthread_mutex_t *p, int &r) { r = pthread_mutex_trylock(p); if (r != EBUSY) return false; watch = false; tell(self_, 'w', "waits"); return true; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *p) { int r; if (inject("lock")) return fault_errno; if (watch && !busy(p, r)) return r; return __real_pthread_mutex_lock(p); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *p, const timespec *t) { int r; if (inject("timed")) return fault_errno; if (fake) { until_ = *t; return ETIMEDOUT; } if (watch && !busy(p, r)) return r; return __real_pthread_mutex_timedlock(p, t); }
int __wrap_pthread_mutex_clocklock(pthread_mutex_t *p, clockid_t c, const timespec *t) { int r; if (inject("timed")) return fault_errno; if (fake) { until_ = *t; return ETIMEDOUT; } if (watch && !busy(p, r)) return r; return __real_pthread_mutex_clocklock(p, c, t); }
}
static double clk() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string timed(double s) {
  long long ns = (long long)(s * 1e9 + (s < 0 ? -.5 : .5)); Duration d(TimeStamp((long)(ns / 1000000000), (long)(ns % 1000000000))); double a = clk(); bool b = m->trylock(d); double e = clk() - a;
  return b ? "yes" : e < s ? "no!early" : e > s + 20 ? "no!late" : "no";
}
static void work(int k) {
  self_ = k; tid[k] = syscall(SYS_gettid);
  for (;;) { struct { int op; int ms; } c; if (read(cmd[k][0], &c, sizeof c) != sizeof c) return;
    std::string r; watch = true;
    try { switch (c.op) { case 0: m->lock(); r = "got"; break; case 1: r = m->trylock() ? "yes" : "no"; break; case 2: r = timed(c.ms * 1e-3); break; case 3: m->unlock(); r = "ok"; break; } }
    catch (StandardException &e) { r = "throw:" + flag(e.flag()); }
    watch = false; tell(k, 'r', r); }
}
static bool hear(Msg &x, int ms) { pollfd p = {res[0], POLLIN, 0}; if (poll(&p, 1, ms) <= 0) return false; return read(res[0], &x, sizeof x) == sizeof x; }
static char state(int k) { char f[64], b[256]; snprintf(f, sizeof f, "/proc/self/task/%d/stat", (int)tid[k]); int d = open(f, O_RDONLY); if (d < 0) return '?'; int n = read(d, b, 255); close(d); if (n < 0) n = 0; b[n] = 0; char *p = strrchr(b, ')'); return p ? p[2] : '?'; }
static std::string act(int k, int op, int ms) {
  struct { int op; int ms; } c = {op, ms}; if (write(cmd[k][1], &c, sizeof c) < 0) return "?";
  Msg x; if (!hear(x, 60000)) return "hangs"; if (x.who != k) return "!who";
  if (x.kind == 'w') { for (int n = 0, q = 0; q < 3 && n < 100000; ++n) { if (state(k) == 'S') ++q; else q = 0; usleep(q ? 50 : 20); if (q >= 3 || n % 50 == 49) { if (hear(x, 0)) { if (x.who != k) return "!who"; goto done; } } }
    if (op == 2 && ms < 5000) { if (!hear(x, 60000)) return "hangs"; if (x.who != k) return "!who"; goto done; }
    waits[k] = true; return "waits"; }
done: if (!strcmp(x.text, "got") || !strcmp(x.text, "yes")) { if (holder >= 0) return std::string(x.text) + "!twice"; holder = k; }
  return x.text;
}
static int idle() { for (int k = 0; k < N; ++k) if (!waits[k] && k != holder) return k; return -1; }
void drv_reset() { if (res[0] < 0) { if (pipe(res)) exit(3); for (int k = 0; k < N; ++k) { if (pipe(cmd[k])) exit(3); tid[k] = 0; } for (int k = 0; k < N; ++k) std::thread(work, k).detach(); for (int k = 0; k < N; ++k) while (!tid[k]) usleep(100); m.reset(new Mutex()); } }
static std::string race(int nt, int rounds) {
  Mutex x; long count = 0; std::vector<long> mine(nt, 0); std::vector<std::thread> ts; std::atomic<bool> zero(false); volatile int in = 0; std::atomic<bool> two(false);
  for (int t = 0; t < nt; ++t) ts.emplace_back([&, t]() { for (int k = 0; k < rounds; ++k) {
    bool got = true; if (k % 5 == 3) got = x.trylock(); else if (k % 5 == 4) { Duration d(TimeStamp(100L, 0L)); got = x.trylock(d); if (!got) two = true; } else x.lock();
    if (!got) continue; if (x.locks() < 1) zero = true; if (in) two = true; in = 1; ++count; ++mine[t]; in = 0; x.unlock(); } });
  for (auto &t : ts) t.join(); long sum = 0; for (long v : mine) sum += v;
  return std::string(sum == count ? "ok" : "lost") + (two ? "!two" : "") + (zero ? "!zero" : "") + ":" + std::to_string(x.locks());
}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; if (o == "race") return race(c.i(0), c.i(1)); if (o == "mode") return "ok";
  if (o == "deadline") { // the clock (s, ns), how long (s, ns)
    Mutex x(true); Duration d(TimeStamp(c.i(2), c.i(3))); now_.tv_sec = c.i(0); now_.tv_nsec = c.i(1); until_.tv_sec = until_.tv_nsec = -1; fake = true; bool b; try { b = x.trylock(d); } catch (...) { fake = false; throw; } fake = false; x.unlock();
    return std::string(b ? "yes:" : "no:") + std::to_string(until_.tv_sec) + "," + std::to_string(until_.tv_nsec); }
  if (o == "broken") { // a call to the system that fails
    std::string w = c.s(0), r; fault_errno = c.i(1);
    if (w == "attr" || w == "type" || w == "init") { fault = w; try { Mutex x; r = "ok"; } catch (StandardException &e) { r = "throw:" + flag(e.flag()); } fault.clear(); return r; }
    Mutex x; if (w == "unlock") x.lock(); fault = w;
    try { if (w == "lock") { x.lock(); r = "ok"; } else if (w == "try") r = x.trylock() ? "yes" : "no"; else if (w == "timed") { Duration d(TimeStamp(1L, 0L)); r = x.trylock(d) ? "yes" : "no"; } else { x.unlock(); r = "ok"; } } catch (StandardException &e) { r = "throw:" + flag(e.flag()); }
    fault.clear(); r += ":" + std::to_string(x.locks()); if (w == "unlock") { x.unlock(); } else { x.lock(); x.unlock(); } return r + ":" + std::to_string(x.locks()); }
  if (res[0] < 0) drv_reset();
  if (o == "made") { bool b = c.i(0); Mutex x(b); if (!b) { std::string r = std::to_string(x.locks()); r += x.trylock() ? "y" : "n"; r += std::to_string(x.locks()); x.unlock(); return r; } std::string r = std::to_string(x.locks()); bool y = true; std::thread([&]() { y = x.trylock(); }).join(); r += y ? "y" : "n"; x.unlock(); return r + std::to_string(x.locks()); }
  if (o == "locks") return std::to_string(m->locks());
  int k = o == "relock" || o == "retry" || o == "retimed" || o == "unlock" ? holder : idle(); if (k < 0) return "?";
  if (o == "lock" || o == "relock") return act(k, 0, 0);
  if (o == "try" || o == "retry") return act(k, 1, 0);
  if (o == "timed" || o == "retimed") return act(k, 2, c.i(0));
  if (o == "steal") return act(k, 3, 0);
  if (o == "unlock") { int was = holder; holder = -1; struct { int op, ms; } q = {3, 0}; if (write(cmd[was][1], &q, sizeof q) < 0) return "?"; bool any = false; for (bool w : waits) any = any || w; std::string mine, next;
    for (int n = 0; n < (any ? 2 : 1); ++n) { Msg x; if (!hear(x, 20000)) { next += "!stuck"; break; } if (x.who == was && mine.empty()) mine = x.text; else if (x.who >= 0 && waits[x.who] && holder < 0) { waits[x.who] = false; next = x.text; if (next == "got" || next == "yes") holder = x.who; } else next += "!who"; }
    Msg x; if (hear(x, 0)) next += "!more"; return mine + (any ? ":" + next : ""); }
  return "?";
}
