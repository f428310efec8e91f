// processes that share semaphores and memory by name: every process acts on command and tells when it is made to wait
#define DRV_FORK
#include "drv.hpp"
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <time.h>
#include <map>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <ecl/exceptions/standard_exception.hpp>
#include "file_errors.hpp"
#include <ecl/ipc/semaphore.hpp>
#include <ecl/ipc/shared_memory.hpp>
#include <ecl/time/duration.hpp>
using namespace ecl;
struct Data { long a; int b; char fill[6000]; int c; Data() : a(7), b(-1), c(3) { memset(fill, 'x', sizeof fill); } };
static const int N = 4;
struct Msg { int who; char kind; char text[58]; };
struct Act { char op[12]; int n; long x, y; char s[16]; };
static int res[2] = {-1, -1}, cmd[N][2]; static pid_t pids[N]; static bool waits[N]; static int self_ = -1; static bool watch = false; static pid_t top = getpid();
static std::string fault; static int fault_errno = 0;
static std::string name(int n) { return "verif-" + std::to_string((long)top) + "-" + std::to_string(n); }
static void clean() { for (int n = 0; n < 4; ++n) { shm_unlink(("/" + name(n)).c_str()); sem_unlink(("/" + name(n)).c_str()); } }
struct Clean { ~Clean() { if (getpid() == top) clean(); } } at_exit_;
static void tell(int who, char kind, const std::string &t) { Msg x; memset(&x, 0, sizeof x); x.who = who; x.kind = kind; strncpy(x.text, t.c_str(), 57); if (write(res[1], &x, sizeof x) < 0) _exit(3); }
static bool inject(const char *f) { if (fault != f) return false; fault.clear(); errno = fault_errno; return true; }
static bool fake = false; static timespec now_, until_;
extern "C" {
int __real_clock_gettime(clockid_t, timespec *); sem_t *__real_sem_open(const char *, int, ...);
int __wrap_clock_gettime(clockid_t c, timespec *t) { if (!fake) return __real_clock_gettime(c, t); *t = now_; return 0; }
sem_t *__wrap_sem_open(const char *n, int f, ...) { if (inject("sem_open")) return SEM_FAILED; if (!(f & O_CREAT)) return __real_sem_open(n, f); va_list l; va_start(l, f); mode_t m = va_arg(l, mode_t); unsigned v = va_arg(l, unsigned); va_end(l); return __real_sem_open(n, f, m, v); }
int __real_sem_wait(sem_t *); int __real_sem_timedwait(sem_t *, const timespec *); int __real_sem_clockwait(sem_t *, clockid_t, const timespec *);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_ftruncate(int, off_t); int __real_shm_open(const char *, int, mode_t);
static bool busy(sem_t *p, int &r) { r = sem_trywait(p); if (r == 0 || errno != EAGAIN) return false; watch = false; tell(self_, 'w', "waits"); return true; }
int __wrap_sem_wait(sem_t *p) { int r; if (watch && !busy(p, r)) return r; return __real_sem_wait(p); }
int __wrap_sem_timedwait(sem_t *p, const timespec *t) { if (inject("timed")) return -1; if (fake) { until_ = *t; errno = ETIMEDOUT; return -1; } int r; if (watch && !busy(p, r)) return r; return __real_sem_timedwait(p, t); }
int __wrap_sem_clockwait(sem_t *p, clockid_t c, const timespec *t) { if (inject("timed")) return -1; if (fake) { until_ = *t; errno = ETIMEDOUT; return -1; } int r; if (watch && !busy(p, r)) return r; return __real_sem_clockwait(p, c, t); }
void *__wrap_mmap(void *a, size_t l, int p, int f, int d, off_t o) { if (inject("mmap")) return MAP_FAILED; return __real_mmap(a, l, p, f, d, o); }
int __wrap_ftruncate(int d, off_t l) { if (inject("ftruncate")) return -1; return __real_ftruncate(d, l); }
int __wrap_shm_open(const char *n, int f, mode_t m) { if (inject("shm_open")) return -1; return __real_shm_open(n, f, m); }
}
static double clk() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void on_signal(int) { int e = errno; tell(self_, 's', ""); errno = e; }
static std::map<int, std::unique_ptr<Semaphore> > sems; static std::map<int, std::unique_ptr<SharedMemory<Data> > > mems;
static std::string used() { // what this process has of the shared things: descriptors and mapped memories
  int fds = 0, maps = 0; if (DIR *d = opendir("/proc/self/fd")) { while (dirent *e = readdir(d)) { char b[256]; std::string p = std::string("/proc/self/fd/") + e->d_name; ssize_t n = readlink(p.c_str(), b, 255); if (n > 0) { b[n] = 0; if (strstr(b, "/dev/shm/")) ++fds; } } closedir(d); }
  if (FILE *f = fopen("/proc/self/maps", "r")) { char b[512]; std::string last; while (fgets(b, 512, f)) if (strstr(b, "/dev/shm/verif-")) ++maps; fclose(f); }
  return std::to_string(fds) + ":" + std::to_string(maps);
}
static std::string timed(Semaphore &m, double s) {
  long long ns = (long long)(s * 1e9 + (s < 0 ? -.5 : .5)); Duration d(TimeStamp((long)(ns / 1000000000), (long)(ns % 1000000000))); double a = clk(); bool b = m.trylock(d); double e = clk() - a;
  return b ? "yes" : e < s && s < 5 ? "no!early" : e > s + 20 ? "no!late" : "no";
}
static std::string perform(const Act &c) {
  std::string o = c.op; int n = c.n;
  if (o == "open") { sems[n].reset(); sems[n].reset(new Semaphore(name(n))); return "ok"; }
  if (o == "close") { sems[n].reset(); return "ok"; }
  if (o == "lock") { sems[n]->lock(); return "got"; }
  if (o == "try") return sems[n]->trylock() ? "yes" : "no";
  if (o == "timed") return timed(*sems[n], c.x * 1e-3);
  if (o == "unlock") { sems[n]->unlock(); return "ok"; }
  if (o == "turns") { Data *d = mems[n]->data(); bool two = false; for (long k = 0; k < c.x; ++k) {
      if (k % 7 == 3) { if (!sems[n]->trylock()) { --k; continue; } } else if (k % 7 == 5) { Duration t(TimeStamp(100L, 0L)); if (!sems[n]->trylock(t)) return "late"; } else sems[n]->lock();
      if (d->c != 0) two = true; d->c = 1; d->a = *(volatile long *)&d->a + 1; d->c = 0; sems[n]->unlock(); } return two ? "two" : "ok"; }
  if (o == "mopen") { fault = c.s; fault_errno = c.x; std::string r; try { mems[n].reset(); mems[n].reset(new SharedMemory<Data>(name(n))); } catch (StandardException &e) { r = "throw:" + flag(e.flag()); mems.erase(n); } fault.clear(); if (!r.empty()) return r; Data *d = mems[n]->data(); bool whole = true; for (char x : d->fill) whole = whole && x == 'x'; return std::to_string(d->a) + "," + std::to_string(d->b) + (whole && (o != "" ) ? "" : "!fill"); }
  if (o == "mclose") { mems[n].reset(); mems.erase(n); return "ok"; }
  if (o == "munlink") { mems[n]->unlink(); return "ok"; }
  if (o == "mset") { Data *d = mems[n]->data(); (c.x ? (void)(d->b = c.y) : (void)(d->a = c.y)); return "ok"; }
  if (o == "mget") { Data *d = mems[n]->data(); return std::to_string(d->a) + "," + std::to_string(d->b); }
  if (o == "mzero") { mems[n]->data()->a = 0; mems[n]->data()->c = 0; return "ok"; }
  if (o == "res") return used();
  if (o == "bare") { try { Semaphore s; return "made"; } catch (StandardException &e) { return "throw:" + flag(e.flag()); } }
  return "?";
}
static void work(int k) {
  self_ = k; prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() == 1) _exit(1);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sigaction(SIGUSR1, &sa, 0);
  for (;;) { Act c; if (read(cmd[k][0], &c, sizeof c) != sizeof c) _exit(0);
    std::string r; watch = true; try { r = perform(c); } catch (StandardException &e) { r = "throw:" + flag(e.flag()); } watch = false; tell(k, 'r', r); }
}
static bool hear(Msg &x, int ms) { pollfd p = {res[0], POLLIN, 0}; int r; while ((r = poll(&p, 1, ms)) < 0 && errno == EINTR) {} if (r <= 0) return false; return read(res[0], &x, sizeof x) == sizeof x; }
static char state(int k) { char f[64], b[512]; snprintf(f, sizeof f, "/proc/%d/stat", (int)pids[k]); int d = open(f, O_RDONLY); if (d < 0) return '?'; int n = read(d, b, 511); close(d); if (n < 0) n = 0; b[n] = 0; char *p = strrchr(b, ')'); return p ? p[2] : '?'; }
// has this process settled to wait, or has it gone on (then x is what it says)?
static bool still(int k, Msg &x) { for (int n = 0, q = 0; q < 3 && n < 100000; ++n) { if (state(k) == 'S') ++q; else q = 0; usleep(q ? 50 : 20); if (q >= 3 || n % 50 == 49) { if (hear(x, 0)) return false; } } return true; }
static void send(int k, const char *op, int n, long x = 0, long y = 0, const char *s = "") { Act a; memset(&a, 0, sizeof a); strncpy(a.op, op, 11); a.n = n; a.x = x; a.y = y; strncpy(a.s, s, 15); if (write(cmd[k][1], &a, sizeof a) < 0) _exit(4); }
static std::string say(const Msg &x, int k) { return x.who == k && x.kind == 'r' ? x.text : std::string("!") + std::to_string(x.who) + x.kind + x.text; }
void drv_reset() {
  clean(); if (pipe(res)) exit(3); for (int k = 0; k < N; ++k) if (pipe(cmd[k])) exit(3);
  for (int k = 0; k < N; ++k) { fflush(stdout); pids[k] = fork(); if (pids[k] == 0) { for (int j = 0; j < N; ++j) close(cmd[j][1]); work(k); } }
  for (int k = 0; k < N; ++k) close(cmd[k][0]);
}
std::string drv_do(const Cmd &c) {
  std::string o = c.op; if (o == "mode") return "ok"; if (res[0] < 0) drv_reset();
  if (o == "has") { int d = o == "has" && c.i(0) == 0 ? shm_open(("/" + name(c.i(1))).c_str(), O_RDONLY, 0) : -1; if (c.i(0) == 1) { sem_t *s = sem_open(("/" + name(c.i(1))).c_str(), 0); if (s == SEM_FAILED) return "no"; sem_close(s); return "yes"; } if (d < 0) return "no"; close(d); return "yes"; }
  if (o == "turns") { int np = c.i(0); long each = c.i(1); std::string bad; for (int k = 0; k < np; ++k) { send(k, "open", 3); send(k, "mopen", 3); } Msg x; for (int k = 0; k < 2 * np; ++k) if (!hear(x, 60000)) return "hangs"; send(0, "mzero", 3); if (!hear(x, 60000)) return "hangs";
    int left = np; for (int k = 0; k < np; ++k) send(k, "turns", 3, each); while (left) { if (!hear(x, 120000)) return "hangs"; if (x.kind != 'r') continue; --left; if (std::string(x.text) != "ok") bad = std::string("!") + x.text; }
    send(0, "mget", 3); if (!hear(x, 60000)) return "hangs"; std::string t = x.text; t = t.substr(0, t.find(',')); return (t == std::to_string(each * np) ? "ok" : "lost") + bad; }
  if (o == "meet") { std::string got; bool first = false; long seen = 0; Msg x; for (int r = 0; r < c.i(0); ++r) { // all processes come for a new name at once, go for the lock, and one gets it
      for (int k = 0; k < N; ++k) send(k, "open", 2); for (int k = 0; k < N; ++k) { if (!hear(x, 60000)) return "hangs"; if (std::string(x.text) != "ok") return x.text; }
      for (int k = 0; k < N; ++k) send(k, "try", 2); int y = 0; for (int k = 0; k < N; ++k) { if (!hear(x, 60000)) return "hangs"; if (std::string(x.text) == "yes") ++y; }
      if (y != 1) got = "!" + std::to_string(y); for (int k = 0; k < N; ++k) { send(k, "close", 2); } for (int k = 0; k < N; ++k) if (!hear(x, 60000)) return "hangs"; sem_unlink(("/" + name(2)).c_str()); }
    return "ok" + got; }
  if (o == "deadline") { Semaphore x(name(3)); x.lock(); Duration d(TimeStamp(c.i(2), c.i(3))); now_.tv_sec = c.i(0); now_.tv_nsec = c.i(1); until_.tv_sec = until_.tv_nsec = -1; fake = true; bool b; try { b = x.trylock(d); } catch (...) { fake = false; throw; } fake = false;
    return std::string(b ? "yes:" : "no:") + std::to_string(until_.tv_sec) + "," + std::to_string(until_.tv_nsec); }
  if (o == "broken") { fault_errno = c.i(1); std::string r; if (c.s(0) == "sem_open") { fault = "sem_open"; try { Semaphore x(name(3)); r = std::string("ok:") + (x.trylock() ? "1" : "0"); } catch (StandardException &e) { r = "throw:" + flag(e.flag()); } fault.clear(); return r; }
    Semaphore x(name(3)); x.lock(); fault = "timed"; try { Duration d(TimeStamp(1L, 0L)); r = x.trylock(d) ? "yes" : "no"; } catch (StandardException &e) { r = "throw:" + flag(e.flag()); } fault.clear(); r += std::string(":") + (x.trylock() ? "1" : "0"); x.unlock(); return r + std::string(":") + (x.trylock() ? "1" : "0"); }
  int k = c.i(0); Msg x;
  if (k < 0 || k >= N) return "?";
  if (o == "sig") { kill(pids[k], SIGUSR1); if (!hear(x, 60000)) return "hangs"; if (x.who != k || x.kind != 's') return "!order:" + std::string(x.text); if (still(k, x)) return "waits"; waits[k] = false; return say(x, k); }
  if (waits[k]) return "?busy";
  if (o == "mopen" && c.a.size() > 2) send(k, "mopen", c.i(1), num(c.s(3)), 0, c.s(2).c_str());
  else send(k, o.c_str(), c.a.size() > 1 ? c.i(1) : 0, c.a.size() > 2 ? c.i(2) : 0, c.a.size() > 3 ? c.i(3) : 0);
  if (!hear(x, 60000)) return "hangs"; std::string early; // whoever is let go may speak up first
  if (o == "unlock" && x.who != k && x.who >= 0 && x.who < N && waits[x.who]) { waits[x.who] = false; early = ":" + std::to_string(x.who) + ":" + x.text; if (!hear(x, 60000)) return "hangs"; }
  if (x.who != k) return say(x, k);
  if (x.kind == 'w') { if (o == "timed" && c.i(2) < 5000) { if (!hear(x, 60000)) return "hangs"; return say(x, k); } if (!still(k, x)) return say(x, k); waits[k] = true; return "waits"; }
  std::string r = say(x, k) + early;
  if (o == "unlock") for (int j = 0; j < N; ++j) if (waits[j] && !still(j, x)) { int w = x.who; if (w < 0 || w >= N || !waits[w]) return r + say(x, -1); waits[w] = false; r += ":" + std::to_string(w) + ":" + x.text; j = -1; }
  return r;
}
