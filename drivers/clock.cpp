#include "drv.hpp"
#include "num.hpp"
#include <errno.h>
#include <time.h>
#include <ecl/time/timestamp.hpp>
#include <ecl/time/snooze.hpp>
#include <ecl/time/sleep.hpp>
#include <ecl/time/stopwatch.hpp>
#include <ecl/time/cpuwatch_rt.hpp>
#include <ecl/time/time_data.hpp>
typedef ecl::TimeStructure T;
static T mono, cpu; static std::string last; static std::string fail;
static const long G = 1000000000L;
static void add(T &a, long s, long n) { a.tv_sec += s; a.tv_nsec += n; if (a.tv_nsec >= G) { a.tv_nsec -= G; ++a.tv_sec; } }
static std::string sh(long s, long n) { return std::to_string(s) + "," + std::to_string(n); }
namespace ecl {
TimeError epoch_time(T &t) { t = mono; return TimeError(NoError); }
TimeError realtime_epoch_time(T &t) { t = mono; return TimeError(NoError); }
TimeError cpu_time(T &t) { t = cpu; return TimeError(NoError); }
TimeError sleep(const T &t) { add(mono, t.tv_sec, t.tv_nsec); return TimeError(NoError); }
TimeError sleep_until(const T &t) {
  last = sh(t.tv_sec, t.tv_nsec);
  if (t.tv_nsec < 0 || t.tv_nsec >= G) { last += "!invalid"; return TimeError(OutOfRangeError); }
  if (t.tv_sec > mono.tv_sec || (t.tv_sec == mono.tv_sec && t.tv_nsec > mono.tv_nsec)) mono = t;
  return TimeError(NoError);
}
}
extern "C" int nanosleep(const struct timespec *r, struct timespec *) {
  last = sh(r->tv_sec, r->tv_nsec);
  if (fail == "Interrupted") { errno = EINTR; return -1; }
  if (fail == "Memory") { errno = EFAULT; return -1; }
  if (fail == "Unknown") { errno = EIO; return -1; }
  if (fail == "InvalidInput" || r->tv_nsec < 0 || r->tv_nsec >= G || r->tv_sec < 0) { errno = EINVAL; return -1; }
  add(mono, r->tv_sec, r->tv_nsec); return 0;
}
static ecl::Snooze *sn; static ecl::Sleep *s0; static ecl::MilliSleep *s1; static ecl::MicroSleep *s2; static ecl::NanoSleep *s3; static ecl::StopWatch *w0; static ecl::CpuWatch *w1; static ecl::TimeData *td; static int nd;
void drv_reset() {
  mono.tv_sec = mono.tv_nsec = cpu.tv_sec = cpu.tv_nsec = 0; fail = ""; nd = 0;
  delete sn; delete s0; delete s1; delete s2; delete s3; delete w0; delete w1; delete td;
  sn = new ecl::Snooze(); s0 = new ecl::Sleep(); s1 = new ecl::MilliSleep(); s2 = new ecl::MicroSleep(); s3 = new ecl::NanoSleep(); w0 = new ecl::StopWatch(); w0->restart(); w1 = new ecl::CpuWatch(); td = new ecl::TimeData();
}
static std::string dur(int k) { ecl::Duration d(0, 0); switch (k) { case 0: d = s0->duration(); break; case 1: d = s1->duration(); break; case 2: d = s2->duration(); break; default: d = s3->duration(); } return sh(d.sec(), d.nsec()); }
template <class F> static std::string go(int kind, F f) {
  last = "none"; std::string r;
  try { f(); r = last; if (dur(kind) != last) r = "!duration"; }
  catch (const ecl::StandardException &e) {
    switch (e.flag()) { case ecl::InterruptedError: r = "Interrupted"; break; case ecl::InvalidInputError: r = fail.empty() ? "!invalid" : "InvalidInput"; break; case ecl::MemoryError: r = "Memory"; break; case ecl::UnknownError: r = "Unknown"; break; default: r = "!flag"; } }
  fail = ""; return r;
}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "tick") { add(c.i(0) ? cpu : mono, c.i(1), c.i(2)); return "ok"; }
  if (o == "period") { ecl::Duration d(c.i(1), c.i(2)); bool v = c.i(3); switch (c.i(0)) { case 0: sn->period(d, v); break; case 1: delete sn; sn = new ecl::Snooze(d, v); break; default: if (v) sn->period(d, true); else sn->period(d); } return "ok"; }
  if (o == "getp") { ecl::Duration d = sn->period(); return sh(d.sec(), d.nsec()); }
  if (o == "init") { sn->initialise(); return "ok"; }
  if (o == "snooze") { last = "none"; (*sn)(); return last; }
  if (o == "fail") { fail = c.s(0); return "ok"; }
  if (o == "mk") { unsigned long n = c.i(1); switch (c.i(0)) { case 0: delete s0; s0 = new ecl::Sleep(n); break; case 1: delete s1; s1 = new ecl::MilliSleep(n); break; case 2: delete s2; s2 = new ecl::MicroSleep(n); break; default: delete s3; s3 = new ecl::NanoSleep(n); } return dur(c.i(0)); }
  if (o == "mkd") { delete s0; s0 = new ecl::Sleep(ecl::Duration(c.i(0), c.i(1))); return dur(0); }
  if (o == "go") return go(c.i(0), [&] { switch (c.i(0)) { case 0: (*s0)(); break; case 1: (*s1)(); break; case 2: (*s2)(); break; default: (*s3)(); } });
  if (o == "gon") { unsigned long n = c.i(1); return go(c.i(0), [&] { switch (c.i(0)) { case 0: (*s0)(n); break; case 1: (*s1)(n); break; case 2: (*s2)(n); break; default: (*s3)(n); } }); }
  if (o == "god") { ecl::Duration d(c.i(0), c.i(1)); return go(0, [&] { (*s0)(d); }); }
  if (o == "start") { static bool alt = false; alt = !alt; if (c.i(0) == 0) { if (alt) { delete w0; w0 = new ecl::StopWatch(); } else w0->restart(); } else { if (alt) { delete w1; w1 = new ecl::CpuWatch(); } else w1->restart(); } return "ok"; }
  if (o == "elapsed") { ecl::TimeStamp t = c.i(0) ? w1->elapsed() : w0->elapsed(); return sh(t.sec(), t.nsec()); }
  if (o == "split") { ecl::TimeStamp t = c.i(0) ? w1->split() : w0->split(); return sh(t.sec(), t.nsec()); }
  if (o == "push") { td->push_back(ecl::Duration(c.i(0) / 8.0)); ++nd; return "ok"; }
  if (o == "clear") { td->clear(); nd = 0; return "ok"; }
  if (o == "stats") { double a = td->average(), v = td->variance(), s = td->stdDev(); return num(a * 8 * nd, 1e-3) + "," + num(v * 64 * nd * nd, 1e-3) + "," + num(s * s * 64 * nd * nd, 1e-2); }
  return "?";
}
