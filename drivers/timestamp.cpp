#include "drv.hpp"
#include <cmath>
#include <cerrno>
#include <sstream>
#include <ecl/time/timestamp.hpp>
#include <ecl/time/duration.hpp>
static ecl::TimeStructure mono, real_; static int bad; // the error of the next reading of a clock
static bool fails(ecl::TimeStructure &t) { if (!bad) return false; t.tv_sec = 77; t.tv_nsec = 7; errno = bad; bad = 0; return true; }
namespace ecl {
TimeError epoch_time(TimeStructure &t) { ecl::TimeStructure junk; if (fails(junk)) return TimeError(UnknownError); t = mono; return TimeError(NoError); }
TimeError realtime_epoch_time(TimeStructure &t) { if (fails(t)) return TimeError(UnknownError); t = real_; return TimeError(NoError); }
TimeError sleep(const TimeStructure &) { return TimeError(NoError); }
TimeError sleep_until(const TimeStructure &) { return TimeError(NoError); }
}
typedef ecl::TimeStamp TS;
static TS t[2];
void drv_reset() { bad = 0; mono.tv_sec = mono.tv_nsec = real_.tv_sec = real_.tv_nsec = 0; t[0] = TS(0, 0); t[1] = TS(0, 0); }
static std::string sh(const TS &a) { return std::to_string(a.sec()) + "," + std::to_string(a.nsec()); }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "clock") { mono.tv_sec = c.i(0); mono.tv_nsec = c.i(1); real_.tv_sec = c.i(2); real_.tv_nsec = c.i(3); return "ok"; }
  TS &x = t[c.i(0)];
  if (o == "new") { try { const time_t s = c.i(2); const long n = c.i(3); switch (c.i(1)) { case 0: x = TS(s, n); break; case 1: { const ecl::TimeStampBase &r = x.stamp(s, n); if (&r != &x) return "!ref"; break; } default: x = TS(ecl::TimeStampBase(s, n)); } } catch (const ecl::StandardException &e) { return e.flag() == ecl::InvalidInputError ? "InvalidInput" : "!flag"; } return sh(x); }
  if (o == "dbl") { double d = c.i(2) / 512.0; switch (c.i(1)) { case 0: x = TS(d); break; case 1: x.stamp(d); break; default: x = d; } return sh(x); }
  if (o == "any") { double d = (double)((c.i(1) * 1000000000.0L + c.i(2)) / 1000000000.0L); if (c.i(2) & 1) x = TS(d); else x.stamp(d); return sh(x); }
  if (o == "bad") { try { bad = c.s(2) == "EINVAL" ? EINVAL : c.s(2) == "EFAULT" ? EFAULT : c.s(2) == "ENOSYS" ? ENOSYS : EIO; switch (c.i(1)) { case 0: x = TS(); break; case 1: x.stamp(); break; default: x = TS::realtime_now(); } return "!nothrow"; }
    catch (const ecl::StandardException &e) { return e.flag() == ecl::NotSupportedError ? "throw:NotSupported" : e.flag() == ecl::OutOfRangeError ? "throw:OutOfRange" : e.flag() == ecl::UnknownError ? "throw:Unknown" : "throw:?"; } }
  if (o == "now") { switch (c.i(1)) { case 0: x = TS(); break; case 1: { const TS &r = x.stamp(); if (&r != &x) return "!ref"; break; } default: x = TS::realtime_now(); } return sh(x); }
  if (o == "copy") { if (c.i(1) & 1) x = t[c.i(1)]; else { TS z(t[c.i(1)]); x = z; } return sh(x); }
  if (o == "get") return std::to_string(x.sec()) + "," + std::to_string(x.msec()) + "," + std::to_string(x.usec()) + "," + std::to_string(x.nsec());
  if (o == "double") { const TS &k = x; double d = k; long long n = llroundl((long double)d * 1000000000.0L); return std::to_string(n / 1000000000) + "," + std::to_string(n % 1000000000); }
  if (o == "show") { std::ostringstream s; s << x; return s.str(); }
  TS &y = t[c.i(1)];
  if (o == "cmp") { std::string r; r += (x == y) ? '1' : '0'; r += (x != y) ? '1' : '0'; r += (x <= y) ? '1' : '0'; r += (x >= y) ? '1' : '0'; r += (x < y) ? '1' : '0'; r += (x > y) ? '1' : '0'; return r; }
  try {
  if (o == "add") { TS z = x + y; t[c.i(2)] = z; return sh(z); }
  if (o == "sub") { TS z = x - y; t[c.i(2)] = z; return sh(z); }
  if (o == "inc") { x += y; return sh(x); }
  if (o == "dec") { x -= y; return sh(x); }
  } catch (const ecl::StandardException &e) { return "!thrown"; }
  return "?";
}
