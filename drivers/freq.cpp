#include "drv.hpp"
#include "num.hpp"
#include <ecl/time/frequency.hpp>
typedef ecl::TimeStructure T;
static long mono, real_;
static void put(T &t, long n) { t.tv_sec = n / 8; t.tv_nsec = n % 8 * 125000000L; }
namespace ecl {
TimeError epoch_time(T &t) { put(t, mono); return TimeError(NoError); }
TimeError realtime_epoch_time(T &t) { put(t, real_); return TimeError(NoError); }
TimeError sleep(const T &) { return TimeError(NoError); }
TimeError sleep_until(const T &) { return TimeError(NoError); }
}
static ecl::FrequencyMonitor *m[2];
void drv_reset() { mono = 80; real_ = 4000; delete m[0]; delete m[1]; m[0] = new ecl::FrequencyMonitor(); m[1] = new ecl::FrequencyMonitor(2.0, true); }
static std::string show(const ecl::FrequencyDiagnostics &d) { if (d.std_dev != -1.0f) return "!stddev"; return std::string(d.has_connection ? "1" : "0") + "," + std::to_string((long)std::floor(d.hz * 64.0 + 0.5)) + "," + num(d.minimum_interval * 8.0) + "," + num(d.maximum_interval * 8.0) + "," + num(d.last_incoming * 8.0); }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "tick") { mono += c.i(0); real_ += c.i(1); return "ok"; }
  ecl::FrequencyMonitor *&x = m[c.i(0)];
  if (o == "new") { delete x; const float p = c.i(1) / 8.0f; const bool b = c.i(2); x = b ? new ecl::FrequencyMonitor(p, b) : new ecl::FrequencyMonitor(p); return "ok"; }
  if (o == "update") { x->update(); return "ok"; }
  if (o == "analyse") { const ecl::FrequencyDiagnostics &d = x->analyse(); if (&d != &x->diagnostics()) return "!ref"; return show(d); }
  if (o == "diag") { const ecl::FrequencyMonitor &k = *x; return show(k.diagnostics()); }
  return "?";
}
