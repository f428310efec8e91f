// priorities of a process, with a stand-in for the scheduler of the system
#include "drv.hpp"
#include <cstring>
#include <sched.h>
#include <sys/resource.h>
#include <ecl/exceptions/standard_exception.hpp>
#include "file_errors.hpp"
#include <ecl/threads/priority.hpp>
using namespace ecl;
static int nice_, policy_, rt_, fault; static std::string at;
static bool hit(const char *k) { if (at == k) { at = ""; errno = fault; return true; } return false; }
extern "C" {
int __wrap_setpriority(__priority_which_t w, id_t i, int p) { if (w != PRIO_PROCESS || i) { errno = ESRCH; return -1; } if (hit("nice")) return -1; nice_ = p < -20 ? -20 : p > 19 ? 19 : p; return 0; }
int __wrap_getpriority(__priority_which_t, id_t) { errno = 0; return nice_; }
int __wrap_sched_setscheduler(pid_t, int p, const sched_param *s) { if (hit("sched")) return -1; bool r = p == SCHED_RR || p == SCHED_FIFO; if (r ? s->sched_priority < 1 || s->sched_priority > 99 : s->sched_priority != 0) { errno = EINVAL; return -1; } policy_ = p; rt_ = s->sched_priority; return 0; }
int __wrap_sched_getscheduler(pid_t) { if (hit("query")) return -1; return policy_; }
int __wrap_sched_getparam(pid_t, sched_param *s) { if (hit("param")) return -1; s->sched_priority = rt_; return 0; }
}
void drv_reset() { nice_ = rt_ = 0; policy_ = SCHED_OTHER; at = ""; }
template <class F> static std::string grab(F g) { try { std::string r = g(); at = ""; return r; } catch (StandardException &e) { at = ""; return "throw:" + flag(e.flag()); } }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; if (o == "mode") return "ok";
  if (o == "host") { std::string p = c.s(0); policy_ = p == "other" ? SCHED_OTHER : p == "rr" ? SCHED_RR : p == "fifo" ? SCHED_FIFO : p == "batch" ? SCHED_BATCH : SCHED_IDLE; rt_ = nice_ = 0; (policy_ == SCHED_RR || policy_ == SCHED_FIFO ? rt_ : nice_) = c.i(1); return "ok"; }
  if (o == "set") return grab([&]() { if (c.a.size() > 1) { at = c.s(1); fault = num(c.s(2)); } return std::string(set_priority((Priority)c.i(0)) ? "1" : "0"); });
  if (o == "get") return grab([&]() { if (c.a.size() > 0) { at = c.s(0); fault = num(c.s(1)); } return std::to_string((int)get_priority()); });
  if (o == "sys") return std::string(policy_ == SCHED_OTHER ? "other" : policy_ == SCHED_RR ? "rr" : policy_ == SCHED_FIFO ? "fifo" : policy_ == SCHED_BATCH ? "batch" : "idle") + ":" + std::to_string(policy_ == SCHED_RR || policy_ == SCHED_FIFO ? rt_ : nice_);
  if (o == "rt") return grab([&]() { if (c.a.size() > 1) { at = c.s(1); fault = num(c.s(2)); } return std::string(threads::set_real_time_priority(SCHED_RR, c.i(0)) ? "1" : "0"); });
  if (o == "diag") { std::string t = print_priority_diagnostics(); size_t p = t.rfind('.'); for (const char *l : {"Scheduler.", "Priority."}) { size_t n = 0; for (size_t i = t.find(l); i != std::string::npos; i = t.find(l, i + 1)) ++n; if (n != 1) return "!" + std::string(l); } std::string r = t.substr(p + 1, t.find_last_not_of("\n") - p); std::string s = t.find("SCHED_OTHER") != std::string::npos ? "other" : t.find("SCHED_RR ") != std::string::npos ? "rr" : t.find("SCHED_FIFO ") != std::string::npos ? "fifo" : t.find("SCHED_BATCH\n") != std::string::npos ? "batch" : t.find(".Unknown\n") < p - 10 ? "idle" : "?"; return s + ":" + r.substr(0, r.find(' ')); }
  return "?";
}
