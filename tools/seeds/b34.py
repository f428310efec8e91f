property = "T03"
edits = [("ecl_threads/src/lib/priority_pos.cpp", "rr_min+(priority_level - RealTimePriority1)*(rr_max - rr_min)/10", "rr_min+(priority_level - RealTimePriority1)*((rr_max - rr_min)/10)")]
needs = "one of the two highest real time priorities, on a range that ten does not divide"
breaks = "the priority in force is below the one asked for, and reported as a lower one"
demo = r'''
#include <cstdio>
#include <sched.h>
#include <ecl/threads/priority.hpp>
static int pol = SCHED_OTHER, pri = 0;
extern "C" {
int sched_setscheduler(pid_t, int p, const sched_param *s) { pol = p; pri = s->sched_priority; return 0; }
int sched_getscheduler(pid_t) { return pol; }
int sched_getparam(pid_t, sched_param *s) { s->sched_priority = pri; return 0; }
int sched_get_priority_min(int) { return 1; }
int sched_get_priority_max(int) { return 99; }
}
int main() {
  ecl::Priority p[] = {ecl::RealTimePriority1, ecl::RealTimePriority2, ecl::RealTimePriority3, ecl::RealTimePriority4};
  for (ecl::Priority x : p) { if (!ecl::set_priority(x)) return 2; if (ecl::get_priority() != x) { printf("%d read as %d\n", (int)x, (int)ecl::get_priority()); return 1; } }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_threads/src/lib/priority_pos.cpp"]
