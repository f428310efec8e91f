// Stand-in for ecl_time_lite: monotonic epoch clock, realtime clock, sleeps.  A harness
// that defines VERIF_VIRTUAL_TIME supplies the clocks itself (see harness/vclock.hpp).
#ifndef VERIF_SHIM_TIME_LITE_FUNCTIONS_HPP_
#define VERIF_SHIM_TIME_LITE_FUNCTIONS_HPP_
#include <errno.h>
#include "config.hpp"
#include "types.hpp"
namespace ecl {
#ifdef VERIF_VIRTUAL_TIME
TimeError epoch_time(TimeStructure &t);
TimeError realtime_epoch_time(TimeStructure &t);
TimeError sleep(const TimeStructure &t);
TimeError sleep_until(const TimeStructure &t);
#else
inline TimeError epoch_time(TimeStructure &t) {
  return clock_gettime(CLOCK_MONOTONIC,&t) == 0 ? TimeError(NoError) : TimeError(UnknownError);
}
inline TimeError realtime_epoch_time(TimeStructure &t) {
  return clock_gettime(CLOCK_REALTIME,&t) == 0 ? TimeError(NoError) : TimeError(UnknownError);
}
inline TimeError sleep(const TimeStructure &t) {
  int r = clock_nanosleep(CLOCK_MONOTONIC,0,&t,0);
  return r == 0 ? TimeError(NoError) : r == EINTR ? TimeError(InterruptedError) : r == EINVAL ? TimeError(OutOfRangeError) : TimeError(UnknownError);
}
inline TimeError sleep_until(const TimeStructure &t) {
  int r = clock_nanosleep(CLOCK_MONOTONIC,TIMER_ABSTIME,&t,0);
  return r == 0 ? TimeError(NoError) : r == EINTR ? TimeError(InterruptedError) : r == EINVAL ? TimeError(OutOfRangeError) : TimeError(UnknownError);
}
#endif
inline TimeError sleep(const unsigned long &seconds) { TimeStructure t; t.tv_sec = seconds; t.tv_nsec = 0; return sleep(t); }
}
#endif
