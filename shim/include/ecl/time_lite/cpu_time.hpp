#ifndef VERIF_SHIM_TIME_LITE_CPU_TIME_HPP_
#define VERIF_SHIM_TIME_LITE_CPU_TIME_HPP_
#include "functions.hpp"
namespace ecl {
#ifdef VERIF_VIRTUAL_TIME
TimeError cpu_time(TimeStructure &t);
#else
inline TimeError cpu_time(TimeStructure &t) {
  return clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t) == 0 ? TimeError(NoError) : TimeError(UnknownError);
}
#endif
}
#endif
