#ifndef VERIF_SHIM_TIME_LITE_CONFIG_HPP_
#define VERIF_SHIM_TIME_LITE_CONFIG_HPP_
#define ECL_HAS_TIMESTAMP 1
#define ECL_HAS_RT_TIMERS 1
#define ECL_HAS_CPUTIME 1
#endif
