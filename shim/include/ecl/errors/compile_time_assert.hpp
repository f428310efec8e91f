#ifndef VERIF_SHIM_CTA_HPP_
#define VERIF_SHIM_CTA_HPP_
#define ecl_compile_time_assert(condition) static_assert((condition), #condition)
#define ecl_static_assert(condition, msg) static_assert((condition), #msg)
#endif
