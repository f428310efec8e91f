// Stand-in for ecl_config's platform detection (linux / posix / gcc).
#ifndef VERIF_SHIM_CONFIG_ECL_HPP_
#define VERIF_SHIM_CONFIG_ECL_HPP_
#define ECL_IS_POSIX 1
#define ECL_HAS_POSIX_THREADS 1
#define ECL_HAS_POSIX_TIMERS 1
#define ECL_HAS_POSIX_PRIORITY_SCHEDULING 1
#define ECL_HAS_POSIX_SEMAPHORES 1
#define ECL_HAS_SEMAPHORES 1
#define ECL_HAS_POSIX_SHARED_MEMORY 1
#define ECL_HAS_SHARED_MEMORY 1
#define ECL_CXX11_FOUND 1
#define ECL_CHAR_IS_SIGNED 1
#include "portable_types.hpp"
#include "macros.hpp"
#endif
