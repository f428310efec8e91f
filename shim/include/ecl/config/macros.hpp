// Stand-in for ecl_config's symbol visibility macros.
#ifndef VERIF_SHIM_CONFIG_MACROS_HPP_
#define VERIF_SHIM_CONFIG_MACROS_HPP_
#include "ecl.hpp"
#define ECL_HELPER_DLL_IMPORT
#define ECL_HELPER_DLL_EXPORT
#define ECL_HELPER_DLL_LOCAL
#define ECL_HELPERS_LOCAL
#define ECL_PUBLIC
#define ECL_LOCAL
#define ECL_FORCE_INLINE inline
#define ECL_DEPRECATED __attribute__((deprecated))
#ifndef ECL_UNUSED
#define ECL_UNUSED __attribute__((unused))
#endif
#endif
