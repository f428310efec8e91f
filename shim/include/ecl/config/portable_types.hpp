// Stand-in for ecl_config's detected portable types (LP64).
#ifndef VERIF_SHIM_PORTABLE_TYPES_HPP_
#define VERIF_SHIM_PORTABLE_TYPES_HPP_
#include <climits>
#define ECL_SIZE_OF_CHAR 1
#define ECL_SIZE_OF_SHORT 2
#define ECL_SIZE_OF_INT 4
#define ECL_SIZE_OF_LONG 8
#define ECL_SIZE_OF_LONG_LONG 8
#define ECL_SIZE_OF_FLOAT 4
#define ECL_SIZE_OF_DOUBLE 8
#define ECL_SIZE_OF_LONG_DOUBLE 16
#ifdef __cplusplus
namespace ecl {
typedef char           int8;
typedef unsigned char  uint8;
typedef short          int16;
typedef unsigned short uint16;
typedef int            int32;
typedef unsigned int   uint32;
typedef long           int64;
typedef unsigned long  uint64;
typedef float          float32;
typedef double         float64;
typedef long double    float96;
typedef long double    float128;
}
#endif
#endif
