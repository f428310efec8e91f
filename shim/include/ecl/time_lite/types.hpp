#ifndef VERIF_SHIM_TIME_LITE_TYPES_HPP_
#define VERIF_SHIM_TIME_LITE_TYPES_HPP_
#include <time.h>
#include <ecl/errors/handlers.hpp>
namespace ecl {
typedef struct timespec TimeStructure;
class TimeError : public Error {
public:
  TimeError(const ErrorFlag& flag = UnknownError) : Error(flag) {}
};
}
#endif
