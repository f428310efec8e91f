#ifndef VERIF_SHIM_ERRORS_HPP_
#define VERIF_SHIM_ERRORS_HPP_
#include "errors/compile_time_assert.hpp"
#include "errors/handlers.hpp"
#include "errors/macros.hpp"
#endif
