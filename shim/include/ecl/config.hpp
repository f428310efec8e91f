#ifndef VERIF_SHIM_CONFIG_HPP_
#define VERIF_SHIM_CONFIG_HPP_
#include "config/ecl.hpp"
#include "config/macros.hpp"
#include "config/portable_types.hpp"
#endif
