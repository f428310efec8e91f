#ifndef VERIF_SHIM_FILESYSTEM_CONFIG_HPP_
#define VERIF_SHIM_FILESYSTEM_CONFIG_HPP_
#define ECL_PRIVATE_HAS_POSIX_REALPATH 1
#endif
