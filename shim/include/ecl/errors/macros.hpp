#ifndef VERIF_SHIM_ERRORS_MACROS_HPP_
#define VERIF_SHIM_ERRORS_MACROS_HPP_
#define ECL_STRINGISE(x) #x
#define ECL_TOSTRING(x) ECL_STRINGISE(x)
#define LOC __FILE__ ":" ECL_TOSTRING(__LINE__)
#ifndef ecl_run_time_abort
#include <cstdlib>
#include <iostream>
#define ecl_run_time_abort(loc,msg) do { std::cerr << loc << ": " << msg << std::endl; std::abort(); } while(0)
#endif
#endif
