property = "I02"
edits = [("ecl_ipc/src/lib/shared_memory_pos.cpp", "    } else {\n    	shared_memory_manager = true;\n    }\n    if ( shm_descriptor == -1) {\n    }\n", "    }\n    shared_memory_manager = ( shm_descriptor != -1 );\n")]
needs = "a second user of one shared memory"
breaks = "the second user initialises the memory again, and takes the name away when it leaves"
demo = r'''
#include <cstdio>
#include <string>
#include <unistd.h>
#include <ecl/ipc/shared_memory.hpp>
struct D { int v; D() : v(5) {} };
int main() {
  std::string name = "b18_" + std::to_string(getpid());
  ecl::SharedMemory<D> a(name); if (a.data()->v != 5) return 2; a.data()->v = 9;
  int r = 0;
  { ecl::SharedMemory<D> b(name); if (b.data()->v != 9) r = 1; }
  { ecl::SharedMemory<D> c(name); if (c.data()->v != 9) r = 1; }
  return r;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_ipc/src/lib/*.cpp", "ecl_time/src/lib/*.cpp"]
flags = "-DECL_HAS_POSIX_TIMERS -DECL_HAS_RT_TIMERS -DECL_HAS_TIMESTAMP -D_POSIX_SHARED_MEMORY_OBJECTS=1"
