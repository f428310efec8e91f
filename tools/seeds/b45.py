property = "T02"
edits = [("ecl_threads/include/ecl/threads/thread_pos.hpp", "\ttypename F::type &function;", "\ttypename F::type function;")]
needs = "a thread started on a reference to a function object whose state is looked at afterwards"
breaks = "the thread runs a copy of the object instead of the object referred to"
demo = r'''
#include <cstdio>
#include <ecl/threads/thread.hpp>
#include <ecl/utilities/references.hpp>
struct F { typedef void result_type; int n; F() : n(0) {} void operator()() { ++n; } };
int main() {
  F f; ecl::Thread t(ecl::ref(f)); t.join();
  if (f.n != 1) { printf("%d\n", f.n); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_time/src/lib/timestamp_base.cpp", "ecl_time/src/lib/timestamp_pos.cpp", "ecl_threads/src/lib/*.cpp"]
