property = "C02"
edits = [("ecl_containers/include/ecl/containers/push_and_pop/push_and_pop_dynamic.hpp", "      follower++;\n      follower %= size_fifo;", "      ++follower;")]
needs = "an overflow that pushes the oldest index past the storage's last slot, then a pop"
breaks = "the follower leaves the storage: pops read past it and later overflows are not noticed"
demo = '''
#include <cstdio>
#include <ecl/containers/push_and_pop.hpp>
int main() {
  for (int cap = 1; cap < 5; ++cap) {
    ecl::PushAndPop<int> q(cap);
    int in = 0, out = 0;
    for (int k = 0; k < 40; ++k) {
      q.push_back(in++); if (k % 3 != 0) q.push_back(in++); if (in - out > cap) out = in - cap;
      if (q[0] != out) { printf("cap %d: oldest is %d not %d\\n", cap, q[0], out); return 1; }
      int v = q.pop_front();
      if (v != out++) { printf("cap %d: popped %d\\n", cap, v); return 1; }
    }
  }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp"]
