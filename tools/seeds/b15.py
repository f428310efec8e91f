property = "S01"
edits = [("ecl_sigslots/include/ecl/sigslots/topic.hpp", "			topic_publishers.erase(iter);\n", "			topic_publishers.erase(iter);\n			return;\n")]
needs = "a node that publishes to and listens on one topic and is disconnected, and another one that emits there"
breaks = "the node disconnected still runs"
demo = r'''
#include <cstdio>
#include <cstdlib>
#include <ecl/sigslots.hpp>
static int n = 0;
static void f(int) { ++n; }
int main() {
  ecl::SigSlot<int> s(f); ecl::Signal<int> e("a"); ecl::Slot<int> other(f);
  s.connectSlot("a"); e.emit(1); if (n != 1) return 2;
  s.disconnect(); e.emit(1); if (n != 1) return 3;
  s.connectSignal("a"); s.connectSlot("a"); e.emit(1); if (n != 2) return 4;
  s.disconnect("a"); e.emit(1); printf("%d\n", n);
  fflush(stdout); _Exit(n == 2 ? 0 : 1);
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp"]
