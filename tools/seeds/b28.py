property = "C03"
edits = [("ecl_containers/include/ecl/containers/fifo.hpp", """	const T & operator[] (int idx) const {
		return data[ ((running_index+idx)%size_fifo) ];""", """	const T & operator[] (int idx) const {
		return data[ ((running_index+idx) < size_fifo) ? (running_index+idx) : idx ];""")]
needs = "a fifo read through a const reference after pushes have moved its window"
breaks = "reads past the buffer's end come from the wrong place"
demo = r'''
#include <cstdio>
#include <ecl/containers/fifo.hpp>
int main() {
  ecl::FiFo<int> f(4, 0); const ecl::FiFo<int> &g = f;
  for (int i = 1; i <= 6; ++i) f.push_back(i);
  for (int i = 0; i < 4; ++i) if (g[i] != 3 + i || f[i] != 3 + i) { printf("%d %d\n", i, g[i]); return 1; }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp"]
