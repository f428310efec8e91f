#include <atomic>
#include <unistd.h>
#include <ecl/utilities/singleton.hpp>
template <int N> struct Thing : public ecl::Singleton<Thing<N> > { static std::atomic<int> made; int v; Thing() { usleep(2000); v = 7; ++made; } };
int *other_tu(int t);
