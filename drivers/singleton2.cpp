#include "singleton.hpp"
int *other_tu(int t) { switch (t) { case 1: return &ecl::Singleton<Thing<1> >::instance().v; case 2: return &Thing<2>::instance().v; default: return &ecl::Singleton<Thing<3> >::instance().v; } }
