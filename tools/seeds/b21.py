property = "M02"
edits = [("ecl_time/src/lib/snooze_pos.cpp", """        	// Revalidate
            time_value.tv_sec = time_current.tv_sec;
            time_value.tv_nsec = time_current.tv_nsec;
            add_period();
        }
    }
}""", """        	// Revalidate
            time_value.tv_sec = time_current.tv_sec;
            time_value.tv_nsec = time_current.tv_nsec;
        }
    }
}""")]
needs = "a snooze whose wakeup was missed within the same second"
breaks = "a late snooze returns at once instead of a period after the present"
demo = r'''
#include <cstdio>
#include <time.h>
#include <ecl/time/snooze.hpp>
#include <ecl/time/timestamp.hpp>
static long now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000L + t.tv_nsec; }
int main() {
  for (int i = 0; i < 6; ++i) {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    long left = 1000000000L - t.tv_nsec; if (left < 500000000L) { timespec w = {0, left + 1000000}; nanosleep(&w, 0); }
    ecl::Snooze z(ecl::Duration(0, 100000000), true); z.initialise();
    timespec late = {0, 250000000}; nanosleep(&late, 0);
    long a = now(); z(); long d = now() - a;
    if (d < 90000000L) { printf("slept %ld\n", d); return 1; }
  }
  return 0;
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp", "ecl_time/src/lib/*.cpp"]
