property = "K01"
edits = [("ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp", "CumulativeStatistics(): number_of_data(0.0) {}", "CumulativeStatistics(): number_of_data(0.0), old_variance(0.0) {}"), ("ecl_statistics/include/ecl/statistics/cumulative_statistics.hpp", "      old_variance = 0.0;\n", "")]
needs = "statistics cleared and filled again"
breaks = "the variance of the data before clear() is carried on"
demo = r'''
#include <cstdio>
#include <ecl/statistics/cumulative_statistics.hpp>
int main() {
  ecl::CumulativeStatistics<double> s; s.push_back(1); s.push_back(5); s.push_back(9);
  if (s.variance() != 16) { printf("%f\n", s.variance()); return 1; }
  s.clear(); s.push_back(5); s.push_back(7); printf("%f\n", s.variance());
  return s.variance() == 2 ? 0 : 1;
}
'''
