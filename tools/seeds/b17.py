property = "V02"
edits = [("ecl_converters/include/ecl/converters/integers.hpp", "if ( !( stream >> i ) || (stream.get(c))) {", "if ( !( stream >> i ) || ( stream.get(c) && ( c != '.' ) ) ) {")]
needs = "text with a decimal number in it converted to an int"
breaks = "only the digits in front of the point are converted, without an error"
demo = r'''
#include <cstdio>
#include <string>
#include <ecl/converters/integers.hpp>
int main() {
  ecl::Converter<int, std::string> k;
  if (k("12") != 12 || k("-3") != -3) return 2;
  try { k("12x"); return 3; } catch (const ecl::StandardException &) {}
  try { k("12.9"); return 1; } catch (const ecl::StandardException &e) { return e.flag() == ecl::ConversionError ? 0 : 4; }
}
'''
srcs = ["ecl_exceptions/src/lib/*.cpp"]
