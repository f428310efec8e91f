// Traits of bytes, devices and references; limits of floating point types; the metaprogramming helpers.
#include "drv.hpp"
#include <cstring>
#include <cmath>
#include <ecl/type_traits.hpp>
#include <ecl/mpl.hpp>
#include <ecl/utilities.hpp>
#include <ecl/devices.hpp>
#include <ecl/devices/console.hpp>
#include <ecl/devices/shared_file.hpp>
using namespace ecl;
void drv_reset() {}
struct Any {}; enum En { one };
template <class T> static const char *name() { return std::is_same<T, unsigned char>::value ? "uchar" : std::is_same<T, unsigned short>::value ? "ushort" : std::is_same<T, unsigned int>::value ? "uint" : std::is_same<T, unsigned long>::value ? "ulong" : std::is_same<T, unsigned long long>::value ? "ullong" : std::is_same<T, float>::value ? "float" : std::is_same<T, void>::value ? "void" : std::is_same<T, char>::value ? "char" : "!other"; }
template <class T> std::string by() { return std::string(is_byte<T>::value ? "1" : "0") + (is_signed_byte<T>::value ? "1" : "0") + (is_unsigned_byte<T>::value ? "1" : "0"); }
template <class T> std::string dev() { return std::string(is_sink<T>::value ? "1" : "0") + (is_source<T>::value ? "1" : "0") + (is_sourcesink<T>::value ? "1" : "0") + (is_seekable<T>::value ? "1" : "0"); }
template <class T> std::string fl() { typedef ecl::numeric_limits<T> L; T mn = L::minimum, mx = L::maximum; unsigned b = L::bytes, i = L::bits; return std::to_string(b) + "," + std::to_string(i) + "," + (mx == std::numeric_limits<T>::max() ? "max" : "!") + "," + (mn == -std::numeric_limits<T>::max() ? "min" : "!") + "," + std::to_string(std::lround(-std::log10((double)L::dummy_precision) * 10)) + "," + (std::is_same<typename L::Precision, T>::value ? "own" : "!"); }
template <class T> std::string pr() { typedef ecl::numeric_limits<T> L; double p = L::dummy_precision; return (p == 0 ? "0" : std::to_string(std::lround(-std::log10(p) * 10))) + (std::is_same<typename L::Precision, float>::value ? ",float" : "!"); }
template <class T, class = void> struct has { enum { v = 0 }; };
template <class T> struct has<T, typename std::conditional<true, void, typename T::type>::type> { enum { v = 1 }; };
struct Out { std::string s; template <class T> Out &operator<<(const T &) { s += "!"; return *this; } };
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op, &n = c.a[0];
#define E(N, T) if (n == N) return f<T>();
#define EACH(F) { if (n == "char") return F<char>(); if (n == "uchar") return F<unsigned char>(); if (n == "short") return F<short>(); if (n == "ushort") return F<unsigned short>(); if (n == "int") return F<int>(); if (n == "uint") return F<unsigned int>(); if (n == "long") return F<long>(); if (n == "ulong") return F<unsigned long>(); if (n == "llong") return F<long long>(); if (n == "ullong") return F<unsigned long long>(); }
#define MORE(F) { if (n == "bool") return F<bool>(); if (n == "wchar") return F<wchar_t>(); if (n == "float") return F<float>(); if (n == "char*") return F<char *>(); if (n == "class") return F<Any>(); if (n == "enum") return F<En>(); if (n == "string") return F<std::string>(); }
  if (o == "bytes") { if (n == "schar") return by<signed char>(); EACH(by) MORE(by) }
  if (o == "float") { if (n == "float") return fl<float>(); if (n == "double") return fl<double>(); if (n == "ldouble") return fl<long double>(); }
  if (o == "precision") { EACH(pr) }
  if (o == "device") { if (n == "String") return dev<String>(); if (n == "OFile") return dev<OFile>(); if (n == "SharedFile") return dev<SharedFile>(); if (n == "OConsole") return dev<OConsole>(); if (n == "EConsole") return dev<EConsole>(); if (n == "IConsole") return dev<IConsole>(); if (n == "Serial") return dev<Serial>();
    if (n == "SocketClient") return dev<SocketClient>(); if (n == "SocketServer") return dev<SocketServer>(); MORE(dev) if (n == "int") return dev<int>(); }
  if (o == "unsigned") {
#define U(N, T) if (n == N) return name<typename Unsigned<T>::type>();
    U("char", char) U("uchar", unsigned char) U("short", short) U("ushort", unsigned short) U("int", int) U("uint", unsigned int) U("long", long) U("ulong", unsigned long) U("llong", long long) U("ullong", unsigned long long)
    if (n == "float") return has<Unsigned<float>>::v ? "!has" : "none"; if (n == "class") return has<Unsigned<Any>>::v ? "!has" : "none"; if (n == "bool") return has<Unsigned<bool>>::v ? "!has" : "none"; if (n == "char*") return has<Unsigned<char *>>::v ? "!has" : "none"; }
  if (o == "if") return n == "1" ? name<typename if_c<true, char, float>::type>() : name<typename if_c<false, char, float>::type>();
  if (o == "enable") { if (n == "1") return std::string(name<typename enable_if<True>::type>()) + "," + name<typename enable_if<True, float>::type>() + "," + name<typename enable_if_c<true>::type>() + "," + name<typename enable_if_c<true, char>::type>();
    return std::string(has<enable_if<False>>::v ? "!" : "none") + "," + (has<enable_if<False, float>>::v ? "!" : "none") + "," + (has<enable_if_c<false>>::v ? "!" : "none") + "," + (has<enable_if_c<false, char>>::v ? "!" : "none"); }
  if (o == "bool") { True t; False f; bool a = t, b = f; bool v = n == "1" ? True::value : False::value; bool w = n == "1" ? a : b; bool same = n == "1" ? std::is_same<True, Bool<true>::type>::value : std::is_same<False, Bool<false>::type>::value; return std::string(v ? "1" : "0") + (w ? "1" : "0") + (same && std::is_same<True::value_type, bool>::value ? "1" : "0"); }
  if (o == "failed") return std::is_default_constructible<FailedObject>::value ? "constructs" : "cannot";
  if (o == "void") { Out x; Void v; x << v; return "nothing" + x.s; }
  if (o == "sizes") { char b[64]; snprintf(b, 64, "%zu,%zu,%zu,%zu,%zu,%zu,%zu,%zu,%zu,%zu", sizeof(int8), sizeof(int16), sizeof(int32), sizeof(int64), sizeof(uint8), sizeof(uint16), sizeof(uint32), sizeof(uint64), sizeof(float32), sizeof(float64)); return b; }
  return "?";
}
