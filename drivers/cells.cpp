#include "drv.hpp"
#include <memory>
#include <ecl/utilities/parameter.hpp>
#include <ecl/utilities/references.hpp>
// a type with an overloaded address operator and deep state, so that copies and aliases differ
struct Big { std::string s; Big() : s("0") {} Big(long v) : s(std::to_string(v)) {} long get() const { return atol(s.c_str()); } Big *operator&() { return 0; } const Big *operator&() const { return 0; } };
inline long num(const Big &b) { return b.get(); } inline long num(int v) { return v; } inline long num(double v) { return (long)v; }
inline void bump(int &v) { ++v; } inline void bump(Big &b) { b.s = std::to_string(b.get() + 1); } inline void bump(double &v) { v += 1; }
typedef VT T;
template <class X> X *ad(X &x) { return std::addressof(x); }
static T x[4]; static std::unique_ptr<ecl::Parameter<T> > p[3]; static std::unique_ptr<ecl::ReferenceWrapper<T> > r[3];
void drv_reset() { for (auto &v : x) v = T(0); for (int i = 1; i < 3; ++i) { p[i].reset(new ecl::Parameter<T>(T(0))); r[i].reset(); } }
static void pass(T &t) { bump(t); }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; std::string a = "ok"; int i = c.i(0);
  if (o == "var") x[i] = T(c.i(1));
  else if (o == "pset") *p[i] = x[c.i(1)];
  else if (o == "pcall") (*p[i])(x[c.i(1)]);
  else if (o == "pctor") p[i].reset(new ecl::Parameter<T>(x[c.i(1)]));
  else if (o == "pdef") p[i].reset(new ecl::Parameter<T>());
  else if (o == "pcopy") { ecl::Parameter<T> q(*p[c.i(1)]); *p[i] = q; }
  else if (o == "pget") { const ecl::Parameter<T> &q = *p[i]; const T &t = q; a = std::to_string(num(q())); if (num(t) != num(q()) || ad(t) != ad(q())) a += "!conv"; }
  else if (o == "pconv") x[c.i(1)] = *p[i];
  else if (o == "ref") { if (i == 1) r[i].reset(new ecl::ReferenceWrapper<T>(ecl::ref(x[c.i(1)]))); else r[i].reset(new ecl::ReferenceWrapper<T>(x[c.i(1)])); }
  else if (o == "rcopy") { ecl::ReferenceWrapper<T> q(*r[c.i(1)]); r[i].reset(new ecl::ReferenceWrapper<T>(q)); }
  else if (o == "rget") { T &t = *r[i]; a = std::to_string(num(t)); if (ad(t) != ad(r[i]->reference()) || ad(t) != r[i]->pointer()) a += "!alias"; }
  else if (o == "rset") r[i]->reference() = T(c.i(1));
  else if (o == "rpset") *(r[i]->pointer()) = T(c.i(1));
  else if (o == "rpass") pass(*r[i]);
  else if (o == "raddr") { a = "none"; for (int j = 1; j < 4; ++j) if (ad(r[i]->reference()) == ad(x[j])) a = std::to_string(j); }
  else if (o == "cref") { a = std::to_string(num(ecl::cref(x[c.i(1)]).reference())); if (ad(ecl::cref(x[c.i(1)]).reference()) != ad(x[c.i(1)])) a += "!alias"; }
  else if (o == "traits") { a = ""; a += ecl::is_reference_wrapper<T>::value ? "1" : "0"; a += ecl::is_reference_wrapper<ecl::ReferenceWrapper<T> >::value ? "1" : "0"; a += ecl::is_reference_wrapper<ecl::ReferenceWrapper<const T> >::value ? "1" : "0"; a += ecl::is_reference_wrapper<T *>::value ? "1" : "0"; }
  else return "?";
  a += ";" + std::to_string(num(x[1])) + "," + std::to_string(num(x[2])) + "," + std::to_string(num(x[3])) + ";" + std::to_string(num((*p[1])())) + "," + std::to_string(num((*p[2])()));
  return a;
}
