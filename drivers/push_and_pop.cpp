#include "drv.hpp"
#include <ecl/containers/push_and_pop.hpp>
#include <ecl/exceptions/standard_exception.hpp>
template <class T> struct Conv; 
template <> struct Conv<int> { static int to(long v) { return (int)v; } static std::string from(const int &v) { return std::to_string(v); } };
template <> struct Conv<std::string> { static std::string to(long v) { return "value-with-some-length-" + std::to_string(v); }
  static std::string from(const std::string &s) { return s.size() < 23 ? "bad" : s.substr(23); } };
struct Base { virtual ~Base() {} virtual void push(long) = 0; virtual std::string pop() = 0; virtual void fill(long) = 0; virtual void clear() = 0;
  virtual std::string at(int) = 0; virtual std::string cat(int) const = 0; virtual void put(int, long) = 0; virtual unsigned asize() = 0; virtual unsigned size() const = 0;
  virtual void resize(unsigned) {} virtual void copy(Base *) = 0; };
template <class P, class T> struct Impl : Base {
  P p; typedef Conv<T> C;
  template <class... A> Impl(const A &... a) : p(a...) {}
  void push(long v) override { p.push_back(C::to(v)); }
  std::string pop() override { return C::from(p.pop_front()); }
  void fill(long v) override { p.fill(C::to(v)); }
  void clear() override { p.clear(); }
  std::string at(int i) override { return C::from(p[i]); }
  std::string cat(int i) const override { return C::from(p[i]); }
  void put(int i, long v) override { p[i] = C::to(v); }
  unsigned asize() override { return p.asize(); }
  unsigned size() const override { return p.size(); }
  void copy(Base *o) override { p(static_cast<Impl *>(o)->p); }
};
template <class T> struct Dyn : Impl<ecl::PushAndPop<T>, T> { using Impl<ecl::PushAndPop<T>, T>::Impl; void resize(unsigned n) override { this->p.resize(n); }
  void copy(Base *o) override { this->p(static_cast<Dyn *>(o)->p); } };
template <class T, int N> Base *fixed(long v) { typedef Impl<ecl::PushAndPop<T, N>, T> I; return v < 0 ? new I() : new I(Conv<T>::to(v)); }
template <class T> Base *make(const std::string &kind, long cap, long v) {
  if (kind[0] == 'd') return v < 0 ? new Dyn<T>((unsigned)cap) : new Dyn<T>((unsigned)cap, Conv<T>::to(v));
  switch (cap) { case 1: return fixed<T, 1>(v); case 2: return fixed<T, 2>(v); case 3: return fixed<T, 3>(v); case 4: return fixed<T, 4>(v); case 7: return fixed<T, 7>(v); case 16: return fixed<T, 16>(v); }
  return 0;
}
static std::unique_ptr<Base> obj[2];
void drv_reset() { obj[0].reset(); obj[1].reset(); }
std::string drv_do(const Cmd &c) {
  auto &o = obj[c.a[0] == "b"]; std::string r = "ok";
  try {
    if (c.op == "new") { const std::string &k = c.a[1]; o.reset(k[1] == 's' ? make<std::string>(k, c.i(2), c.i(3)) : make<int>(k, c.i(2), c.i(3))); }
    else if (c.op == "push") o->push(c.i(1));
    else if (c.op == "pop") r = o->pop();
    else if (c.op == "fill") o->fill(c.i(1));
    else if (c.op == "clear") o->clear();
    else if (c.op == "at" || c.op == "raw") { r = o->at(c.i(1)); if (r != o->cat(c.i(1))) r += "!const"; }
    else if (c.op == "put") o->put(c.i(1), c.i(2));
    else if (c.op == "asize") r = std::to_string(o->asize());
    else if (c.op == "resize") o->resize(c.i(1));
    else if (c.op == "copy") o->copy(obj[c.a[1] == "b"].get());
    else r = "?";
  } catch (ecl::StandardException &e) { r = e.flag() == ecl::OutOfRangeError ? "throw:OutOfRange" : "throw:other"; }
  r += ";n=" + std::to_string(o->size()) + ";";
  for (unsigned i = 0; i < o->size() && i < 1000; ++i) r += (i ? "," : "") + o->cat(i);
  return r;
}
