#include "drv.hpp"
#include <ecl/utilities/function_objects.hpp>
using namespace ecl;
static long g, fsv; static int calls;
static int mix(long &x, long a) { x = (x * 3 + a) % 1000003; ++calls; return (int)x; }
static int nf() { return mix(g, 1); } static void nfv() { mix(g, 1); }
static int uf(int a) { return mix(g, a); } static void ufv(int a) { mix(g, a); }
struct K { long s; K() : s(0) {} int n() { return mix(s, 1); } void nv() { mix(s, 1); } int u(int a) { return mix(s, a); } void uv(int a) { mix(s, a); } int b(int x, int y) { return mix(s, 10 * x + y); } void bv(int x, int y) { mix(s, 10 * x + y); } };
static K m[3];
struct Fn { typedef int result_type; long s; Fn() : s(0) {} int operator()() { return mix(s, 1); } int operator()(int a) { return mix(s, a); } };
struct FnV { typedef void result_type; long s; FnV() : s(0) {} void operator()() { mix(s, 1); } void operator()(int a) { mix(s, a); } };
static Fn fn; static FnV fnv;
// the functor state is one number in the specification: keep both in step
static void syncf() { fn.s = fnv.s = fsv; }
struct Slot { virtual ~Slot() {} virtual std::string call(int o, int a, int b) = 0; };
static std::string S(int v) { return std::to_string(v); }
template <class F> struct N0 : Slot { F f; N0(const F &x) : f(x) {} std::string call(int, int, int) override { return S(f()); } };
template <class F> struct N0v : Slot { F f; N0v(const F &x) : f(x) {} std::string call(int, int, int) override { f(); return "void"; } };
template <class F> struct N1 : Slot { F f; N1(const F &x) : f(x) {} std::string call(int, int a, int) override { return S(f(a)); } };
template <class F> struct N1v : Slot { F f; N1v(const F &x) : f(x) {} std::string call(int, int a, int) override { f(a); return "void"; } };
template <class F> struct M0 : Slot { F f; M0(const F &x) : f(x) {} std::string call(int o, int, int) override { return S(f(m[o])); } };
template <class F> struct M0v : Slot { F f; M0v(const F &x) : f(x) {} std::string call(int o, int, int) override { f(m[o]); return "void"; } };
template <class F> struct M1 : Slot { F f; M1(const F &x) : f(x) {} std::string call(int o, int a, int) override { return S(f(m[o], a)); } };
template <class F> struct M1v : Slot { F f; M1v(const F &x) : f(x) {} std::string call(int o, int a, int) override { f(m[o], a); return "void"; } };
template <class F> struct N2 : Slot { F f; N2(const F &x) : f(x) {} std::string call(int, int a, int b) override { return S(f(a, b)); } };
template <class F> struct N2v : Slot { F f; N2v(const F &x) : f(x) {} std::string call(int, int a, int b) override { f(a, b); return "void"; } };
// call through the abstract interface as well
template <class F> struct P0 : Slot { F f; NullaryFunction<typename F::result_type> *p; P0(const F &x) : f(x), p(&f) {} std::string call(int, int, int) override { return S((*p)()); } };
template <template <class> class W, class F> Slot *mk(const F &f) { return new W<F>(f); }
static std::unique_ptr<Slot> slot[3];
void drv_reset() { g = fsv = 0; m[1] = m[2] = K(); fn = Fn(); fnv = FnV(); slot[1].reset(); slot[2].reset(); }
static bool gen;
static Slot *make(const std::string &k, int o, int a) {
  gen = !gen; // alternate between direct construction and generateFunctionObject
  int var = a; const int cvar = a; Slot *r = 0;
  if (k == "nf") r = gen ? mk<P0>(generateFunctionObject(nf)) : mk<P0>(NullaryFreeFunction<int>(nf));
  else if (k == "nfv") r = gen ? mk<N0v>(generateFunctionObject(nfv)) : mk<N0v>(NullaryFreeFunction<void>(nfv));
  else if (k == "uf") r = gen ? mk<N1>(generateFunctionObject(uf)) : mk<N1>(UnaryFreeFunction<int, int>(uf));
  else if (k == "ufv") r = gen ? mk<N1v>(generateFunctionObject(ufv)) : mk<N1v>(UnaryFreeFunction<int>(ufv));
  else if (k == "buf") r = gen ? mk<P0>(generateFunctionObject(uf, var)) : mk<P0>(BoundUnaryFreeFunction<int, int>(uf, var));
  else if (k == "bufv") r = gen ? mk<N0v>(generateFunctionObject(ufv, cvar)) : mk<N0v>(BoundUnaryFreeFunction<int>(ufv, var));
  else if (k == "nm") r = gen ? mk<M0>(generateFunctionObject(&K::n)) : mk<M0>(NullaryMemberFunction<K, int>(&K::n));
  else if (k == "nmv") r = gen ? mk<M0v>(generateFunctionObject(&K::nv)) : mk<M0v>(NullaryMemberFunction<K>(&K::nv));
  else if (k == "um") r = gen ? mk<M1>(generateFunctionObject(&K::u)) : mk<M1>(UnaryMemberFunction<K, int, int>(&K::u));
  else if (k == "umv") r = gen ? mk<M1v>(generateFunctionObject(&K::uv)) : mk<M1v>(UnaryMemberFunction<K, int>(&K::uv));
  else if (k == "bnm") r = gen ? mk<P0>(generateFunctionObject(&K::n, m[o])) : mk<P0>(BoundNullaryMemberFunction<K, int>(&K::n, m[o]));
  else if (k == "bnmv") r = gen ? mk<N0v>(generateFunctionObject(&K::nv, m[o])) : mk<N0v>(BoundNullaryMemberFunction<K>(&K::nv, m[o]));
  else if (k == "pbu") r = gen ? mk<N1>(generateFunctionObject(&K::u, m[o])) : mk<N1>(PartiallyBoundUnaryMemberFunction<K, int, int>(&K::u, m[o]));
  else if (k == "pbuv") r = gen ? mk<N1v>(generateFunctionObject(&K::uv, m[o])) : mk<N1v>(PartiallyBoundUnaryMemberFunction<K, int>(&K::uv, m[o]));
  else if (k == "bum") r = gen ? mk<P0>(generateFunctionObject(&K::u, m[o], var)) : mk<P0>(BoundUnaryMemberFunction<K, int, int>(&K::u, m[o], var));
  else if (k == "bumv") r = gen ? mk<N0v>(generateFunctionObject(&K::uv, m[o], cvar)) : mk<N0v>(BoundUnaryMemberFunction<K, int>(&K::uv, m[o], var));
  else if (k == "pbb") r = mk<N2>(PartiallyBoundBinaryMemberFunction<K, int, int, int>(&K::b, m[o]));
  else if (k == "pbbv") r = mk<N2v>(PartiallyBoundBinaryMemberFunction<K, int, int>(&K::bv, m[o]));
  else if (k == "ncopy") r = mk<P0>(NullaryFunctionCopy<Fn, int>(fn));
  else if (k == "ncopyv") r = mk<N0v>(NullaryFunctionCopy<FnV, void>(fnv));
  else if (k == "nref") r = mk<P0>(NullaryFunctionReference<Fn, int>(ref(fn)));
  else if (k == "nrefv") r = mk<N0v>(NullaryFunctionReference<FnV, void>(ref(fnv)));
  else if (k == "ucopy") r = mk<N1>(UnaryFunctionCopy<Fn, int, int>(fn));
  else if (k == "ucopyv") r = mk<N1v>(UnaryFunctionCopy<FnV, int, void>(fnv));
  else if (k == "uref") r = mk<N1>(UnaryFunctionReference<Fn, int, int>(ref(fn)));
  else if (k == "urefv") r = mk<N1v>(UnaryFunctionReference<ReferenceWrapper<FnV>, int, void>(ref(fnv)));
  var = -77; // a captured argument is a copy
  return r;
}
std::string drv_do(const Cmd &c) {
  std::string r = "ok";
  if (c.op == "make") slot[c.i(0)].reset(make(c.a[1], c.i(2), c.i(3)));
  else if (c.op == "setg") g = c.i(0);
  else if (c.op == "setm") m[c.i(0)].s = c.i(1);
  else if (c.op == "setf") { fsv = c.i(0); syncf(); }
  else if (c.op == "call") { calls = 0; long f0 = fn.s, v0 = fnv.s; r = slot[c.i(0)]->call(c.i(1), c.i(2), c.i(3)); if (calls != 1) r += "!calls=" + std::to_string(calls);
    if (fn.s != f0) fsv = fn.s; else if (fnv.s != v0) fsv = fnv.s; syncf(); }
  return r + ";" + std::to_string(g) + ";" + std::to_string(m[1].s) + "," + std::to_string(m[2].s) + ";" + std::to_string(fsv);
}
