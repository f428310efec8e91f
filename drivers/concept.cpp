// Types made up on demand, put to the concept checks of ecl_concepts: does the compiler take them?
// A feature is a name, then "~" for one that answers with the wrong kind of thing, "-" for one that is not public.
#include "drv.hpp"
#include <fstream>
#include <sys/wait.h>
void drv_reset() {}
static std::string member(const std::string &f0) {
  std::string f = f0, m; char end = f.back(); if (end == '~' || end == '-') f.pop_back(); else end = ' ';
  auto fn = [&](const std::string &ret, const std::string &rest) { return (end == '~' ? (ret == "void" ? "long " : "void ") : ret + " ") + rest + ";"; };
  size_t at = f.find(':'); std::string k = at == std::string::npos ? "" : f.substr(at + 1), n = f.substr(0, at), ch = k == "s" ? "signed char" : k == "u" ? "unsigned char" : "char";
  if (f == "iterator") m = "typedef int *iterator;"; else if (f == "begin" || f == "end") m = fn("int*", f + "()"); else if (f == "size") m = fn("unsigned int", "size()"); else if (f == "resize") m = fn("void", "resize(unsigned int)");
  else if (n == "value") m = "typedef " + std::string(k == "signed" ? "signed char" : k == "unsigned" ? "unsigned char" : k) + " value_type;";
  else if (f == "open" || f == "isOpen") m = fn("bool", f + "()"); else if (n == "read") m = fn("long", "read(" + ch + " &)"); else if (n == "readn") m = fn("long", "read(" + ch + " *, unsigned long)");
  else if (n == "write") m = "template <class B, typename std::enable_if<std::is_same<B, " + ch + ">::value, int>::type = 0> " + fn("long", "write(const B &)"); else if (n == "writen") m = fn("long", "write(const " + ch + " *, unsigned long)");
  else if (f == "flush") m = fn("void", "flush()"); else if (f == "put") m = fn("void", "operator<<(char)"); else if (f == "result") m = "typedef int result_type;"; else if (f == "call") m = fn("int", "operator()()");
  else if (f == "base") m = "typedef int base_type;"; else if (f == "instantiate") m = fn("int", "instantiate()"); else if (f == "apply") m = fn("void", "apply(int &)"); else if (f == "go") m = fn("void", "go()"); else m = "#error\n";
  return std::string(end == '-' ? " private: " : " public: ") + m + "\n";
}
std::string drv_do(const Cmd &c) {
  if (c.op != "check") return "?";
  static int n = 0; std::string name = "t" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".cpp", con = c.s(0); int where = c.i(1);
  { std::ofstream o(name);
    o << "#include <type_traits>\n#include <ecl/concepts/containers.hpp>\n#include <ecl/concepts/devices.hpp>\n#include <ecl/concepts/streams.hpp>\n#include <ecl/concepts/blueprints.hpp>\n#include <ecl/concepts/nullary_function.hpp>\n#include <ecl/concepts/macros.hpp>\n";
    o << "template <class T> class Own { public: ecl_compile_time_concept_test(Own) { t.go(); } private: T t; };\nclass T {\n"; for (auto &f : c.strs(2)) o << member(f); o << "};\n";
    std::string chk = "ecl_compile_time_concept_check(" + std::string(con == "Own" ? "Own" : "ecl::" + con + "Concept") + "<T>);";
    // in a function, a class, a class template, a function template, at the top
    if (where == 0) o << "void f() { " << chk << " }\n"; else if (where == 1) o << "class C { " << chk << " };\n"; else if (where == 2) { size_t p = chk.rfind("<T>"); chk.replace(p, 3, "<X>"); o << "template <class X> class C { public: C() {} " << chk << " };\nC<T> c;\n"; }
    else if (where == 3) { size_t p = chk.rfind("<T>"); chk.replace(p, 3, "<X>"); o << "template <class X> void f(X *) { " << chk << " }\nvoid g() { f((T *)0); }\n"; } else if (where == 4) o << chk << "\n"; else o << "#error\n";
  }
  int r = system((std::string(getenv("VERIF_CXX")) + " " + name + " >/dev/null 2>&1").c_str()); unlink(name.c_str());
  return !WIFEXITED(r) ? "!compiler" : WEXITSTATUS(r) == 0 ? "accepts" : "rejects";
}
