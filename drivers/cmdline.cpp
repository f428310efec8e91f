#define DRV_FORK
#include <fcntl.h>
#include <cstring>
#include "drv.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <ecl/command_line.hpp>
#include <ecl/command_line/docbook_output.hpp>
using namespace ecl;
template <class T> std::string show(const T &v) { std::ostringstream o; o << v; return o.str(); }
std::string show(double v) { char b[64]; snprintf(b, sizeof b, "%.10g", v); return b; }
template <class T> T read(const std::string &v) { std::istringstream i(v); T t; i >> t; return t; }
template <> std::string read<std::string>(const std::string &v) { return v; }
struct Held { std::shared_ptr<Arg> a; std::function<std::string()> get; };
static std::unique_ptr<CmdLine> cmd; static std::string prog; static std::vector<Held> held;
static std::vector<std::string> before; static std::unique_ptr<CmdLine> other; static std::shared_ptr<Arg> otherArg;
void drv_reset() { other.reset(); otherArg.reset(); before.clear(); cmd.reset(); held.clear(); }
template <class T> std::string multi(const std::vector<T> &v) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + show(v[i]); return r; }
static std::vector<std::shared_ptr<void>> keep;
template <class T> Held make(const std::string &k, const std::string &fl, const std::string &nm, const std::string &ds, bool req, const std::string &df, const std::string &td, const std::vector<std::string> &allow, bool now) {
  ValuesConstraint<T> *con = 0;
  if (!allow.empty()) { std::vector<T> v; for (auto &x : allow) v.push_back(read<T>(x)); auto p = std::make_shared<ValuesConstraint<T>>(v); keep.push_back(p); con = p.get(); }
  if (k == "value") {
    T d = read<T>(df); ValueArg<T> *a;
    if (con) a = now ? new ValueArg<T>(fl, nm, ds, req, d, con, *cmd) : new ValueArg<T>(fl, nm, ds, req, d, con);
    else a = now ? new ValueArg<T>(fl, nm, ds, req, d, td, *cmd) : new ValueArg<T>(fl, nm, ds, req, d, td);
    return Held{std::shared_ptr<Arg>(a), [a] { return show(a->getValue()); }};
  }
  if (k == "uval") {
    T d = read<T>(df); UnlabeledValueArg<T> *a;
    if (con) a = now ? new UnlabeledValueArg<T>(nm, ds, req, d, con, *cmd) : new UnlabeledValueArg<T>(nm, ds, req, d, con);
    else a = now ? new UnlabeledValueArg<T>(nm, ds, req, d, td, *cmd) : new UnlabeledValueArg<T>(nm, ds, req, d, td);
    return Held{std::shared_ptr<Arg>(a), [a] { return show(a->getValue()); }};
  }
  if (k == "multi") {
    MultiArg<T> *a;
    if (con) a = now ? new MultiArg<T>(fl, nm, ds, req, con, *cmd) : new MultiArg<T>(fl, nm, ds, req, con);
    else a = now ? new MultiArg<T>(fl, nm, ds, req, td, *cmd) : new MultiArg<T>(fl, nm, ds, req, td);
    return Held{std::shared_ptr<Arg>(a), [a] { return multi(a->getValue()); }};
  }
  UnlabeledMultiArg<T> *a;
  if (con) a = now ? new UnlabeledMultiArg<T>(nm, ds, req, con, *cmd) : new UnlabeledMultiArg<T>(nm, ds, req, con);
  else a = now ? new UnlabeledMultiArg<T>(nm, ds, req, td, *cmd) : new UnlabeledMultiArg<T>(nm, ds, req, td);
  return Held{std::shared_ptr<Arg>(a), [a] { return multi(a->getValue()); }};
}
static DocBookOutput doc;
static std::string bar(std::string s) { for (auto &ch : s) if (ch == '\n') ch = '|'; else if (ch == '\t') ch = ' '; return s; }
static std::string parse(bool full, std::vector<std::string> toks) {
  int out = memfd_create("o", 0), err = memfd_create("e", 0), res = memfd_create("r", 0);
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    dup2(out, 1); dup2(err, 2);
    if (!before.empty()) { // another command line of the same process
      CmdLine o("other", before[0][0]); SwitchArg a("a", "alpha", "one", o);
      std::vector<char *> av; av.push_back(strdup("other")); for (size_t i = 1; i < before.size(); ++i) av.push_back(strdup(before[i].c_str()));
      int n = (int)av.size(); av.push_back(0); o.parse(n, av.data());
    }
    toks.insert(toks.begin(), prog);
    std::vector<char *> av; for (auto &t : toks) av.push_back(strdup(t.c_str()));
    av.push_back(0);
    std::string r = "ok;";
    try { cmd->parse((int)toks.size(), av.data()); } catch (...) { r = "escaped;"; }
    for (size_t i = 0; i < held.size(); ++i) r += (i ? ";" : "") + held[i].a->getName() + "=" + held[i].get() + (held[i].a->isSet() ? "+" : "-");
    std::cout.flush();
    if (write(res, r.data(), r.size()) < 0) _exit(7);
    _exit(77);
  }
  int st = 0; waitpid(p, &st, 0);
  auto slurp = [](int fd) { std::string s; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; };
  std::string o = slurp(out), e = slurp(err), r = slurp(res);
  if (!WIFEXITED(st)) { fprintf(stderr, "%s", e.c_str()); _exit(98); }
  int x = WEXITSTATUS(st);
  if (x == 77) return bar(r + o + e);
  if (x == 99) { fprintf(stderr, "%s", e.c_str()); _exit(99); }
  std::string t = "exit" + std::to_string(x);
  if (full) return bar(t + ":" + e + o);
  if (x == 0) return t;
  if (e.compare(0, 13, "PARSE ERROR: ")) return bar(t + ":?" + e);
  size_t n = e.find('\n'), m = e.find('\n', n + 1);
  return bar(t + ":" + e.substr(13, n - 13) + ": " + e.substr(n + 14, m - n - 14));
}
std::string drv_do(const Cmd &c) {
  try {
    if (c.op == "cmd") { prog = c.s(4); bool plain = c.s(0) == " ", none = c.s(2) == "none"; cmd.reset(!c.i(1) ? new CmdLine(c.s(3), c.s(0)[0], c.s(2), false) : !none ? new CmdLine(c.s(3), c.s(0)[0], c.s(2)) : !plain ? new CmdLine(c.s(3), c.s(0)[0]) : new CmdLine(c.s(3))); return "ok"; }
    if (c.op == "docbook") { cmd->setOutput(&doc); return "ok"; }
    if (c.op == "arg") {
      std::string k = c.s(0), fl = c.s(1), nm = c.s(2), ds = c.s(3), df = c.s(5), ty = c.s(6), td = c.s(7); bool req = c.i(4), now = c.i(9);
      auto allow = c.strs(8); Held h;
      if (k == "switch") { SwitchArg *a = now ? new SwitchArg(fl, nm, ds, *cmd, df == "1") : df == "1" ? new SwitchArg(fl, nm, ds, true) : new SwitchArg(fl, nm, ds); h = Held{std::shared_ptr<Arg>(a), [a] { return std::string(a->getValue() ? "1" : "0"); }}; }
      else if (k == "mswitch") { MultiSwitchArg *a = now ? new MultiSwitchArg(fl, nm, ds, *cmd, atoi(df.c_str())) : df != "0" ? new MultiSwitchArg(fl, nm, ds, atoi(df.c_str())) : new MultiSwitchArg(fl, nm, ds); h = Held{std::shared_ptr<Arg>(a), [a] { return show(a->getValue()); }}; }
      else if (ty == "int") h = make<int>(k, fl, nm, ds, req, df, td, allow, now);
      else if (ty == "double") h = make<double>(k, fl, nm, ds, req, df, td, allow, now);
      else if (ty == "char") h = make<char>(k, fl, nm, ds, req, df, td, allow, now);
      else h = make<std::string>(k, fl, nm, ds, req, df, td, allow, now);
      held.push_back(h); return "ok";
    }
    if (c.op == "add") { cmd->add(*held.at(c.i(0) - 1).a); return "ok"; }
    if (c.op == "xor") { auto v = c.li(0); if (v.size() == 2) cmd->xorAdd(*held.at(v[0] - 1).a, *held.at(v[1] - 1).a); else { std::vector<Arg *> q; for (long i : v) q.push_back(held.at(i - 1).a.get()); cmd->xorAdd(q); } return "ok"; }
    if (c.op == "other") { other.reset(new CmdLine("other", ':')); otherArg.reset(new UnlabeledValueArg<int>("o", "one", false, 1, "int", *other)); return "ok"; }
    if (c.op == "earlier") { before = c.strs(1); before.insert(before.begin(), c.s(0)); return "ok"; }
    if (c.op == "parse") return parse(c.i(0), c.strs(1));
  } catch (SpecificationException &e) { const char *w = e.what(); ArgException("another", "exception").what(); return std::string("spec:") + w; }
  catch (ArgException &e) { const char *w = e.what(); ArgException("another", "exception").what(); return std::string("other:") + w; }
  return "?";
}
