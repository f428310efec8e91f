// realpath in a scratch tree
#define DRV_FORK
#include "drv.hpp"
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>
#include <ecl/filesystem/realpath.hpp>
#include "file_errors.hpp"
static std::string root, fault; static long live;
void *operator new[](size_t n) { ++live; void *p = malloc(n ? n : 1); if (p) memset(p, 'Z', n); return p; }
void operator delete[](void *p) noexcept { if (p) --live; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p) --live; free(p); }
extern "C" { char *__real_realpath(const char *, char *); char *__wrap_realpath(const char *p, char *b) { if (!fault.empty()) { errno = num(fault.c_str()); fault = ""; return NULL; } return __real_realpath(p, b); }
  char *__wrap___realpath_chk(const char *p, char *b, size_t) { return __wrap_realpath(p, b); } }
static void wipe() { if (!root.empty()) { if (chdir("/tmp")) {} std::string c = "rm -rf '" + root + "'"; if (system(c.c_str())) {} } root = ""; }
static std::string name(const std::string &n) { return n == "long" ? std::string(300, 'n') : n; }
static std::string join(const std::vector<std::string> &v) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? "/" : "") + name(v[i]); return r; }
static std::string at(const std::vector<std::string> &v) { std::string r = root; for (auto &x : v) r += "/" + x; return r; }
void drv_reset() {
  static bool once = false; if (!once) { once = true; atexit(wipe); } wipe();
  char t[] = "/tmp/verif-path-XXXXXX"; if (!mkdtemp(t) || chmod(t, 0755) || chdir(t)) exit(3); char b[512]; root = getcwd(b, sizeof b);
}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "mkdir") return mkdir(at(c.strs(0)).c_str(), 0755) ? "!" : "ok";
  if (o == "touch") { FILE *f = fopen(at(c.strs(0)).c_str(), "w"); if (!f) return "!"; fclose(f); return "ok"; }
  if (o == "link") { std::string t = (c.i(1) ? root + "/" : "") + join(c.strs(2)); return symlink(t.c_str(), at(c.strs(0)).c_str()) ? "!" : "ok"; }
  if (o == "rm") return remove(at(c.strs(0)).c_str()) ? "!" : "ok";
  if (o == "cd") return chdir(at(c.strs(0)).c_str()) ? "!" : "ok";
  if (o == "shut") return chmod(at(c.strs(0)).c_str(), c.i(1) ? 0600 : 0755) ? "!" : "ok";
  if (o == "fault") { fault = c.s(0); return "ok"; }
  std::string p = (c.i(0) ? root + "/" : "") + join(c.strs(1)), out = "before"; 
  if (c.i(2) && seteuid(65534)) return "!user";
  long l0 = live; ecl::Error e = ecl::realpath(p, out); long l1 = live;
  if (c.i(2) && seteuid(0)) exit(3);
  std::string r = flag(e.flag());
  if (e.flag() == ecl::NoError) { if (out.compare(0, root.size(), root) || (out.size() > root.size() && out[root.size()] != '/')) r += "|!" + out; else r += "|/" + out.substr(root.size()); }
  else r += out == "before" ? "|kept" : "|overwritten";
  return r + (l0 == l1 ? "" : "|leak");
}
