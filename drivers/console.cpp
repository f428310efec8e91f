// consoles: what the descriptors 1 and 2 get, and what descriptor 0 gives
#define DRV_FORK
#include "drv.hpp"
#include <cstring>
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <ecl/exceptions/standard_exception.hpp>
#include "file_errors.hpp"
#include <ecl/devices/console.hpp>
using namespace ecl;
static std::unique_ptr<OConsole> o_[2]; static std::unique_ptr<EConsole> e_[2]; static std::unique_ptr<IConsole> in_;
static int answers = -1, faults = -1, out[2], feed = -1;
void drv_reset() {
  fflush(stdout);
  if (answers < 0) { answers = dup(1); faults = dup(2); }
  for (int d = 0; d < 2; ++d) { o_[d].reset(new OConsole()); e_[d].reset(new EConsole()); out[d] = memfd_create("out", 0); }
  int p[2]; if (pipe(p)) exit(3); dup2(p[0], 0); close(p[0]); feed = p[1]; clearerr(stdin); __fpurge(stdin); in_.reset(new IConsole());
}
template <class C> static std::string run(const Cmd &c, std::unique_ptr<C> &p, int d, bool bad) {
  FILE *f = d ? stderr : stdout; int was = d ? faults : answers, full = bad ? open("/dev/full", O_WRONLY) : -1; std::string r;
  fflush(f); dup2(bad ? full : out[d], d + 1);
  try {
    if (c.op[0] == 'w') { long way = c.i(2), n = c.i(4); char ch = (char)c.i(3); std::unique_ptr<char[]> q(new char[n]); memset(q.get(), ch, n);
      long w = way == 0 ? p->write(ch) : p->write(q.get(), (unsigned long)n); r = "ok:" + std::to_string(w); }
    else { p->flush(); r = "ok"; }
  } catch (StandardException &e) { r = "throw:" + flag(e.flag()); }
  __fpurge(f); clearerr(f); dup2(was, d + 1); if (bad) { close(full); p.reset(new C()); }
  return r;
}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "mode") return "ok";
  if (answers < 0) drv_reset();
  if (o == "w" || o == "wbad" || o == "flush" || o == "flushbad") { int d = c.i(0), i = c.i(1); bool bad = o.size() > 5 || o == "wbad"; return d ? run(c, e_[i], d, bad) : run(c, o_[i], d, bad); }
  if (o == "look" || o == "late") { int d = c.i(0); long n = lseek(out[d], 0, SEEK_END); if (o == "late") return n + 4096 >= c.i(1) ? "1" : "0";
    std::string t(n, 0), r; if (pread(out[d], &t[0], n, 0) != n) return "?"; for (size_t k = 0; k < t.size();) { size_t m = k; while (m < t.size() && t[m] == t[k]) ++m; r += std::to_string((unsigned char)t[k]) + "*" + std::to_string(m - k) + ";"; k = m; } return r + "."; }
  if (o == "open") { return o_[0]->open() && e_[0]->open() && in_->open() ? "1" : "0"; }
  if (o == "feed") { std::string t; for (long x : c.li(0)) t += (char)x; if (write(feed, t.data(), t.size()) < 0) return "?"; return "ok"; }
  if (o == "end") { close(feed); feed = -1; return "ok"; }
  if (o == "rc") { try { char x = 77; long n = in_->read(x); return "ok:" + std::to_string(n) + (n ? ":" + std::to_string((unsigned char)x) : ""); } catch (StandardException &e) { return "throw:" + flag(e.flag()); } }
  if (o == "rs") { unsigned long m = c.i(0); std::unique_ptr<char[]> q(new char[m]); memset(q.get(), 77, m); try { long n = in_->read(q.get(), m); std::string r = "ok:" + std::to_string(n); if (n) { r += ":"; for (long k = 0; k < n; ++k) r += (k ? "," : "") + std::to_string((unsigned char)q[k]); if (n >= (long)m || q[n]) r += "!"; } return r; } catch (StandardException &e) { return "throw:" + flag(e.flag()); } }
  return "?";
}
