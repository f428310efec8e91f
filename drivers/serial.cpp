// Serial ports on pseudo terminals: the peer holds the other ends, the clock is virtual, calls to the system can be made to fail.
#include "drv.hpp"
#include <cstdarg>
#include <cstring>
#include <map>
#include <fcntl.h>
#include <poll.h>
#include <dirent.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include "file_errors.hpp"
#include <ecl/time_lite/functions.hpp>
#include <ecl/devices/serial.hpp>
using namespace ecl;
typedef TimeStructure T;
static long now_ms = 0, now_ns = 0;
static std::string badcall; static int baderr = 0;
struct Port { int master = -1, aux = -1; dev_t dev = 0; std::string path; termios set; bool isset = false; long at = -1; std::string later; };
static Port P[2]; static std::unique_ptr<Serial> S[2]; static int base_fds = 0; static pid_t holder = 0; static int hold_in = -1; static bool hang = false;
extern "C" { int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_tcsetattr(int, int, const termios *); }
static bool fails(const char *w) { if (badcall != w) return false; badcall.clear(); errno = baderr; return true; }
static Port *port_of(int fd) { struct stat st; if (fstat(fd, &st)) return 0; for (auto &p : P) if (p.dev == st.st_rdev && S_ISCHR(st.st_mode)) return &p; return 0; }
static int have(Port &p) { int n = 0; ioctl(p.aux, FIONREAD, &n); return n; }
static void give(Port &p, const std::string &b) { // the peer sends; ends when it has arrived
  int want = have(p) + b.size(); if (__real_write(p.master, b.data(), b.size()) != (ssize_t)b.size()) abort();
  for (int k = 0; k < 20000 && have(p) < want; ++k) usleep(50);
}
static void deliver() { for (auto &p : P) if (p.at >= 0 && p.at <= now_ms) { p.at = -1; give(p, p.later); } }
static std::string taken(Port &p, size_t n) { // what the peer gets
  std::string r; char b[4096];
  while (r.size() < n) { pollfd f = {p.master, POLLIN, 0}; if (poll(&f, 1, 8000) <= 0) break; ssize_t k = __real_read(p.master, b, sizeof b); if (k <= 0) break; r.append(b, k); }
  return r;
}
extern "C" {
int __wrap_open(const char *f, int flags, ...) {
  va_list l; va_start(l, flags); mode_t m = va_arg(l, mode_t); va_end(l);
  if (fails("open")) return -1; return __real_open(f, flags, m);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (port_of(fd) && fails("write")) return -1; return __real_write(fd, b, n); }
int __wrap_tcsetattr(int fd, int a, const termios *t) { if (Port *p = port_of(fd)) { p->set = *t; p->isset = true; } return __real_tcsetattr(fd, a, t); }
ssize_t __wrap_read(int fd, void *b, size_t n) {
  Port *p = port_of(fd);
  if (p) {
    if (fails("read")) return -1;
    if (have(*p) == 0 && n) { // nothing there: the driver of the terminal would wait this long
      long w = p->set.c_cc[VTIME] * 100L;
      if (p->set.c_cc[VMIN] != 0) { hang = true; return 0; }
      if (p->at >= 0 && p->at <= now_ms + w) now_ms = p->at; else { now_ms += w; deliver(); return 0; }
      deliver();
    }
  }
  return __real_read(fd, b, n);
}
}
namespace ecl {
static void sub(T &t) { t.tv_sec = 1000 + now_ms / 1000; t.tv_nsec = now_ms % 1000 * 1000000 + now_ns; }
TimeError epoch_time(T &t) { sub(t); return TimeError(NoError); }
TimeError realtime_epoch_time(T &t) { return epoch_time(t); }
static void to(long ns) { long cur = now_ms * 1000000 + now_ns; if (ns > cur) { now_ms = ns / 1000000; now_ns = ns % 1000000; } deliver(); }
TimeError sleep(const T &t) { to(now_ms * 1000000 + now_ns + t.tv_sec * 1000000000L + t.tv_nsec); return TimeError(NoError); }
TimeError sleep_until(const T &t) { to((t.tv_sec - 1000) * 1000000000L + t.tv_nsec); return TimeError(NoError); }
}
static int fds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static void letgo() { if (holder) { close(hold_in); hold_in = -1; waitpid(holder, 0, 0); holder = 0; } }
static const char *NM[2] = {"p", "q"};
void drv_reset() {
  S[0].reset(new Serial); S[1].reset(new Serial); letgo(); badcall.clear(); now_ms = now_ns = 0; hang = false;
  for (int k = 0; k < 2; ++k) { Port &p = P[k];
    if (p.master < 0) {
      p.master = posix_openpt(O_RDWR | O_NOCTTY); if (p.master < 0 || grantpt(p.master) || unlockpt(p.master)) { fprintf(stderr, "no pseudo terminals\n"); exit(3); }
      p.path = ptsname(p.master); p.aux = __real_open(p.path.c_str(), O_RDWR | O_NOCTTY | O_NONBLOCK); struct stat st; fstat(p.aux, &st); p.dev = st.st_rdev;
    }
    termios t; memset(&t, 0, sizeof t); t.c_cflag = CS8 | CREAD | CLOCAL; cfsetspeed(&t, B9600); __real_tcsetattr(p.aux, TCSANOW, &t); p.set = t; p.isset = false; p.at = -1; tcflush(p.aux, TCIOFLUSH); tcflush(p.master, TCIOFLUSH);
    unlink(NM[k]); if (symlink(p.path.c_str(), NM[k])) exit(3);
  }
  base_fds = fds();
}
static std::string bytes(const std::string &s) { std::vector<int> v; for (unsigned char c : s) v.push_back(c); return drv::join(v.begin(), v.end()); }
static std::string text(const Cmd &c, size_t k) { std::string r; for (long b : c.li(k)) r += (char)b; return r; }
static std::string line(Port &p) {
  if (!p.isset) return "none"; const termios &t = p.set; std::string r;
  static const speed_t B[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200, B230400, B460800, B921600};
  int b = -1; for (int k = 0; k < 14; ++k) if (cfgetospeed(&t) == B[k] && cfgetispeed(&t) == B[k]) b = k;
  int cs = t.c_cflag & CSIZE; r = std::to_string(b) + "," + std::to_string(cs == CS5 ? 5 : cs == CS6 ? 6 : cs == CS7 ? 7 : 8) + "," + (t.c_cflag & CSTOPB ? "2" : "1") + "," + (!(t.c_cflag & PARENB) ? "none" : t.c_cflag & PARODD ? "odd" : "even");
  if (t.c_cflag & CRTSCTS || t.c_iflag & (IXON | IXOFF | IXANY)) r += "!flow"; if (!(t.c_cflag & CREAD)) r += "!noread"; if (!(t.c_cflag & CLOCAL)) r += "!modem";
  if (t.c_lflag & (ICANON | ECHO | ECHOE | ISIG | IEXTEN)) r += "!local"; if (t.c_oflag & OPOST) r += "!out"; if (t.c_iflag & (ICRNL | INLCR | IGNCR)) r += "!in"; if (t.c_cc[VMIN]) r += "!min";
  return r;
}
template <class F> static std::string guard(Serial &s, F f) {
  try { return f(); } catch (const StandardException &e) { return "throw:" + flag(e.flag()); }
}
static bool openit(Serial &s, const Cmd &c, size_t k) { // with as few arguments as do
  std::string n = c.s(k); BaudRate b = (BaudRate)c.i(k + 1); DataBits d = (DataBits)(c.i(k + 2) - 5); StopBits st = (StopBits)c.i(k + 3); Parity p = (Parity)c.i(k + 4);
  if (p != NoParity) return s.open(n, b, d, st, p); if (st != StopBits_1) return s.open(n, b, d, st); if (d != DataBits_8) return s.open(n, b, d); if (b != BaudRate_115200) return s.open(n, b); return s.open(n);
}
static Serial *raii(const Cmd &c, size_t k, void *at) {
  std::string n = c.s(k); BaudRate b = (BaudRate)c.i(k + 1); DataBits d = (DataBits)(c.i(k + 2) - 5); StopBits st = (StopBits)c.i(k + 3); Parity p = (Parity)c.i(k + 4);
  if (p != NoParity) return new (at) Serial(n, b, d, st, p); if (st != StopBits_1) return new (at) Serial(n, b, d, st); if (d != DataBits_8) return new (at) Serial(n, b, d); if (b != BaudRate_115200) return new (at) Serial(n, b); return new (at) Serial(n);
}
template <class B> static std::string get(Serial &s, long n, bool one) {
  std::vector<B> b(n + 8, (B)0x5a); long k = one ? s.read(b[0]) : s.read(b.data(), (unsigned long)n);
  for (size_t i = k > 0 ? k : 0; i < b.size(); ++i) if (b[i] != (B)0x5a) return "!beyond";
  if (k < 0) return std::to_string(k) + ":" + flag(s.error().flag());
  std::string r; for (long i = 0; i < k; ++i) r += (char)b[i]; return std::to_string(k) + ":" + bytes(r) + (s.error().flag() == NoError ? "" : "!error");
}
template <class B> static std::string put(Serial &s, Port *p, const std::string &t, bool one) {
  long k = 0; std::vector<B> v(t.begin(), t.end());
  if (one) { for (auto &b : v) { long x = s.write(b); if (x < 0) return std::to_string(x) + ":" + flag(s.error().flag()); k += x; } } else { k = s.write(v.data(), (unsigned long)v.size()); if (k < 0) return std::to_string(k) + ":" + flag(s.error().flag()); }
  return std::to_string(k) + ":" + bytes(taken(*p, k)) + (s.error().flag() == NoError ? "" : "!error");
}
static Port *where(const std::string &n) { for (int k = 0; k < 2; ++k) if (n == NM[k]) return &P[k]; return 0; }
static int at_port[2] = {0, 0};
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "mode") return "ok";
  if (o == "fds") return std::to_string(fds() - base_fds - (holder ? 1 : 0));
  if (o == "feed") { give(*where(c.s(0)), text(c, 1)); return "ok"; }
  if (o == "soon") { Port &p = *where(c.s(0)); p.at = now_ms + c.i(1); p.later = text(c, 2); return "ok"; }
  if (o == "tick") { now_ms += c.i(0); deliver(); return "ok"; }
  if (o == "line") return line(*where(c.s(0)));
  if (o == "pull") { unlink(c.s(0).c_str()); return "ok"; }
  if (o == "plug") { return symlink(where(c.s(0))->path.c_str(), c.s(0).c_str()) ? "!link" : "ok"; }
  if (o == "bad") { badcall = c.s(0); baderr = num(c.s(1)); return "ok"; }
  if (o == "other" || o == "grab") { // another process opens the port (and keeps it)
    int a[2], b[2]; if (pipe(a) || pipe(b)) return "!pipe";
    pid_t pid = fork();
    if (!pid) { close(a[0]); close(b[1]); char r = 'o'; { Serial *s = 0; try { s = new Serial(c.s(0)); } catch (const StandardException &e) { r = e.flag() == OpenError ? 'O' : 'x'; } if (__real_write(a[1], &r, 1) != 1) _exit(1); if (__real_read(b[0], &r, 1) > 0) _exit(1); delete s; } _exit(0); }
    close(a[1]); close(b[0]); char r = '?'; if (__real_read(a[0], &r, 1) != 1) r = '?'; close(a[0]);
    if (o == "grab" && r == 'o') { holder = pid; hold_in = b[1]; } else { close(b[1]); waitpid(pid, 0, 0); }
    return r == 'o' ? "ok" : r == 'O' ? "Open" : "!other";
  }
  if (o == "ungrab") { letgo(); return "ok"; }
  long h = c.i(0); Serial *s = S[h].get(); long t0 = now_ms; hang = false;
  auto after = [&](const std::string &r) { return r + "@" + std::to_string(now_ms - t0 + (now_ns ? 1 : 0)) + (hang ? "!waits" : ""); };
  if (o == "new") { S[h].reset(); void *m = ::operator new(sizeof(Serial)); memset(m, c.i(1), sizeof(Serial)); S[h].reset(new (m) Serial); return "ok"; }
  if (o == "raii") { S[h].reset(); void *m = ::operator new(sizeof(Serial)); memset(m, c.i(6), sizeof(Serial)); at_port[h] = c.s(1) == "q"; std::string r = "ok";
    try { S[h].reset(raii(c, 1, m)); } catch (const StandardException &e) { ::operator delete(m); S[h].reset(new Serial); r = "throw:" + flag(e.flag()); } return r; }
  if (o == "open") { at_port[h] = c.s(1) == "q"; return guard(*s, [&]() -> std::string { return openit(*s, c, 1) ? (s->error().flag() == NoError ? "ok" : "ok!error") : "false:" + flag(s->error().flag()); }); }
  if (o == "close") { s->close(); return "ok"; }
  if (o == "isopen") return s->open() ? "1" : "0";
  if (o == "read") return guard(*s, [&]() { long n = c.i(1), w = c.i(2); bool one = n == 0; return after(w == 0 ? get<char>(*s, one ? 1 : n, one) : w == 1 ? get<unsigned char>(*s, one ? 1 : n, one) : get<signed char>(*s, one ? 1 : n, one)); });
  if (o == "write") return guard(*s, [&]() { long w = c.i(1); std::string t = text(c, 2); Port *p = &P[at_port[h]]; bool one = w >= 3; w %= 3; return w == 0 ? put<char>(*s, p, t, one) : w == 1 ? put<unsigned char>(*s, p, t, one) : put<signed char>(*s, p, t, one); });
  if (o == "block") { if (c.i(1) < 0) s->block(); else s->block(c.i(1)); return "ok"; }
  if (o == "unblock") { s->unblock(); return "ok"; }
  if (o == "remaining") return std::to_string(s->remaining());
  if (o == "clear") { if (c.i(1) == 0) s->clear(); else if (c.i(1) == 1) s->clearInputBuffer(); else s->clearOutputBuffer(); return "ok"; }
  if (o == "flush") { s->flush(); return "ok"; }
  return "?";
}
