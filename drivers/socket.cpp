#include "drv.hpp"
#include <thread>
#include <chrono>
#include <cstring>
#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <netdb.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <ecl/exceptions/standard_exception.hpp>
#include <ecl/devices/socket.hpp>
#include <ecl/devices/detail/socket_exception_handler_pos.hpp>
#include "file_errors.hpp"
using namespace ecl;
static int lastsock = -1, lastacc = -1;
extern "C" {
int __real_socket(int, int, int); int __real_accept(int, struct sockaddr *, socklen_t *); struct hostent *__real_gethostbyname(const char *);
int __real_bind(int, const struct sockaddr *, socklen_t); int __real_connect(int, const struct sockaddr *, socklen_t); int __real_ioctl(int, unsigned long, void *);
ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_send(int, const void *, size_t, int);
static std::string fkind; static int fwhat;
// the next call of this kind fails
static bool hit(const char *k) { if (fkind != k) return false; fkind = ""; errno = fwhat; return true; }
static size_t part(size_t n) { if (fkind != "part" || n == 0) return n; fkind = ""; return n < (size_t)fwhat ? n : fwhat; }
int __wrap_bind(int s, const struct sockaddr *a, socklen_t l) { return hit("bind") ? -1 : __real_bind(s, a, l); }
int __wrap_connect(int s, const struct sockaddr *a, socklen_t l) { return hit("connect") ? -1 : __real_connect(s, a, l); }
int __wrap_ioctl(int s, unsigned long r, void *p) { return hit("ioctl") ? -1 : __real_ioctl(s, r, p); }
ssize_t __wrap_recv(int s, void *b, size_t n, int f) { return hit("recv") ? -1 : __real_recv(s, b, f & MSG_PEEK ? n : part(n), f); }
ssize_t __wrap___recv_chk(int s, void *b, size_t n, size_t, int f) { return __wrap_recv(s, b, n, f); }
ssize_t __wrap_send(int s, const void *b, size_t n, int f) { return hit("send") ? -1 : __real_send(s, b, part(n), f); }
int __wrap_socket(int a, int b, int c) { if (hit("socket")) return lastsock = -1; return lastsock = __real_socket(a, b, c); }
int __wrap_accept(int s, struct sockaddr *a, socklen_t *l) { if (hit("accept")) return lastacc = -1; return lastacc = __real_accept(s, a, l); }
struct hostent *__wrap_gethostbyname(const char *n) { if (!strncmp(n, "nohost", 6)) { switch (n[6]) { case '0': h_errno = HOST_NOT_FOUND; break; case '1': h_errno = TRY_AGAIN; break; case '2': h_errno = NO_ADDRESS; break; case '3': h_errno = NO_RECOVERY; break; default: h_errno = 17; } return NULL; } return __real_gethostbyname(n); }
}
static std::unique_ptr<SocketServer> srv; static std::unique_ptr<SocketClient> cli; static std::vector<int> can; static long base; static int held = -1, mute = -1; static unsigned port, hport, mport; static int cfd, sfd;
static long fds() { long n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static int raw(unsigned &p) {
  int s = __real_socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = INADDR_ANY; socklen_t l = sizeof a;
  if (s < 0 || __real_bind(s, (struct sockaddr *)&a, sizeof a) || getsockname(s, (struct sockaddr *)&a, &l)) { perror("raw"); exit(3); } p = ntohs(a.sin_port); return s;
}
// storage for the objects that is not zero beforehand
template <class T> static void scribble() { void *m[4]; for (auto &x : m) { x = malloc(sizeof(T)); memset(x, 0x01, sizeof(T)); ((int *)x)[0] = 3; } for (auto &x : m) free(x); }
void drv_reset() {
  fkind = "";
  cli.reset(); srv.reset(); for (int f : can) close(f); can.clear(); if (held >= 0) close(held); if (mute >= 0) close(mute);
  held = raw(hport); listen(held, 1); mute = raw(mport); int t = raw(port); close(t);
  cli.reset(new SocketClient()); srv.reset(new SocketServer()); base = fds();
}
template <class F> static std::string grab(F g) { try { return g(); } catch (StandardException &e) { return "throw:" + flag(e.flag()); } }
static std::string stat(long v, const Error &e) { return v == ConnectionDisconnected ? "disconnected" : v == ConnectionHungUp ? "hungup" : v == ConnectionProblem ? "problem:" + flag(e.flag()) : "ok:" + std::to_string(v); }
static std::string bytes(const std::string &st, const char *b, long n) { return st.compare(0, 3, "ok:") ? st : "ok:" + drv::esc(std::string(b, n)); }
static std::string conn(int way) {
  std::string sr; std::atomic<bool> done(false); std::thread t([&]() { try { int r = srv->listen(); if (r < 0) sr = "!listen"; } catch (StandardException &e) { sr = "!listen:" + flag(e.flag()); } done = true; });
  std::string r; auto end = std::chrono::steady_clock::now() + std::chrono::seconds(5);
  for (;;) {
    r = grab([&]() { if (way) { cli.reset(); std::unique_ptr<SocketClient> n(new SocketClient("127.0.0.1", port)); cli = std::move(n); return std::string("ok:1"); } bool b = cli->open("127.0.0.1", port); return std::string(b ? "ok:1" : "0"); });
    if (!cli) cli.reset(new SocketClient()); if (r == "ok:1" || std::chrono::steady_clock::now() > end) break; std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  while (!done && std::chrono::steady_clock::now() < end) std::this_thread::sleep_for(std::chrono::microseconds(100));
  if (!done) { unsigned dummy; int s = raw(dummy); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port); __real_connect(s, (struct sockaddr *)&a, sizeof a); t.join(); close(s); return r + "!late"; }
  t.join(); cfd = lastsock; sfd = lastacc; return r + sr;
}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; if (!srv) drv_reset(); alarm(12);
  if (o == "mode") return "ok";
  if (o == "fail") { fkind = c.s(0); fwhat = num(c.s(1)); return "ok"; }
  if (o == "part") { fkind = "part"; fwhat = c.i(0); return "ok"; }
  if (o == "sopen") return grab([&]() { bool b = srv->open(c.i(0) ? hport : port); return std::string(b ? "ok:1" : "0"); });
  if (o == "snew") { srv.reset(); scribble<SocketServer>(); if (c.i(0) == 2) { srv.reset(new SocketServer()); return "ok"; } std::string r = grab([&]() { srv.reset(new SocketServer(c.i(0) ? hport : port)); return std::string("ok:1"); }); if (!srv) srv.reset(new SocketServer()); return r; }
  if (o == "cnew") { cli.reset(); scribble<SocketClient>(); cli.reset(new SocketClient()); return "ok"; }
  if (o == "connect") return conn(c.i(0));
  if (o == "refuse") return grab([&]() { bool b = cli->open("127.0.0.1", mport); return std::string(b ? "ok:1" : "0"); });
  if (o == "nohost") return grab([&]() { bool b = cli->open("nohost" + c.s(0), port); return std::string(b ? "ok:1" : "0"); });
  if (o == "listen") return grab([&]() { return std::to_string(srv->listen()); });
  if (o == "isopen") return (c.i(0) ? srv->open() : cli->open()) ? "1" : "0";
  if (o == "close") { if (c.i(0)) srv->close(); else cli->close(); return "ok"; }
  if (o == "read" || o == "peek") return grab([&]() { unsigned long n = c.i(1); std::vector<char> b(n + 1, '#'); long r; int i = c.i(0);
    if (o == "peek") r = i ? srv->peek(b.data(), n) : cli->peek(b.data(), n); else if (n == 1) r = i ? srv->read(b[0]) : cli->read(b[0]); else r = i ? srv->read(b.data(), n) : cli->read(b.data(), n);
    return bytes(stat(r, i ? srv->error() : cli->error()), b.data(), r) + (b[n] == '#' ? "" : "!over"); });
  if (o == "rem") return grab([&]() { int i = c.i(0); long r = i ? srv->remaining() : cli->remaining(); return stat(r, i ? srv->error() : cli->error()); });
  if (o == "w") return grab([&]() { int i = c.i(0); std::string t; for (auto &x : c.strs(1)) t += x; int fd = i ? cfd : sfd, n0 = 0, n1 = 0; __real_ioctl(fd, FIONREAD, &n0);
    long r = t.size() == 1 ? (i ? srv->write(t[0]) : cli->write(t[0])) : (i ? srv->write(t.data(), t.size()) : cli->write(t.data(), t.size())); const Error &e = i ? srv->error() : cli->error();
    if (r > 0) for (int k = 0; k < 30000; ++k) { n1 = n0; if (__real_ioctl(fd, FIONREAD, &n1) || n1 - n0 >= r) break; usleep(100); }
    return stat(r, e) + (r >= 0 && e.flag() != NoError ? "!error" : ""); });
  if (o == "wgone") return grab([&]() { int i = c.i(0); long r = 0; for (int k = 0; k < 1000; ++k) { r = i ? srv->write("x", 1) : cli->write("x", 1); if (r < 0) break; usleep(1000); } return stat(r, i ? srv->error() : cli->error()); });
  if (o == "canary") { can.push_back(open("/dev/null", O_RDONLY)); return "ok"; }
  if (o == "fds") return std::to_string(fds() - base);
  if (o == "err") { std::string k = c.s(0); int e = num(c.s(1)); auto set = [&]() { errno = e; return LOC; };
    StandardException x = k == "recv" ? devices::receive_exception(set()) : k == "send" ? devices::send_exception(set()) : k == "ioctl" ? devices::ioctl_exception(set()) : k == "connect" ? devices::connection_exception(set()) : k == "socket" ? devices::socket_exception(set()) : k == "accept" ? devices::accept_exception(set()) : devices::bind_exception(set());
    errno = e; ErrorFlag y = k == "recv" ? devices::receive_error().flag() : k == "send" ? devices::send_error().flag() : k == "ioctl" ? devices::ioctl_error().flag() : x.flag();
    return flag(x.flag()) + (x.flag() == y ? "" : "!" + flag(y)); }
  return "?";
}
