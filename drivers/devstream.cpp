// Streams over serial ports, sockets and consoles, each with its other end at hand.
#define DRV_FORK
#include "drv.hpp"
#include <cstring>
#include <fcntl.h>
#include <poll.h>
#include <stdio_ext.h>
#include <termios.h>
#include <thread>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "file_errors.hpp"
#include <ecl/streams/serial_stream.hpp>
#include <ecl/streams/socket_streams.hpp>
#include <ecl/streams/console_streams.hpp>
#include <ecl/streams/manipulators/end_of_line.hpp>
using namespace ecl;
static std::unique_ptr<SerialStream> ser; static std::unique_ptr<SocketClientStream> cli; static std::unique_ptr<SocketServerStream> srv;
static std::unique_ptr<OConsoleStream> oc; static std::unique_ptr<EConsoleStream> ec; static std::unique_ptr<IConsoleStream> ic;
static int master = -1, aux = -1, answers = -1, faults = -1, out[2], feed = -1; static std::string path; static unsigned port; static termios last; static bool isset;
extern "C" { int __real_tcsetattr(int, int, const termios *); int __wrap_tcsetattr(int fd, int a, const termios *t) { last = *t; isset = true; return __real_tcsetattr(fd, a, t); } }
void drv_reset() {
  if (answers < 0) { answers = dup(1); faults = dup(2); }
  ser.reset(new SerialStream); cli.reset(new SocketClientStream); srv.reset(new SocketServerStream); oc.reset(new OConsoleStream); ec.reset(new EConsoleStream); ic.reset(new IConsoleStream); isset = false;
  if (aux >= 0) close(aux); if (master >= 0) close(master);
  master = posix_openpt(O_RDWR | O_NOCTTY); if (master < 0 || grantpt(master) || unlockpt(master)) { fprintf(stderr, "no pseudo terminals\n"); exit(3); } path = ptsname(master); aux = open(path.c_str(), O_RDWR | O_NOCTTY | O_NONBLOCK);
  termios t; memset(&t, 0, sizeof t); t.c_cflag = CS8 | CREAD | CLOCAL; __real_tcsetattr(aux, TCSANOW, &t);
  for (int &d : out) d = memfd_create("out", 0); int p[2]; if (pipe(p)) exit(3); dup2(p[0], 0); close(p[0]); feed = p[1]; clearerr(stdin); __fpurge(stdin);
  int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_ANY); socklen_t l = sizeof a; if (bind(s, (sockaddr *)&a, l) || getsockname(s, (sockaddr *)&a, &l)) exit(3); port = ntohs(a.sin_port); close(s);
}
static std::string line() { static const speed_t B[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200, B230400, B460800, B921600}; if (!isset) return "none"; int b = -1; for (int k = 0; k < 14; ++k) if (cfgetospeed(&last) == B[k]) b = k;
  int cs = last.c_cflag & CSIZE; return std::to_string(b) + "," + std::to_string(cs == CS5 ? 5 : cs == CS6 ? 6 : cs == CS7 ? 7 : 8) + "," + (last.c_cflag & CSTOPB ? "2" : "1") + "," + (!(last.c_cflag & PARENB) ? "none" : last.c_cflag & PARODD ? "odd" : "even"); }
template <class F> static std::string guard(F f) { try { return f(); } catch (const StandardException &e) { return "throw:" + flag(e.flag()); } }
template <class St> static std::string put(St &s, const Cmd &c) {
  std::string t = c.s(2); long way = c.i(1); if (way == 0) s << t; else if (way == 1) s << t.c_str(); else if (way == 2) for (char ch : t) s << ch; else if (way == 3) s << (long)strtol(t.c_str(), 0, 10); else if (way == 4) s << (short)strtol(t.c_str(), 0, 10);
  if (c.i(3) == 1) s << ecl::endl; else if (c.i(3) == 2) { (s << " ").flush(); } else { s << ' '; s.flush(); }
  return s.fail() ? "fail:" + flag(s.errorStatus().flag()) : "ok";
}
template <class St> static std::string get(St &s, const Cmd &c) {
  std::string k = c.s(1), r; if (k == "word") { std::string w; s >> w; r = w; } else if (k == "char") { char x = '?'; s >> x; r = std::string(1, x); } else if (k == "int") { int x = -99; s >> x; r = std::to_string(x); } else { s.enableRawCharReads(); char x = '?'; s >> x; s.disableRawCharReads(); r = x == ' ' ? "blank" : x == '\n' ? "line" : std::string(1, x); }
  return s.fail() ? "fail:" + flag(s.errorStatus().flag()) : "ok:" + r;
}
template <class St> static std::string cons(St &s, int d, const Cmd &c) { FILE *f = d ? stderr : stdout; fflush(f); dup2(out[d], d + 1); std::string r = guard([&]() { return put(s, c); }); __fpurge(f); dup2(d ? faults : answers, d + 1); return r; }
static std::string esc(const std::string &t) { std::string r; for (char ch : t) r += ch == '\n' ? std::string("|") : ch == ' ' ? std::string("_") : std::string(1, ch); return r.empty() ? "nothing" : r; }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; if (o == "mode") return "ok"; if (answers < 0) drv_reset();
  if (o == "serial") { // way, baud, bits, stop, parity
    std::string n = c.i(0) >= 2 ? "nowhere" : path; BaudRate b = (BaudRate)c.i(1); DataBits d = (DataBits)(c.i(2) - 5); StopBits s = (StopBits)c.i(3); Parity p = (Parity)c.i(4);
    return guard([&]() -> std::string { if (c.i(0) % 2) { bool r = p != NoParity ? ser->device().open(n, b, d, s, p) : ser->device().open(n, b, d, s); return r && !ser->fail() ? "ok" : "false"; }
      ser.reset(new SerialStream); ser.reset(p != NoParity ? new SerialStream(n, b, d, s, p) : s != StopBits_1 ? new SerialStream(n, b, d, s) : d != DataBits_8 ? new SerialStream(n, b, d) : b != BaudRate_115200 ? new SerialStream(n, b) : new SerialStream(n)); return ser->fail() ? "fail" : "ok"; }); }
  if (o == "line") return line();
  if (o == "server") return guard([&]() -> std::string { if (c.i(0)) { return srv->device().open(port) && !srv->fail() ? "ok" : "false"; } srv.reset(new SocketServerStream); srv.reset(new SocketServerStream(port)); return srv->fail() ? "fail" : "ok"; });
  if (o == "client") return guard([&]() -> std::string { std::string r; if (c.i(0)) r = cli->device().open("127.0.0.1", port) && !cli->fail() ? "ok" : "false"; else { cli.reset(new SocketClientStream); cli.reset(new SocketClientStream("127.0.0.1", port)); r = cli->fail() ? "fail" : "ok"; } return r; });
  if (o == "link") { // the server waits in another thread until the client comes
    std::string r; std::thread w([&]() { r = guard([&]() -> std::string { return std::to_string(srv->device().listen() > 0); }); });
    std::string a; for (int k = 0; k < 4000; ++k) { a = guard([&]() -> std::string { if (c.i(0)) return cli->device().open("127.0.0.1", port) && !cli->fail() ? "ok" : "false"; cli.reset(new SocketClientStream); cli.reset(new SocketClientStream("127.0.0.1", port)); return cli->fail() ? "fail" : "ok"; }); if (a == "ok") break; usleep(500); }
    w.join(); return a + r; }
  if (o == "close") { long e = c.i(0); if (e == 0) ser->device().close(); else if (e == 2) cli->device().close(); else srv->device().close(); return "ok"; }
  if (o == "isopen") { long e = c.i(0); return (e == 0 ? ser->device().open() : e == 2 ? cli->device().open() : e == 3 ? srv->device().open() : e == 4 ? ic->device().open() : e == 5 ? oc->device().open() : ec->device().open()) ? "1" : "0"; }
  if (o == "put") { long e = c.i(0); return e == 5 ? cons(*oc, 0, c) : e == 6 ? cons(*ec, 1, c) : guard([&]() { return e == 0 ? put(*ser, c) : e == 2 ? put(*cli, c) : put(*srv, c); }); }
  if (o == "get") { long e = c.i(0); return guard([&]() { return e == 0 ? get(*ser, c) : e == 2 ? get(*cli, c) : e == 3 ? get(*srv, c) : get(*ic, c); }); }
  if (o == "feed") { std::string t = c.s(1); for (char &ch : t) if (ch == '|') ch = '\n'; else if (ch == '_') ch = ' ';
    if (c.i(0) == 0) { int n = 0, m = 0; ioctl(aux, FIONREAD, &n); if (write(master, t.data(), t.size()) < 0) return "?"; for (int k = 0; k < 20000 && m < n + (int)t.size(); ++k) { usleep(50); ioctl(aux, FIONREAD, &m); } } else if (write(feed, t.data(), t.size()) < 0) return "?"; return "ok"; }
  if (o == "look") { long e = c.i(0); std::string t; if (e == 1) { if (write(aux, "\1", 1) != 1) return "?"; // what was written before comes before the mark
      pollfd f = {master, POLLIN, 0}; char b[4096]; while (t.find('\1') == std::string::npos && poll(&f, 1, 10000) > 0) { ssize_t n = read(master, b, sizeof b); if (n <= 0) break; t.append(b, n); } if (t.empty() || t.back() != '\1') return "?mark"; t.pop_back(); } else { int d = out[e - 5]; long n = lseek(d, 0, SEEK_END); t.resize(n); if (pread(d, &t[0], n, 0) != n) return "?"; if (ftruncate(d, 0)) return "?"; lseek(d, 0, SEEK_SET); } return esc(t); }
  return "?";
}
