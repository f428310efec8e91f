// The utilities as whole programs: each run in a process of its own, its terminal and its other end at hand.
#include "drv.hpp"
#include <cmath>
#include <cstring>
#include <ctime>
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio_ext.h>
#include <termios.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <arpa/inet.h>
static int *bad; // reads of the port that are going to fail
extern "C" {
int __real_clock_nanosleep(clockid_t, int, const timespec *, timespec *);
int __wrap_clock_nanosleep(clockid_t c, int f, const timespec *t, timespec *r) { timespec q = {0, (t->tv_sec * 1000000000L + t->tv_nsec) / 100}; return __real_clock_nanosleep(CLOCK_MONOTONIC, 0, &q, 0); }
int __wrap_nanosleep(const timespec *t, timespec *r) { return __wrap_clock_nanosleep(CLOCK_MONOTONIC, 0, t, r); }
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *p, size_t n) { if (bad && *bad && fd > 2 && isatty(fd)) { --*bad; errno = EIO; return -1; } return __real_read(fd, p, n); }
}
#include <sched.h>
#include <sys/resource.h>
static int policy_ = SCHED_OTHER, nice_ = 0, rt_ = 0; // what the system says of the process
extern "C" {
int __wrap_sched_getscheduler(pid_t) { return policy_; }
int __wrap_sched_getparam(pid_t, sched_param *p) { p->sched_priority = rt_; return 0; }
int __wrap_getpriority(__priority_which_t, id_t) { return nice_; }
}
#define main util_main
#include UTIL
#undef main
static pid_t pid = 0; static int in = -1, scr = -1, err = -1, wire = -1, lst = -1, aux = -1; static std::string path, left; static unsigned port;
static void shut(int &fd) { if (fd >= 0) close(fd); fd = -1; }
static void stop() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, 0, 0); } pid = 0; shut(in); shut(scr); shut(err); shut(wire); shut(lst); shut(aux); }
void drv_reset() { stop(); if (!bad) { bad = (int *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); signal(SIGPIPE, SIG_IGN); } *bad = 0; }
static std::string masked(const std::string &t) { std::string r; for (size_t i = 0; i < t.size(); ++i) { size_t j = i + 1, d = 0; if (t[i] == '[') { while (j < t.size() && (isdigit(t[j]) || t[j] == '.')) d += t[j++] == '.'; if (j < t.size() && t[j] == ']' && d == 1 && j > i + 4) { r += "[T]"; i = j; continue; } } r += t[i]; } return r; }
static std::string out(const std::string &t) { std::string r; for (char c : t) r += c == '\n' ? std::string("|") : c == ' ' ? std::string("_") : std::string(1, c); return r.empty() ? "nothing" : r; }
static std::string text(std::string t) { for (char &c : t) if (c == '|') c = '\n'; else if (c == '_') c = ' '; return t; }
// what comes out of fd until `n` characters (stamps count as three) or the text `until` have come, and a moment more
static std::string take(int fd, size_t n, const std::string &until = "") {
  std::string t; timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
  for (;;) {
    bool done = until.empty() ? masked(t).size() >= n : t.find(until) != std::string::npos; clock_gettime(CLOCK_MONOTONIC, &b); if (!done && b.tv_sec - a.tv_sec > 15) break;
    pollfd f = {fd, POLLIN, 0}; int k = poll(&f, 1, done ? 3 : 1000); if (k <= 0) { if (done) break; continue; }
    char buf[4096]; ssize_t m = __real_read(fd, buf, sizeof buf); if (m <= 0) break; t.append(buf, m);
  }
  return masked(t);
}
static std::string finish() { int st = 0; for (int k = 0; k < 8000; ++k) { if (waitpid(pid, &st, WNOHANG) == pid) { pid = 0; return WIFEXITED(st) ? "exit:" + std::to_string(WEXITSTATUS(st)) : "signal:" + std::to_string(WTERMSIG(st)); } usleep(1000); } return "running"; }
static void launch(std::vector<std::string> args, bool terminal) {
  int i[2], o[2], e[2]; if (pipe(i) || pipe(o) || pipe(e)) exit(3);
  pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(i[0], 0); dup2(o[1], 1); dup2(e[1], 2); for (int fd : {i[0], i[1], o[0], o[1], e[0], e[1], wire, lst, aux}) if (fd > 2) close(fd);
    std::vector<char *> v; for (auto &a : args) v.push_back(&a[0]); v.push_back(0); clearerr(stdin); __fpurge(stdin); __fpurge(stdout); 
#ifdef NOARGS
    int r = util_main();
#else
    int r = util_main(args.size(), &v[0]);
#endif
    std::cout.flush(); fflush(stdout); _exit(r);
  }
  close(i[0]); close(o[1]); close(e[1]); in = i[1]; scr = o[0]; err = e[0]; for (int fd : {in, scr, err}) fcntl(fd, F_SETFD, FD_CLOEXEC);
}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; if (o == "mode") return "ok"; if (!bad) drv_reset();
  if (o == "run") { // a program that calculates and ends
    stop(); std::vector<std::string> a = {"prog"}; for (auto &x : c.strs(0)) a.push_back(x); launch(a, false); shut(in); std::string t = take(scr, 1 << 20), r = finish(); stop();
    size_t p = t.find("radians ->"); double x, y, z, w, d;
    if (r != "exit:0") return r;
    if (sscanf(t.c_str(), "Quaternion: [x: %lf y: %lf z: %lf w: %lf]", &x, &y, &z, &w) == 4) { double g = c.a.size() > 1 ? c.i(1) * M_PI / 180 : 0; return std::fabs(x) + std::fabs(y) < 1e-6 && std::fabs(w - std::cos(g / 2)) < 1e-5 && std::fabs(z - std::sin(g / 2)) < 1e-5 ? "right" : "wrong:" + out(t); }
    if (sscanf(t.c_str(), "Quaternion {x: %lf y: %lf z: %lf w: %lf} -> %lf radians -> %lf degrees.", &x, &y, &z, &w, &d, &p) >= 5) {
      double deg = 1e9; size_t q = t.find("radians -> "); sscanf(t.c_str() + q + 11, "%lf", &deg); if (std::fabs(deg * M_PI / 180 - d) > 1e-4) return "differ:" + out(t);
      double k = std::floor(deg + .5); return std::fabs(deg - k) < .01 ? std::to_string(((long)k % 360 + 360) % 360) : "between:" + out(t); }
    return "said:" + out(t);
  }
  if (o == "tell") { // a program that tells and ends
    stop(); if (c.a.size() > 0) { policy_ = c.s(0) == "RR" ? SCHED_RR : c.s(0) == "FIFO" ? SCHED_FIFO : SCHED_OTHER; (policy_ == SCHED_OTHER ? nice_ : rt_) = c.i(1); }
    launch({"prog"}, false); shut(in); std::string t = take(scr, 1 << 20), r = finish(); stop(); return r == "exit:0" ? out(t) : r; }
  if (o == "start") { // kind, options
    stop(); *bad = 0; long kind = c.i(0); std::vector<std::string> a = {"prog"};
    if (kind <= 1) { wire = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC); if (wire < 0 || grantpt(wire) || unlockpt(wire)) exit(3); path = ptsname(wire); aux = open(path.c_str(), O_RDWR | O_NOCTTY | O_NONBLOCK); termios t; memset(&t, 0, sizeof t); t.c_cflag = CS8 | CREAD | CLOCAL | B300; tcsetattr(aux, TCSANOW, &t); }
    else { lst = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(INADDR_ANY); socklen_t l = sizeof s; if (bind(lst, (sockaddr *)&s, l) || getsockname(lst, (sockaddr *)&s, &l)) exit(3); port = ntohs(s.sin_port); if (kind == 2) { if (listen(lst, 1)) exit(3); } else shut(lst); }
    for (auto &x : c.strs(1)) a.push_back(x == "PORT" ? (kind <= 1 ? path : std::to_string(port)) : x.size() > 4 && x.substr(x.size() - 4) == "PORT" ? x.substr(0, x.size() - 4) + (kind <= 1 ? path : std::to_string(port)) : x);
    launch(a, true);
    if (kind == 2) { wire = accept4(lst, 0, 0, SOCK_CLOEXEC); if (wire < 0) exit(3); }
    if (kind == 3) { for (int k = 0; k < 8000; ++k) { int s = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in d; memset(&d, 0, sizeof d); d.sin_family = AF_INET; d.sin_port = htons(port); d.sin_addr.s_addr = inet_addr("127.0.0.1"); if (!connect(s, (sockaddr *)&d, sizeof d)) { wire = s; break; } close(s); usleep(1000); if (waitpid(pid, 0, WNOHANG) == pid) { pid = 0; return "ended"; } } if (wire < 0) return "nobody"; }
    std::string t = kind == 0 ? "" : take(scr, 0, "format\n"), r;
    if (kind <= 1) { int b = -1; static const speed_t B[] = {B9600, B38400, B115200, B300}; static const char *N[] = {"9600", "38400", "115200", "none"}; for (int k = 0; k < 8000; ++k) { termios q; tcgetattr(aux, &q); b = -1; for (int i = 0; i < 4; ++i) if (cfgetospeed(&q) == B[i]) b = i; if (b != 3) break; usleep(1000); } r += b < 0 ? "?" : N[b]; shut(aux); }
    if (kind == 2) r += t.find("Connecting to: localhost [" + std::to_string(port) + "]") != std::string::npos || t.find("Connecting to: 127.0.0.1 [" + std::to_string(port) + "]") != std::string::npos ? "connecting" : "?";
    if (kind == 3) r += t.find("Listening on port: " + std::to_string(port)) != std::string::npos ? "listening" : "?";
    if (t.find("Hex format\n") != std::string::npos) r += ",hex"; if (t.find("Ascii format\n") != std::string::npos) r += ",ascii"; return r; }
  if (o == "type") { std::string t = text(c.s(0)); if (write(in, t.data(), t.size()) < 0) return "?"; std::string w = take(wire, c.i(1)), s = take(scr, c.i(2)); return out(w) + ";" + out(s); } // text, how much comes out at the other end, on the screen
  if (o == "arrive") { std::string t = text(c.s(0)); *bad = c.i(2);  if (write(wire, t.data(), t.size()) < 0) return "?"; return out(take(scr, c.i(1))); }
  if (o == "eof") { shut(in); usleep(1000); return "ok"; }
  if (o == "hangup") { shut(wire); std::string t = take(scr, 0, "Hung Up.\n"); size_t p = t.find("Hung Up.\n"); if (p == std::string::npos) return out(t); left = t.substr(p + 9); return out(t.substr(0, p + 9)); }
  if (o == "finish") { std::string t = left.find("Passed") != std::string::npos ? left : left + take(scr, 0, "Passed\n"); left.clear(); std::string r = finish(); return (t.find("Passed") != std::string::npos ? "passed," : "") + r; }
  return "?";
}
