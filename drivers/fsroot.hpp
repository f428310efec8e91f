// a scratch folder for files, and system calls that fail on demand (link with --wrap)
#pragma once
#include <cstdarg>
#include <cstring>
#include <fstream>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <ecl/exceptions/standard_exception.hpp>
#include "file_errors.hpp"
static std::string fault; static int fault_e;
static bool hit(const char *k) { if (fault == k) { fault = ""; errno = fault_e; return true; } return false; }
extern "C" {
int __real_open(const char *, int, ...); FILE *__real_fdopen(int, const char *); size_t __real_fwrite(const void *, size_t, size_t, FILE *); int __real_fflush(FILE *); int __real_fclose(FILE *); int __real_fputc(int, FILE *);
int __wrap_open(const char *p, int f, ...) { va_list a; va_start(a, f); mode_t m = f & O_CREAT ? va_arg(a, mode_t) : 0; va_end(a); if (hit("open")) return -1; return __real_open(p, f, m); }
FILE *__wrap_fdopen(int d, const char *m) { if (hit("fdopen")) return NULL; return __real_fdopen(d, m); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { if (f != stdout && s * n && hit("fwrite")) return 0; return __real_fwrite(p, s, n, f); }
int __wrap_fputc(int c, FILE *f) { if (f != stdout && hit("fwrite")) return EOF; return __real_fputc(c, f); }
int __wrap_fflush(FILE *f) { if (f != stdout && hit("fflush")) return EOF; return __real_fflush(f); }
int __wrap_fclose(FILE *f) { bool h = hit("fclose"); int e = errno; int r = __real_fclose(f); if (h) { errno = e; return EOF; } return r; }
}
static std::string root; static long base;
static void wipe() { if (!root.empty()) { std::string c = "rm -rf '" + root + "'"; if (system(c.c_str())) {} } root = ""; }
static long fds() { long n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) ++n; closedir(d); return n; }
static void fresh() {
  static bool once = false; if (!once) { once = true; atexit(wipe); }
  wipe(); char t[] = "/tmp/verif-file-XXXXXX"; root = mkdtemp(t); root += "/";
  mkdir((root + "dir").c_str(), 0755); std::ofstream(root + "plain") << "x"; if (symlink("loop", (root + "loop").c_str())) {} base = fds();
}
static std::string path(const std::string &n) { return root + (n == "long" ? std::string(300, 'n') : n); }
template <class F> static std::string grab(F g) { try { std::string r = g(); fault = ""; return r; } catch (ecl::StandardException &e) { fault = ""; return "throw:" + flag(e.flag()); } }
static std::string look(const std::string &n) {
  std::ifstream in(path(n).c_str(), std::ios::binary); if (!in) return "none";
  std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()), r;
  for (size_t k = 0; k < t.size();) { size_t m = k; while (m < t.size() && t[m] == t[k]) ++m; r += t[k] + std::to_string(m - k); k = m; }
  return r + ".";
}
