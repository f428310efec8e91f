// Common loop of the drivers: one command per line on stdin, one answer per line on stdout.
#ifndef VERIF_DRV_HPP_
#define VERIF_DRV_HPP_
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <unistd.h>
namespace drv {
inline std::string dec(const std::string &s) {
  if (s == "%e") return "";
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1) { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
    else o += s[i];
  }
  return o;
}
inline std::string esc(const std::string &s) {
  if (s.empty()) return "%e";
  std::string o; char b[8];
  for (unsigned char ch : s) {
    if (ch >= 33 && ch < 127 && ch != '%' && ch != '[' && ch != ']' && ch != ',') o += (char)ch;
    else { snprintf(b, sizeof b, "%%%02x", ch); o += b; }
  }
  return o;
}
struct Cmd {
  std::string op; std::vector<std::string> a;
  long i(size_t k) const { return strtol(a.at(k).c_str(), 0, 10); }
  std::string s(size_t k) const { return dec(a.at(k)); }
  std::vector<std::string> ls(size_t k) const {
    std::vector<std::string> r; std::string t = a.at(k);
    if (t.size() < 2 || t == "[]") return r;
    t = t.substr(1, t.size() - 2); int depth = 0; std::string cur;
    for (char ch : t) { if (ch == '[') ++depth; if (ch == ']') --depth; if (ch == ',' && depth == 0) { r.push_back(cur); cur.clear(); } else cur += ch; }
    r.push_back(cur); return r;
  }
  std::vector<std::string> strs(size_t k) const { auto v = ls(k); for (auto &x : v) x = dec(x); return v; }
  std::vector<long> li(size_t k) const { std::vector<long> r; for (auto &x : ls(k)) r.push_back(strtol(x.c_str(), 0, 10)); return r; }
  // every integer of a nested list
  std::vector<long> flat(size_t k) const {
    std::vector<long> r; std::string t = a.at(k), cur;
    for (char ch : t + ",") { if (ch == '[' || ch == ']' || ch == ',') { if (!cur.empty()) r.push_back(strtol(cur.c_str(), 0, 10)); cur.clear(); } else cur += ch; }
    return r;
  }
};
template <class It> std::string join(It b, It e) { std::ostringstream o; bool f = true; for (; b != e; ++b) { if (!f) o << ","; f = false; o << *b; } return o.str(); }
} // namespace drv
using drv::Cmd;
void drv_reset();
std::string drv_do(const Cmd &c);
#ifndef DRV_NO_MAIN
inline void drv_line(const std::string &line) {
  std::istringstream in(line); Cmd c; std::string t; in >> c.op; while (in >> t) c.a.push_back(t);
  std::string r;
  if (c.op == "reset") { drv_reset(); r = "ok"; } else r = drv_do(c);
  r += "\n";
  fwrite(r.data(), 1, r.size(), stdout); fflush(stdout);
}
#ifdef DRV_FORK
#include <sys/wait.h>
// every script (from one reset to the next) runs in a process of its own
int main(int argc, char **argv) {
  std::string line; std::vector<std::vector<std::string> > blocks;
  while (std::getline(std::cin, line)) { if (line == "reset" || blocks.empty()) blocks.emplace_back(); blocks.back().push_back(line); }
  for (auto &b : blocks) {
    pid_t p = fork();
    if (p == 0) { for (auto &l : b) drv_line(l); fflush(stdout); _exit(0); }
    int st = 0; waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); }
  }
  return 0;
}
#else
int main(int argc, char **argv) {
  std::string line;
  while (std::getline(std::cin, line)) drv_line(line);
  return 0;
}
#endif
#endif
#endif
