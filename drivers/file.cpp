#include "drv.hpp"
#include "fsroot.hpp"
#include <ecl/devices/ofile.hpp>
#include <ecl/devices/detail/error_handler.hpp>
#include <ecl/devices/detail/exception_handler_pos.hpp>
using namespace ecl;
static std::unique_ptr<OFile> f[3];
void drv_reset() { for (auto &x : f) x.reset(new OFile()); fresh(); }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; int i = 0; if (o != "mode" && o != "look" && o != "fds" && o != "err") i = c.i(0);
  if (root.empty()) drv_reset();
  OFile *p = f[i].get();
  auto res = [&](long v, bool good) { return good ? "ok:" + std::to_string(v) : std::to_string(v) + ":" + flag(p->error().flag()); };
  if (o == "mode") return "ok";
  if (o == "new") { f[i].reset(); f[i].reset(new OFile()); return "ok"; }
  if (o == "endbad") { fault = "fclose"; fault_e = EIO; f[i].reset(); fault = ""; f[i].reset(new OFile()); return "ok"; }
  if (o == "make") { f[i].reset(); std::string r = grab([&]() { f[i].reset(new OFile(path(c.s(1)), c.i(2) ? Append : New)); return std::string("ok:1"); }); if (!f[i]) f[i].reset(new OFile()); return r; }
  if (o == "open" || o == "openbad") return grab([&]() { if (o == "openbad") { fault = c.s(3); fault_e = num(c.s(4)); } bool b = p->open(path(c.s(1)), c.i(2) ? Append : New); return res(b, b); });
  if (o == "close" || o == "closebad") return grab([&]() { if (o == "closebad") { fault = "fclose"; fault_e = num(c.s(1)); } bool b = p->close(); return res(b, b); });
  if (o == "isopen") return p->open() ? "1" : "0";
  if (o == "name") { std::string n = p->filename(); return n.compare(0, root.size(), root) ? "!" + n : n == path("long") ? "long" : n.substr(root.size()); }
  if (o == "w" || o == "wbad") return grab([&]() { if (o == "wbad") { fault = "fwrite"; fault_e = ENOSPC; }
    long way = c.i(1), n = c.i(3), r; char ch = c.s(2)[0]; std::vector<char> v(n, ch); std::unique_ptr<char[]> q(new char[n]); memset(q.get(), ch, n);
    if (way == 0 && n == 1) r = p->write(ch); else if (way == 2) r = p->write(v); else r = p->write(q.get(), (unsigned long)n);
    return res(r, r >= 0); });
  if (o == "flush" || o == "flushbad") return grab([&]() { if (o == "flushbad") { fault = "fflush"; fault_e = EIO; } bool b = p->flush(); return res(b, b); });
  if (o == "look") return look(c.s(0));
  if (o == "fds") return std::to_string(fds() - base);
  if (o == "err") { std::string k = c.s(0); errno = num(c.s(1)); int e = errno; 
    StandardException x = k == "open" ? devices::open_exception(LOC, "n") : k == "close" ? devices::close_exception(LOC, "n") : k == "write" ? devices::write_exception(LOC) : k == "read" ? devices::read_exception(LOC) : devices::sync_exception(LOC, "n");
    errno = e; Error y = k == "open" ? devices::open_error() : k == "close" ? devices::close_error() : k == "write" ? devices::write_error() : k == "read" ? devices::read_error() : devices::sync_error();
    return flag(x.flag()) + (x.flag() == y.flag() ? "" : "!" + flag(y.flag())); }
  return "?";
}
