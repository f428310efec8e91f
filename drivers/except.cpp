#include "drv.hpp"
#include <ecl/exceptions.hpp>
#include <ecl/exceptions/standard_exception.hpp>
#include <ecl/exceptions/data_exception.hpp>
using namespace ecl;
static std::string shown(std::string w, ErrorFlag f) {
  std::string d = Error(f).what(); size_t p = w.find(d);
  if (!d.empty() && p != std::string::npos) w.replace(p, d.size(), "<" + std::to_string((int)f) + ">");
  for (char &ch : w) { if (ch == '\n') ch = '|'; if (ch == ' ') ch = '_'; }
  return w;
}
static std::unique_ptr<StandardException> e; static std::unique_ptr<DataException<std::string> > d;
static std::string ans(const StandardException &x) { return std::to_string((int)x.flag()) + ";" + x.message() + ";" + shown(x.what(), x.flag()); }
static std::string ans(const DataException<std::string> &x) { return std::to_string((int)x.flag()) + ";" + x.data() + ";" + shown(x.what(), x.flag()); }
void drv_reset() { e.reset(new StandardException("", (ErrorFlag)0)); d.reset(); }
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op;
  if (o == "raise") { std::string l = c.s(0), m = c.s(2);
    try { if (m.empty()) { throw StandardException(l.c_str(), (ErrorFlag)c.i(1)); } else throw StandardException(l.c_str(), (ErrorFlag)c.i(1), m); }
    catch (const Exception &b) { try { throw; } catch (const StandardException &x) { if (std::string(b.what()) != x.what()) return "!base"; e.reset(new StandardException(x)); return ans(x); } } }
  if (o == "again") { std::string l = c.s(0);
    try { throw StandardException(l.c_str(), *e); } catch (const std::exception &b) { const StandardException &x = dynamic_cast<const StandardException &>(b); std::string r = ans(x); e.reset(new StandardException(x)); return r; } }
  if (o == "copy") { StandardException y(*e); return ans(y); }
  if (o == "draise") { std::string l = c.s(0), m = c.s(2), v = c.s(3);
    try { if (m.empty()) throw DataException<std::string>(l.c_str(), (ErrorFlag)c.i(1), v); else throw DataException<std::string>(l.c_str(), (ErrorFlag)c.i(1), m, v); }
    catch (const DataException<std::string> &x) { v = "changed"; d.reset(new DataException<std::string>(x)); return ans(*d); } }
  if (o == "dagain") { std::string l = c.s(0); try { throw DataException<std::string>(l.c_str(), *d); } catch (const Exception &b) { const DataException<std::string> &x = dynamic_cast<const DataException<std::string> &>(b); std::string r = ans(x); d.reset(new DataException<std::string>(x)); return r; } }
  if (o == "assert") { try { ecl_assert_throw(c.i(1) != 0, StandardException(LOC, OutOfRangeError)); } catch (const StandardException &x) { return x.flag() == OutOfRangeError ? "threw" : "!flag"; } return "went_on"; }
  if (o == "debug") { try { ecl_debug_throw(StandardException(LOC, OpenError)); } catch (const StandardException &x) { return x.flag() == OpenError ? "threw" : "!flag"; } return "went_on"; }
  if (o == "throw") { ecl_try { ecl_throw(StandardException(LOC, OpenError)); } ecl_catch(const StandardException &x) { return x.flag() == OpenError ? "threw" : "!flag"; } return "went_on"; }
  return "?";
}
