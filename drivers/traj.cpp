// waypoints, and trajectories interpolated through them
#define DRV_FORK
#include "drv.hpp"
#include <cmath>
#include <map>
#include <ecl/exceptions/standard_exception.hpp>
#include "file_errors.hpp"
#include <ecl/manipulators/waypoint.hpp>
#include <ecl/manipulators/trajectory.hpp>
using namespace ecl;
typedef WayPoint<JointAngles> W; typedef Trajectory<JointAngles> Tr;
static std::unique_ptr<W> w[4]; static std::unique_ptr<Tr> t[2]; static bool tension_ = false;
static std::string milli(double x) { double m = x * 1000; if (std::fabs(m - std::lround(m)) > 1e-6) return "!" + std::to_string(x); return std::to_string(std::lround(m)); }
static std::string show(const Array<double> &a) { std::string r; for (unsigned i = 0; i < a.size(); ++i) r += (i ? "," : "") + milli(a[i]); return r; }
static std::string show(const W &x) { return x.name() + "|" + milli(x.duration()) + "|" + show(x.angles()) + "|" + (x.rates_configured() ? show(x.rates()) : "-") + "|" + (x.accelerations_configured() ? show(x.accelerations()) : "-") + "|" + show(const_cast<W &>(x).nominalRates()); }
static void fill(Array<double> &a, const std::vector<long> &v) { for (unsigned i = 0; i < a.size(); ++i) a[i] = v.at(i) / 1000.0; }
// what is wrong with this trajectory? empty if nothing
static std::string facts(Tr &f, bool tens) {
  std::string bad; double D = f.duration(); unsigned n = f.size() - 1; if (!(D > 0) || D > 1e9) return "duration";
  auto W0 = f.waypoint(0), Wn = f.waypoint(n); auto add = [&](const char *m, unsigned j) { std::string x = std::string(m) + std::to_string(j); if (bad.find(x) == std::string::npos) bad += (bad.empty() ? "" : ",") + x; };
  // corners and ends are polynomials of degree five of the time since the start: short ones late in a long trajectory lose digits
  double len = 1e9; for (unsigned i = 0; i < n; ++i) len = std::min(len, f.waypoint(i).duration() / 5); double fuzz = std::pow(D / len, 5) * 1e-15, fuzzv = fuzz / len, fuzza = fuzzv / len;
  for (unsigned j = 0; j < f.dimension(); ++j) {
    double scale = 1, A = f.maxAccelerations()[j]; for (unsigned i = 0; i <= n; ++i) scale = std::max(scale, std::fabs(f.waypoint(i).angles()[j]));
    auto near = [&](double a, double b, double tol) { return std::fabs(a - b) <= tol * scale; };
    if (!near(f(j, 0), W0.angles()[j], 1e-6)) add("start", j); if (!near(f(j, D), Wn.angles()[j], 1e-4 + fuzz)) { add("end", j); if (getenv("TRAJ_DEBUG")) fprintf(stderr, "D %g end %.12g want %.12g\n", D, f(j,D), Wn.angles()[j]); }
    if (!near(f.derivative(j, 0), W0.rates()[j], 1e-5)) add("startrate", j); if (!near(f.derivative(j, D), Wn.rates()[j], 1e-5 + fuzzv)) add("endrate", j);
    if (!near(f.dderivative(j, 0), 0, 1e-4)) add("startacc", j); if (!near(f.dderivative(j, D), 0, 1e-4 + fuzza)) add("endacc", j);
    for (double e : {1e-12, 2e-5, 9e-5}) { // a hair past the end is the end
      if (!near(f(j, D + e), Wn.angles()[j], 1e-4 + fuzz)) add("pastend", j); if (!near(f.derivative(j, D + e), Wn.rates()[j], 1e-5 + fuzzv)) add("pastrate", j); if (!near(f.dderivative(j, D + e), 0, 1e-4 + fuzza)) add("pastacc", j); }
    const int N = 6000; double h = D / N, p = f(j, 0), v = f.derivative(j, 0), most = 0;
    for (int k = 1; k <= N; ++k) { double x = k == N ? D : k * h, q = f(j, x), u = f.derivative(j, x), a = f.dderivative(j, x); most = std::max(most, std::fabs(a));
      if (!(std::fabs(q - p - h * (u + v) / 2) <= A * h * h * 1.5 + (1e-7 + fuzz + h * fuzzv) * scale)) { add("jump", j); if (getenv("TRAJ_DEBUG")) fprintf(stderr, "D %g x %g jump %g\n", D, x, q - p - h * (u + v) / 2); } if (!(std::fabs(u - v) <= A * h * 1.5 + (1e-6 + fuzzv) * scale)) add("kink", j); p = q; v = u; }
    if (!(most <= A * (tens ? 1.02   : 1.001) + 1e-6 + fuzza * scale)) { add("acc", j); if (getenv("TRAJ_DEBUG")) fprintf(stderr, "acc %g max %g D %g fuzz %g\n", most, A, D, fuzza); }
  }
  if (tens) { // passes all the waypoints in between, on time
    bool ok = false; double off0 = f.waypoint(0).duration(); for (int i = 1; i <= 5 && !ok; ++i) { double x = i * off0 / 10; bool all = true; for (unsigned k = 1; k < n; ++k) { x += f.waypoint(k - 1).duration(); for (unsigned j = 0; j < f.dimension(); ++j) if (x > D || std::fabs(f(j, x) - f.waypoint(k).angles()[j]) > (1e-6 + fuzz) * (1 + std::fabs(f.waypoint(k).angles()[j]))) all = false; } ok = all; } if (!ok) add("misses", 0); }
  for (unsigned k = 0; k < n; ++k) for (unsigned j = 0; j < f.dimension(); ++j) if (std::fabs(f.waypoint(k + 1).angles()[j] - f.waypoint(k).angles()[j]) > const_cast<W &>(f.waypoint(k)).nominalRates()[j] * f.waypoint(k).duration() * (1 + 1e-9)) add("hasty", j);
  return bad;
}
void drv_reset() {}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; alarm(15); if (o == "mode") return "ok";
  try {
    if (o == "w") { w[c.i(0)].reset(c.i(1) < 0 ? new W() : new W((unsigned)c.i(1))); return "ok"; }
    if (o == "wcopy") { w[c.i(0)].reset(new W(*w[c.i(1)])); return "ok"; }
    if (o == "wassign") { *w[c.i(0)] = *w[c.i(1)]; return "ok"; }
    if (o == "wdim") { w[c.i(0)]->redimension(c.i(1)); return "ok"; }
    if (o == "angles") { fill(w[c.i(0)]->angles(), c.li(1)); return "ok"; }
    if (o == "rates") { fill(w[c.i(0)]->rates(), c.li(1)); return "ok"; }
    if (o == "accs") { fill(w[c.i(0)]->accelerations(), c.li(1)); return "ok"; }
    if (o == "noms") { fill(w[c.i(0)]->nominalRates(), c.li(1)); return "ok"; }
    if (o == "nom") { w[c.i(0)]->nominalRates(c.i(1) / 1000.0); return "ok"; }
    if (o == "dur") { w[c.i(0)]->duration(c.i(1) / 1000.0); return "ok"; }
    if (o == "name") { w[c.i(0)]->name(c.s(1)); return "ok"; }
    if (o == "wshow") return std::to_string(w[c.i(0)]->dimension()) + ":" + show(*w[c.i(0)]);
    if (o == "cmp") { W &a = *w[c.i(0)], &b = *w[c.i(1)]; std::string r; r += a == b ? "=" : "-"; r += a != b ? "#" : "-"; r += a.approx(b) ? "~" : "-"; r += a.approx(b, c.i(2) / 1000.0) ? "~" : "-"; return r; }
    if (o == "wtext") { std::ostringstream s; s << *w[c.i(0)]; std::string r; for (char ch : s.str()) if (ch == '\n') r += "$"; else if (ch == ' ') r += "_"; else r += ch; return r; }
    auto &p = t[c.i(0)];
    if (o == "t") { p.reset(c.i(1) < 0 ? new Tr() : new Tr((unsigned)c.i(1))); return "ok"; }
    if (o == "tdim") { p->redimension(c.i(1)); return "ok"; }
    if (o == "append") { p->append(*w[c.i(1)]); return "ok"; }
    if (o == "acc") { p->maxAccelerations(c.i(1) / 1000.0); return "ok"; }
    if (o == "accj") { fill(p->maxAccelerations(), c.li(1)); return "ok"; }
    if (o == "clear") { p->clear(); return "ok"; }
    if (o == "tshow") return std::to_string(p->dimension()) + ":" + std::to_string(p->size()) + ":" + show(p->maxAccelerations());
    if (o == "at") { const W &x = p->waypoint(c.i(1)); return show(x.angles()); }
    if (o == "last") return show(p->last().angles());
    if (o == "tension") { tension_ = true; p->tensionSplineInterpolation(c.i(1) / 1000.0); return "ok"; }
    if (o == "linear") { tension_ = false; p->linearSplineInterpolation(); return "ok"; }
    if (o == "facts") { std::string r = facts(*p, tension_); return r.empty() ? "good" : "bad:" + r; }
    if (o == "outside") { // asking for times it does not have
      std::string r; double D = p->duration(); for (double x : {-0.1, D + 0.01}) for (int k = 0; k < 3; ++k) { try { double y = k == 0 ? (*p)(0, x) : k == 1 ? p->derivative(0, x) : p->dderivative(0, x); (void)y; r += "?"; } catch (StandardException &e) { r += e.flag() == OutOfRangeError ? "r" : "!"; } } return r; }
  } catch (StandardException &e) { return "throw:" + flag(e.flag()); }
  return "?";
}
