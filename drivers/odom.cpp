#include "drv.hpp"
#include "num.hpp"
#include <limits>
#include <vector>
#include <ecl/geometry/odometry.hpp>
using namespace ecl::odometry;
static Trajectory2D P[2]; static Odom2DTrajectory O[2]; static Odom2D E; static Pose2D V; static Twist2D T; static Position2D W;
void drv_reset() { for (int i = 0; i < 2; ++i) { P[i].resize(3, 0); O[i].resize(6, 0); } E.setZero(); V.setZero(); T.setZero(); W.setZero(); }
// all numbers are in eighths
static const double U = 0.125; static std::string nm(double v) { return num(v / U); }
template <class M> static std::string row(const M &m) { std::string s; for (int j = 0; j < m.cols(); ++j) for (int i = 0; i < m.rows(); ++i) s += (s.empty() ? "" : ",") + nm(m(i, j)); return s; }
template <class M> static std::string show(const M &m) { return "n" + std::to_string((long)m.cols()) + "," + row(m); }
template <class V> static V vec(const std::vector<long> &l, int from, int n) { V v; for (int i = 0; i < n; ++i) v(i) = l[from + i] * U; return v; }
static std::shared_ptr<Trajectory2D> ptr(const std::vector<Pose2D> &v) { return vectorToTrajectoryPtr(v); }
static std::shared_ptr<Odom2DTrajectory> ptr(const std::vector<Odom2D> &v) { return vectorToTrajectoryPtr(v); }
template <class Tr, class El> static std::string fam(Tr *q, int n, const Cmd &c) {
  const std::string &o = c.op; Tr &x = q[c.i(1)]; const Tr &cx = x;
  if (o == "vec") {
    std::vector<long> l = c.flat(3); std::vector<El> v; for (size_t i = 0; i + n <= l.size(); i += n) v.push_back(vec<El>(l, i, n));
    if (c.i(2)) { auto p = ptr(v); if (empty(p) != v.empty() || size(p) != (int)v.size()) return "!ptr"; x = *p; } else x = vectorToTrajectory(v);
    return show(x); }
  if (o == "cat") { addAtEnd(x, q[c.i(2)]); return show(x); }
  if (o == "cut") { resize(x, std::min((long)size(x), c.i(2))); return show(x); }
  if (o == "grow") { int k = size(x); resize(x, k + 1); setAt(x, k, vec<El>(c.flat(2), 0, n)); return show(x); }
  if (o == "size") return std::to_string(size(cx)) + (empty(cx) ? "1" : "0");
  if (o == "at") return c.i(2) < size(x) ? row(getAt(cx, c.i(2))) : "-";
  if (o == "set") { if (c.i(2) >= size(x)) return "-"; setAt(x, c.i(2), vec<El>(c.flat(3), 0, n)); return show(x); }
  if (o == "front") return row(getFront(cx));
  if (o == "back") return row(getBack(cx));
  return "?";
}
std::string drv_do(const Cmd &c) {
  const std::string &o = c.op; const Odom2D &e = E; const Pose2D &v = V; const Twist2D &t = T; const Position2D &w = W;
  if (o == "poses") { P[c.i(0)] = getPoses(O[c.i(1)]); return show(P[c.i(0)]); }
  if (o == "twists") return show(getTwists(O[c.i(0)]));
  if (o == "path" || o == "dist") { // at any scale
    std::string first; for (int z : {0, -14, 20}) { std::string r; auto Z = [&](double x) { return (float)std::ldexp(x, z); }; auto sq = [&](double d) { return std::ldexp(d / (U * U), -2 * z); };
      if (o == "path") { Trajectory2D q = P[c.i(0)]; for (int k = 0; k < size(q); ++k) for (int i = 0; i < 2; ++i) q(i, k) = Z(q(i, k)); const Trajectory2D &cq = q;
        double d; if (c.i(1) == 0) d = distance(Position2D(Z(c.i(2) * U), Z(c.i(3) * U)), cq); else d = distance(Pose2D(Z(c.i(2) * U), Z(c.i(3) * U), 77), cq); r = d < 0 ? "!neg" : num(sq(2 * d * d)); }
      else { Odom2D a = E, b = vec<Odom2D>(c.flat(0), 0, 6); Pose2D w = V; for (int i = 0; i < 2; ++i) { a(i) = Z(a(i)); b(i) = Z(b(i)); w(i) = Z(w(i)); } double d;
        switch (c.i(1)) { case 0: d = distance(a, b); r = num(sq(d * d)); break; case 1: r = num(sq(distanceSqared(a, b))); break; case 2: d = distance(getPose(a), getPose(b)); r = num(sq(d * d)); break; case 3: r = num(sq(distanceSqared(getPose(a), getPose(b)))); break; default: d = distance(w, a); r = num(sq(d * d)); } }
      if (!z) first = r; else if (r != first) return first + "!scale" + std::to_string(z) + ":" + r; }
    return first; }
  if (o == "load") { E = vec<Odom2D>(c.flat(0), 0, 6); return row(E); }
  if (o == "eset") { float x = c.i(1) * U; switch (c.i(0)) { case 1: setX(E, x); break; case 2: setY(E, x); break; case 3: setYaw(E, x); break; case 4: setVelocityX(E, x); break; case 5: setVelocityY(E, x); break; default: setVelocityAngular(E, x); } return row(E); }
  if (o == "vset") { float x = c.i(1) * U; switch (c.i(0)) { case 1: setX(V, x); break; case 2: setY(V, x); break; default: setYaw(V, x); } return row(V); }
  if (o == "tset") { float x = c.i(1) * U; switch (c.i(0)) { case 1: setVelocityX(T, x); break; case 2: setVelocityY(T, x); break; default: setVelocityAngular(T, x); } return row(T); }
  if (o == "wset") { float x = c.i(1) * U; switch (c.i(0)) { case 1: setX(W, x); break; default: setY(W, x); } return row(W); }
  if (o == "eget") return nm(getX(e)) + "," + nm(getY(e)) + "," + nm(getYaw(e)) + "," + nm(getVelocityX(e)) + "," + nm(getVelocityY(e)) + "," + nm(getVelocityAngular(e));
  if (o == "epart") return row(getPose(e)) + ";" + row(getTwist(e)) + ";" + row(getPosition(e)) + ";" + row(getPosition(v));
  if (o == "vget") return nm(getX(v)) + "," + nm(getY(v)) + "," + nm(getYaw(v));
  if (o == "tget") return nm(getVelocityX(t)) + "," + nm(getVelocityY(t)) + "," + nm(getVelocityAngular(t));
  if (o == "wget") return nm(getX(w)) + "," + nm(getY(w));
  return c.i(0) == 0 ? fam<Trajectory2D, Pose2D>(P, 3, c) : fam<Odom2DTrajectory, Odom2D>(O, 6, c);
}
