// N06: time-optimal parametrization of every small waypoint path, against the definition of the
// blended path and an independent time-optimal reference computed by exact linear programs over a
// grid of path positions; every order of queries, with clones.
#include <common_robotics_utilities/time_optimal_trajectory_parametrization.hpp>
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include "mc.hpp"
using namespace common_robotics_utilities::time_optimal_trajectory_parametrization;
using V = Eigen::VectorXd;
namespace
{
V vec(std::initializer_list<double> l) { V v(static_cast<ssize_t>(l.size())); ssize_t i = 0; for (double d : l) v[i++] = d; return v; }
std::string show(const V& v) { std::string s = "("; for (ssize_t i = 0; i < v.size(); i++) s += mc::str(i ? "," : "", v[i]); return s + ")"; }
std::string show(const std::vector<V>& p) { std::string s; for (auto& v : p) s += show(v); return s; }

// The path a waypoint list stands for: straight segments joined by arcs that stay within the allowed
// deviation and use at most half of each segment.
struct Piece { bool arc, stop = false; V a, t; V x, y; double r = 1, len = 0; };
struct Ref
{
  std::vector<Piece> pieces; double length = 0; bool corner = false, reversal = false; std::vector<V> sharp;
  static void line(Ref& f, const V& a, const V& b)
  { const double l = (b - a).norm(); if (l < 1e-9) return; Piece p; p.arc = false; p.a = a; p.t = (b - a) / l; p.len = l; f.pieces.push_back(p); f.length += l; }
  Ref(const std::vector<V>& in, double dev)
  {
    std::vector<V> w; for (auto& v : in) if (w.empty() || (v - w.back()).norm() > 1e-9) w.push_back(v);
    V at = w.front();
    for (size_t i = 1; i < w.size(); i++)
    {
      if (i + 1 == w.size()) { line(*this, at, w[i]); break; }
      const V d1 = (w[i] - w[i - 1]).normalized(), d2 = (w[i + 1] - w[i]).normalized();
      const double angle = std::acos(std::clamp(d1.dot(d2), -1.0, 1.0));
      if (angle < 1e-6) { line(*this, at, w[i]); at = w[i]; continue; }
      if (angle > M_PI - 1e-6 && dev > 0)
      {
        // turning back on the spot, as early as the deviation allows (known finding: without stopping)
        const double d = std::min({0.5 * (w[i] - w[i - 1]).norm(), 0.5 * (w[i + 1] - w[i]).norm(), dev});
        reversal = true; sharp.push_back(w[i] - d * d1); line(*this, at, w[i] - d * d1); pieces.back().stop = true; at = w[i] + d * d2; continue;
      }
      if (dev <= 0) { corner = true; sharp.push_back(w[i]); line(*this, at, w[i]); at = w[i]; continue; }
      // an arc tangent to both segments a distance d before and after the waypoint comes within
      // d tan(angle/4) of the waypoint
      const double d = std::min({0.5 * (w[i] - w[i - 1]).norm(), 0.5 * (w[i + 1] - w[i]).norm(), dev / std::tan(0.25 * angle)});
      line(*this, at, w[i] - d * d1);
      Piece p; p.arc = true; p.r = d / std::tan(0.5 * angle); p.len = angle * p.r;
      const V n = (d2 - d1.dot(d2) * d1).normalized();     // towards the centre
      p.a = w[i] - d * d1 + p.r * n; p.x = -n; p.y = d1;
      pieces.push_back(p); length += p.len;
      at = w[i] + d * d2;
    }
  }
  double distance(const V& q) const
  {
    double best = 1e300;
    for (auto& p : pieces)
    {
      if (!p.arc) { const double s = std::clamp((q - p.a).dot(p.t), 0.0, p.len); best = std::min(best, (p.a + s * p.t - q).norm()); continue; }
      const V d = q - p.a; const double u = d.dot(p.x), v = d.dot(p.y);
      const double th = std::clamp(std::atan2(v, u), 0.0, p.len / p.r);
      best = std::min(best, (p.a + p.r * (std::cos(th) * p.x + std::sin(th) * p.y) - q).norm());
    }
    return best;
  }
  // Time-optimal duration: squared path speed x and path acceleration u obey linear constraints at
  // every path position; backward pass over the controllable speeds, greedy forward pass.
  struct Row { double a, b, c; };     // a x + b u <= c
  static double extremum(const std::vector<Row>& rows, bool of_x)   // max of x (or u) over the polygon
  {
    double best = -1e300;
    for (size_t i = 0; i < rows.size(); i++)
      for (size_t j = i + 1; j < rows.size(); j++)
      {
        const double det = rows[i].a * rows[j].b - rows[j].a * rows[i].b;
        if (std::abs(det) < 1e-14) continue;
        const double x = (rows[i].c * rows[j].b - rows[j].c * rows[i].b) / det;
        const double u = (rows[i].a * rows[j].c - rows[j].a * rows[i].c) / det;
        bool ok = true;
        for (auto& r : rows) if (r.a * x + r.b * u > r.c + 1e-7 * (1 + std::abs(r.c) + std::abs(r.a * x) + std::abs(r.b * u))) { ok = false; break; }
        if (ok) best = std::max(best, of_x ? x : u);
      }
    return best;
  }
  double duration(const V& vmax, const V& amax, int per_unit, bool stopping = false) const
  {
    std::vector<std::vector<Row>> rows; std::vector<double> step; std::vector<bool> stop;
    auto constrain = [&](const Piece& p, double s)
    {
      V t = p.t, c = V::Zero(p.a.size());
      if (p.arc) { const double th = s / p.r; t = -std::sin(th) * p.x + std::cos(th) * p.y; c = -(std::cos(th) * p.x + std::sin(th) * p.y) / p.r; }
      std::vector<Row> r; r.push_back({-1, 0, 0});
      for (ssize_t j = 0; j < t.size(); j++)
      {
        if (std::abs(t[j]) > 1e-9) r.push_back({t[j] * t[j], 0, vmax[j] * vmax[j]});
        if (std::abs(t[j]) > 1e-9 || std::abs(c[j]) > 1e-9) { r.push_back({c[j], t[j], amax[j]}); r.push_back({-c[j], -t[j], amax[j]}); }
      }
      return r;
    };
    for (auto& p : pieces)
    {
      const int n = std::max(20, static_cast<int>(p.len * per_unit));
      for (int i = 0; i < n; i++)
      {
        auto r = constrain(p, p.len * i / n); auto e = constrain(p, p.len * (i + 1) / n);
        rows.push_back(r); step.push_back(p.len / n); stop.push_back(stopping && p.stop && i + 1 == n);
        // the speed limit also holds at the end of the piece
        if (i + 1 == n) for (auto& q : e) if (q.b == 0 && q.a > 0) rows.back().push_back({q.a, 2 * q.a * p.len / n, q.c});
      }
    }
    const size_t n = rows.size(); std::vector<double> K(n + 1, 0.0);
    for (size_t i = n; i-- > 0;)
    {
      auto r = rows[i]; const double d = step[i];
      r.push_back({1, 2 * d, (stop[i] ? 0 : K[i + 1]) + 1e-12}); r.push_back({-1, -2 * d, 0});
      K[i] = std::max(0.0, extremum(r, true));
    }
    double x = 0, T = 0;
    for (size_t i = 0; i < n; i++)
    {
      auto r = rows[i]; const double d = step[i];
      r.push_back({1, 2 * d, (stop[i] ? 0 : K[i + 1]) + 1e-12}); r.push_back({-1, -2 * d, 0});
      r.push_back({1, 0, x}); r.push_back({-1, 0, -x});
      double u = extremum(r, false); if (u < -1e200) u = ((stop[i] ? 0 : K[i + 1]) - x) / (2 * d);
      const double y = std::max(0.0, x + 2 * d * u), speed = std::sqrt(x) + std::sqrt(y);
      if (speed < 1e-9) return 1e300;
      T += 2 * d / speed; x = y;
    }
    return T;
  }
};

struct Limits { V v, a; };
double worst_vel = 0, worst_dev = 0, worst_acc = 0, worst_con = 0, worst_fast = 0, worst_slow = 0, worst_len = 0;

void check_path(const std::vector<V>& path, const Limits& l, double dev, double ts, std::string* at_corners = nullptr)
{
  const std::string what = mc::str("path ", show(path), ", velocity ", show(l.v), ", acceleration ", show(l.a), ", deviation ", dev, ", step ", ts);
  if (mc::want_note()) mc::note(what);
  const Ref ref(path, dev);
  std::unique_ptr<PositionVelocityTrajectoryInterface> t;
  try { t = ParametrizePathTOTP(path, l.v, l.a, dev, ts); }
  catch (const std::exception& e) { mc::fail(what + ": refused: " + e.what()); }
  mc::transition();
  const double T = t->Duration();
  if (!(T > 0) || !std::isfinite(T)) mc::fail(what + mc::str(": duration ", T));
  const auto s0 = t->GetPositionVelocityTimePoint(0), s1 = t->GetPositionVelocityTimePoint(T), s2 = t->GetPositionVelocityTimePoint(T + 0.5);
  auto near = [&](const char* n, const V& got, const V& want) { if (got.size() != want.size() || !((got - want).norm() <= 1e-6)) mc::fail(what + mc::str(": ", n, " ", show(got), ", not ", show(want))); };
  const V zero = V::Zero(l.v.size());
  near("start", s0.Position(), path.front()); near("velocity at the start", s0.Velocity(), zero);
  near("end", s1.Position(), path.back()); near("velocity at the end", s1.Velocity(), zero);
  near("position after the end", s2.Position(), path.back()); near("velocity after the end", s2.Velocity(), zero);
  if (s0.Time() != 0 || s1.Time() != T) mc::fail(what + ": time of a point");
  const double limit = ref.duration(l.v, l.a, 150), longest = ref.reversal ? ref.duration(l.v, l.a, 150, true) : limit;
  worst_fast = std::max(worst_fast, (limit - T) / limit); worst_slow = std::max(worst_slow, (T - longest - 10 * ts) / longest);
  // known finding: corners without blending are passed without slowing, so only the velocity limits bind there
  double least = limit;
  if (ref.corner) { least = 0; for (ssize_t j = 0; j < zero.size(); j++) { double way = 0; for (size_t k = 1; k < path.size(); k++) way += std::abs(path[k][j] - path[k - 1][j]); least = std::max(least, way > 0 ? way / l.v[j] : 0); } }
  if (T < least * 0.985 - 10 * ts) mc::fail(what + mc::str(": lasts ", T, ", less than the shortest possible ", least));
  if (T > longest * 1.015 + 10 * ts) mc::fail(what + mc::str(": lasts ", T, ", the shortest possible is ", limit));
  const double h = 0.005; const int N = static_cast<int>(std::ceil(T / h)); const int W = 4;
  std::vector<V> P, S; std::vector<double> at;
  std::vector<double> nearest(path.size(), 1e300);
  for (int i = 0; i <= N; i++)
  {
    const double tt = std::min(T, i * h); const auto s = t->GetPositionVelocityTimePoint(tt);
    mc::transition();
    if (s.Time() != tt) mc::fail(what + ": time of a point");
    const V p = s.Position(), v = s.Velocity();
    if (p.size() != l.v.size() || v.size() != l.v.size() || !p.allFinite() || !v.allFinite()) mc::fail(what + mc::str(": ", show(p), " ", show(v), " at ", tt));
    for (ssize_t j = 0; j < v.size(); j++)
    {
      if (l.v[j] > 0) worst_vel = std::max(worst_vel, std::abs(v[j]) / l.v[j] - 1);
      if (std::abs(v[j]) > l.v[j] * 1.005 + 1e-9) mc::fail(what + mc::str(": velocity ", show(v), " at ", tt));
    }
    const double d = ref.distance(p); worst_dev = std::max(worst_dev, d);
    if (d > 2e-6) mc::fail(what + mc::str(": ", show(p), " at ", tt, " is ", d, " off the path"));
    for (size_t k = 0; k < path.size(); k++) nearest[k] = std::min(nearest[k], (p - path[k]).norm());
    P.push_back(p); S.push_back(v); at.push_back(tt);
  }
  const double top = l.v.norm();
  for (size_t k = 0; k < path.size(); k++) if (nearest[k] > dev + top * h) mc::fail(what + mc::str(": passes waypoint ", k, " only within ", nearest[k]));
  double travelled = 0; for (size_t i = 1; i < P.size(); i++) travelled += (P[i] - P[i - 1]).norm();
  worst_len = std::max(worst_len, std::abs(travelled - ref.length) / ref.length);
  if (std::abs(travelled - ref.length) > 0.03 * ref.length + (ref.reversal || ref.corner ? 2 * top * h : 0)) mc::fail(what + mc::str(": travels ", travelled, ", the path is ", ref.length, " long"));
  {
    const double amax = l.a.maxCoeff();
    // known finding: corners that are not blended are passed without stopping; everything away from them counts
    std::vector<int> near_sharp(P.size() + 1, 0);
    for (size_t i = 0; i < P.size(); i++) { bool close = false; if (!at_corners) for (auto& c : ref.sharp) if ((P[i] - c).norm() <= 1.5 * top * h) close = true; near_sharp[i + 1] = near_sharp[i] + close; }
    auto breaks = [&](const std::string& m) { if (at_corners) *at_corners = m; else mc::fail(m); };
    auto smooth = [&](size_t from, size_t to) { return near_sharp[to + 1] == near_sharp[from]; };
    for (size_t i = 1; i < P.size(); i++)
    {
      const double dt = at[i] - at[i - 1]; const V off = (P[i] - P[i - 1]) - 0.5 * dt * (S[i] + S[i - 1]);
      if (!smooth(i - 1, i)) continue;
      if (dt > 1e-4) worst_con = std::max(worst_con, off.norm() / (dt * (amax * (dt + 4 * ts))));
      if (off.norm() > dt * (amax * (dt + 4 * ts))) breaks(what + mc::str(": velocity ", show(S[i]), " at ", at[i], " but moved ", show(P[i] - P[i - 1]), " in ", dt));
      if (i >= W && smooth(i - W, i))
      {
        const double w = at[i] - at[i - W];
        for (ssize_t j = 0; j < S[i].size(); j++)
        {
          if (l.a[j] > 0) worst_acc = std::max(worst_acc, std::abs(S[i][j] - S[i - W][j]) / (l.a[j] * (w + 4 * ts)));
          if (std::abs(S[i][j] - S[i - W][j]) > 1.05 * l.a[j] * (w + 4 * ts) + 1e-9) breaks(what + mc::str(": velocity from ", show(S[i - W]), " to ", show(S[i]), " within ", w, " at ", at[i]));
        }
      }
    }
  }
  mc::Hash H; for (auto& p : path) for (ssize_t j = 0; j < p.size(); j++) H.add(p[j]);
  H.add(dev).add(T); mc::state(H.h);
}
std::vector<V> waypoints(const std::vector<V>& grid, int n, bool distinct = true)
{
  std::vector<V> p;
  for (int i = 0; i < n; i++) { p.push_back(mc::pick(grid)); if (distinct && i && p[i] == p[i - 1]) throw mc::Skip{}; }
  return p;
}
const std::vector<Limits>& limits2()
{
  static const std::vector<Limits> l{{vec({0.97, 1.03}), vec({1.1, 0.9})}, {vec({0.31, 0.83}), vec({1.07, 0.53})}, {vec({5, 5}), vec({0.93, 2.11})}, {vec({1, 1.1}), vec({9.7, 10.3})}};
  return l;
}
std::vector<V> grid2(int nx, int ny) { std::vector<V> g; for (int x = 0; x < nx; x++) for (int y = 0; y < ny; y++) g.push_back(vec({double(x), double(y)})); return g; }

void queries(const std::vector<V>& path, const V& v, const V& a, double dev, double ts, int depth)
{
  const std::string what = mc::str("path ", show(path), ", deviation ", dev, ", step ", ts);
  using Ptr = std::unique_ptr<PositionVelocityTrajectoryInterface>;
  struct Base { double T; std::vector<double> times; std::vector<PositionVelocityTimePoint> want; };
  static std::map<std::string, Base> bases;      // answers of a trajectory asked a single question
  if (!bases.count(what))
  {
    Base b; b.T = ParametrizePathTOTP(path, v, a, dev, ts)->Duration();
    b.times = {0, b.T / 3, b.T * 0.6 - 1.5 * ts, b.T * 0.6, std::nextafter(b.T, 0), b.T, b.T + 1};
    for (double x : b.times) b.want.push_back(ParametrizePathTOTP(path, v, a, dev, ts)->GetPositionVelocityTimePoint(x));
    bases[what] = b;
  }
  const Base& b = bases[what];
  Ptr t = ParametrizePathTOTP(path, v, a, dev, ts), other;
  std::string hist;
  for (int i = 0; i < depth; i++)
  {
    const int op = mc::choose(static_cast<int>(b.times.size()) + 3);
    if (op < static_cast<int>(b.times.size()))
    {
      const auto s = t->GetPositionVelocityTimePoint(b.times[op]); hist += mc::str(" ask ", b.times[op]);
      if (s.Position() != b.want[op].Position() || s.Velocity() != b.want[op].Velocity() || s.Time() != b.want[op].Time())
        mc::fail(what + mc::str(" after", hist, ": ", show(s.Position()), " ", show(s.Velocity()), ", not ", show(b.want[op].Position()), " ", show(b.want[op].Velocity())));
    }
    else if (op == static_cast<int>(b.times.size())) { other = std::move(t); t = other->Clone(); hist += " clone"; }
    else if (op == static_cast<int>(b.times.size()) + 1) { t = t->Clone(); other.reset(); hist += " clone and drop"; }
    else { if (!other) throw mc::Skip{}; std::swap(t, other); hist += " back"; }
    if (t->Duration() != b.T) mc::fail(what + " after" + hist + ": duration changed");
    mc::transition();
  }
  mc::Hash H; H.add(what).add(hist); mc::state(H.h);
}
}
MC_HARNESS("N06", "every waypoint path over small grids x limits x deviations x steps against the definition of the blended path and an independent time-optimal reference; every sequence of queries, clones and releases; every kind of ill-defined input; a state is a distinct (path, deviation, duration) or history")
void mc::run()
{
  const double inf = std::numeric_limits<double>::infinity(), nan = std::nan("");
  mc::scenario("two and three waypoints, two joints", [&] {
    const int n = 2 + mc::choose(2); const auto path = waypoints(grid2(3, 2), n);
    check_path(path, mc::pick(limits2()), mc::pick(std::vector<double>{0, 0.1, 0.5}), mc::thorough() ? mc::pick(std::vector<double>{0.002, 0.001}) : 0.002);
  }, 4);
  mc::scenario("one joint", [&] {
    std::vector<V> g; for (double x : {0.0, 1.0, 2.5}) g.push_back(vec({x}));
    const auto path = waypoints(g, 2 + mc::choose(2));
    Limits l{vec({mc::pick(std::vector<double>{0.4, 1.3, 20})}), vec({mc::pick(std::vector<double>{0.6, 1.7, 9.1})})};
    check_path(path, l, mc::pick(std::vector<double>{0, 0.1}), 0.002);
  }, 4);
  mc::scenario("three joints", [&] {
    std::vector<V> g; for (int i = 0; i < 5; i++) g.push_back(vec({double(i & 1), double((i >> 1) & 1), 0.7 * ((i >> 2) & 1)}));
    const auto path = waypoints(g, 3);
    const std::vector<Limits> ls{{vec({0.97, 1.03, 0.41}), vec({1.1, 0.9, 2.3})}, {vec({3, 4, 5}), vec({2.3, 1.7, 0.77})}};
    check_path(path, mc::pick(ls), mc::pick(std::vector<double>{0, 0.1}), 0.002);
  }, 4);
  mc::scenario("four waypoints", [&] {
    const auto path = waypoints(mc::thorough() ? grid2(3, 2) : grid2(2, 2), 4);
    check_path(path, limits2()[mc::choose(mc::by_tier(2, 4))], mc::pick(std::vector<double>{0.1, 0.5}), 0.005);
  }, 4);
  mc::scenario("many waypoints", [&] {
    // zigzags, staircases and scattered waypoints in a few to many joints
    const int n = mc::pick(std::vector<int>{5, 7, 12, 20}), joints = mc::pick(std::vector<int>{2, 3, 7}), kind = mc::choose(3), seed = mc::choose(mc::by_tier(2, 6)); std::vector<V> path; Limits l{V(joints), V(joints)};
    for (int j = 0; j < joints; j++) { l.v[j] = 0.6 + 0.173 * ((j * 5 + seed * 3) % 7); l.a[j] = 0.7 + 0.291 * ((j * 3 + seed) % 5); }
    for (int i = 0; i < n; i++)
    {
      V p(joints);
      for (int j = 0; j < joints; j++) p[j] = kind == 0 ? (j == 0 ? 0.9 * i : 0.31 * j * ((i + j) % 2)) : kind == 1 ? 0.8 * ((i + joints - 1 - j) / joints) : 0.13 * ((i * (7 + 2 * j) + j * 11 + seed * i * i) % 17);
      path.push_back(p);
    }
    check_path(path, l, mc::pick(std::vector<double>{0.05, 0.3}), 0.005);
  }, 4);
  mc::scenario("repeated waypoints", [&] {
    const auto g = grid2(2, 2); std::vector<V> path; bool repeat = false;
    for (int i = 0; i < 4; i++) { path.push_back(mc::pick(g)); if (i && path[i] == path[i - 1]) repeat = true; }
    if (!repeat || (path[0] == path[1] && path[1] == path[2] && path[2] == path[3])) throw mc::Skip{};
    check_path(path, limits2()[0], mc::pick(std::vector<double>{0, 0.1}), 0.005);
  }, 4);
  mc::scenario("a joint that may not move", [&] {
    std::vector<V> path{vec({0, 1}), vec({1, 1}), vec({2, 1})}; if (mc::flip()) path[1][0] = 3;
    if (mc::flip()) for (auto& p : path) std::swap(p[0], p[1]);
    const ssize_t still = path[0][0] == path[1][0] ? 0 : 1;
    Limits l{vec({0.7, 0.7}), vec({1.3, 1.3})}; const int z = mc::choose(3);
    if (z != 1) l.v[still] = 0; if (z != 0) l.a[still] = 0;
    check_path(path, l, mc::flip() ? 0.1 : 0.0, 0.002);
  }, 2);
  mc::scenario("queries and clones", [&] {
    const int which = mc::choose(3);
    if (which == 0) queries({vec({0}), vec({0.3})}, vec({1}), vec({2}), 0, 0.05, mc::by_tier(5, 6));
    if (which == 1) queries({vec({0, 0}), vec({1, 0}), vec({1, 1})}, limits2()[0].v, limits2()[0].a, 0.1, 0.01, mc::by_tier(3, 4));
    if (which == 2) queries({vec({0, 0}), vec({1, 0}), vec({1, 1})}, limits2()[3].v, limits2()[3].a, 0, 0.01, mc::by_tier(3, 4));
  }, 3);
  mc::scenario("small steps between queries", [&] {
    // two queries a part of a time step to some steps apart, in both orders, anywhere: each answered as if it was the only one
    const bool corner = mc::flip(), blend = mc::flip(); const double ts = blend ? 0.05 : 0.01; const std::vector<V> path = corner ? std::vector<V>{vec({0, 0}), vec({1, 0}), vec({1, 1})} : std::vector<V>{vec({0, 0}), vec({0.7, 0.3})};
    const Limits l{vec({1, 1}), vec({1, 1})}; const auto make = [&] { return ParametrizePathTOTP(path, l.v, l.a, corner && blend ? 0.1 : 0.0, ts); };
    static std::map<int, std::unique_ptr<PositionVelocityTrajectoryInterface>> made; auto& first = made[2 * corner + blend]; if (!first) { first = make(); } const double T = first->Duration();
    const int n = 101; const double x = T * mc::choose(n) / (n - 1), d = mc::pick(std::vector<double>{0.01, 0.4, 0.8, 0.99, 1.0, 1.5, 3, 7, 30}) * ts * (mc::flip() ? -1 : 1), y = x + d; if (!(y >= 0)) throw mc::Skip{};
    const auto a = first->Clone(), b = first->Clone(); a->GetPositionVelocityTimePoint(x); if (mc::flip()) { a->GetPositionVelocityTimePoint(x); }
    const auto p = a->GetPositionVelocityTimePoint(y), q = b->GetPositionVelocityTimePoint(y);
    if (p.Position() != q.Position() || p.Velocity() != q.Velocity() || p.Time() != q.Time()) mc::fail(mc::str("path ", show(path), ", step ", ts, ": ", y, " after ", x, " is ", show(p.Position()), " ", show(p.Velocity()), ", not ", show(q.Position()), " ", show(q.Velocity())));
    mc::transition(2); mc::Hash H; H.add(corner).add(blend).add(x).add(y); mc::state(H.h);
  }, 2);
  mc::scenario("refusals", [&] {
    std::vector<V> path{vec({0, 0}), vec({1, 0}), vec({1, 1})}; V v = vec({1, 1.1}), a = vec({1.2, 0.9}); double dev = mc::pick(std::vector<double>{0, 0.1}), ts = 0.002;
    const int kind = mc::choose(7); const std::vector<double> bad{-1, -1e-300, nan, inf, -inf, 0}; std::string what;
    const ssize_t j = mc::choose(2);
    if (kind == 0) { v[j] = mc::pick(bad); what = "velocity " + show(v); }
    if (kind == 1) { a[j] = mc::pick(bad); what = "acceleration " + show(a); }
    if (kind == 2) { ts = mc::pick(bad); what = mc::str("step ", ts); }
    if (kind == 3) { dev = mc::pick(std::vector<double>{nan, inf, -inf}); what = mc::str("deviation ", dev); }
    if (kind == 4) { path[mc::choose(3)][j] = mc::pick(std::vector<double>{nan, inf, -inf}); what = "path " + show(path); }
    if (kind == 5)
    {
      const int k = mc::choose(8);
      if (k == 0) path.clear(); if (k == 1) path.resize(1); if (k == 2) path = {path[0], path[0]}; if (k == 3) path = {path[0], path[0], path[0]};
      if (k == 4) v = vec({1}); if (k == 5) a = vec({1, 1, 1}); if (k == 6) path[mc::choose(3)] = vec({1, 2, 3}); if (k == 7) { path = {V(), V()}; v = a = V(); }
      what = mc::str("path ", show(path), " velocity ", show(v), " acceleration ", show(a));
    }
    if (kind == 6)
    {
      auto t = ParametrizePathTOTP(path, v, a, dev, ts); const double q = mc::pick(std::vector<double>{-1, -1e-300, nan, -inf});
      if (mc::flip()) t->GetPositionVelocityTimePoint(t->Duration() / 2);
      bool refused = false; try { t->GetPositionVelocityTimePoint(q); } catch (const std::exception&) { refused = true; }
      if (!refused) mc::fail(mc::str("query at ", q, " answered"));
    }
    else
    {
      bool refused = false; try { ParametrizePathTOTP(path, v, a, dev, ts); } catch (const std::exception&) { refused = true; }
      if (!refused) mc::fail(what + " accepted");
    }
    mc::transition(); mc::Hash H; H.add(what); mc::state(H.h);
  }, 2);
  mc::scenario("trajectory meets a switching point exactly", [&] {
    std::vector<V> path{vec({1, 0}), vec({0, 0}), vec({0, 1})};
    const double s = 5, ts = mc::pick(std::vector<double>{0.001, 0.002});
    const V v = vec({s, s}), a = vec({1, 2});
    bool refused = false; try { ParametrizePathTOTP(path, v, a, 1, ts); } catch (const std::exception&) { refused = true; }
    if (refused) { if (mc::known(ts < 0.0015 ? "totp-tie-0.001" : "totp-tie-0.002")) return; mc::fail(mc::str("path ", show(path), ", velocity ", show(v), ", acceleration ", show(a), ", deviation 1, step ", ts, ": refused")); }
    check_path(path, {v, a}, 1, ts);
  }, 2);
  mc::scenario("corners without blending", [&] {
    const int c = mc::choose(2);
    std::string broken;
    if (c) check_path({vec({0}), vec({1}), vec({0})}, {vec({0.97}), vec({1.1})}, 0.1, 0.002, &broken);
    else check_path({vec({0, 0}), vec({1, 0}), vec({1, 1})}, limits2()[0], 0, 0.002, &broken);
    if (!broken.empty() && !mc::known(c ? "totp-reversal" : "totp-unblended-corner")) mc::fail(broken);
  }, 1);
  if (getenv("N06_WORST")) fprintf(stderr, "worst vel %g dev %g acc %g consistency %g fast %g slow %g length %g\n", worst_vel, worst_dev, worst_acc, worst_con, worst_fast, worst_slow, worst_len);
}
