// P02: resampling of paths.
#include "mc.hpp"
#include <cmath>
#include <deque>
#include <limits>
#include <common_robotics_utilities/path_processing.hpp>
MC_HARNESS("P02", "every small path over a grid of points x every distance of an alphabet, against the geometric definition; a state is a distinct resampled path")
namespace pp = common_robotics_utilities::path_processing;
namespace
{
const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();
struct P { double x, y; bool operator==(const P& o) const { return x == o.x && y == o.y; } };
std::ostream& operator<<(std::ostream& o, const P& p) { return o << "(" << p.x << "," << p.y << ")"; }
double dist(const P& a, const P& b) { return std::hypot(a.x - b.x, a.y - b.y); }
P blend(const P& a, const P& b, double r) { return r == 1.0 ? b : P{a.x + (b.x - a.x) * r, a.y + (b.y - a.y) * r}; }
/// Angles with wrap-around, for a metric that is not Euclidean.
double turn(double a, double b) { double d = std::fmod(b - a, 2 * M_PI); if (d > M_PI) { d -= 2 * M_PI; } if (d < -M_PI) { d += 2 * M_PI; } return d; }
double adist(const P& a, const P& b) { return std::abs(turn(a.x, b.x)) + std::abs(a.y - b.y); }
P ablend(const P& a, const P& b, double r) { return r == 1.0 ? b : P{a.x + turn(a.x, b.x) * r, a.y + (b.y - a.y) * r}; }
template<typename Path> void check(const Path& path, double step, bool angles)
{
  const std::string what = mc::str("resampling ", mc::vstr(path), " at ", step, angles ? " with an angle" : ""); const Path before = path; const std::function<double(const P&, const P&)> d = angles ? adist : dist; const std::function<P(const P&, const P&, const double)> b = angles ? ablend : blend;
  const bool bad = !(step > 0.0); Path out; std::string error; const int t = mc::throws([&] { out = pp::ResamplePath<P, Path>(path, step, d, b); }, &error); mc::transition();
  MC_CHECK(std::equal(path.begin(), path.end(), before.begin(), before.end()), what, ": the input changed");
  if (path.size() <= 1) { MC_CHECK(t == 1 ? bad : out.size() == path.size() && std::equal(out.begin(), out.end(), path.begin()), what, ": returned ", mc::vstr(out)); return; }
  MC_CHECK(t == (bad ? 1 : 0), what, ": ", bad ? "accepted" : "threw " + error); if (bad) { return; }
  const std::string told = what + " -> " + mc::vstr(out);
  MC_CHECK(!out.empty() && out.front() == path.front() && out.back() == path.back(), told, ": other ends");
  size_t at = 0; double along = 0;   // now on the segment from path[at], this far on it
  for (size_t i = 1; i < out.size(); i++)
  {
    MC_CHECK(d(out[i - 1], out[i]) <= step * (1 + 1e-9), told, ": ", out[i - 1], " and ", out[i], " are too far apart");
    // Pass zero-length segments and, if the state is the next original one, move on.
    for (;;)
    {
      MC_CHECK(at + 1 < path.size(), told, ": ", out[i], " comes after the end"); const double length = d(path[at], path[at + 1]); if (length == 0.0) { at++; along = 0; continue; }
      const double from = d(path[at], out[i]), to = d(out[i], path[at + 1]);
      if (out[i] == path[at + 1]) { at++; along = 0; break; }
      MC_CHECK(std::abs(from + to - length) <= 1e-9 * (1 + length) && from >= along - 1e-9, told, ": ", out[i], " is not on the way from ", path[at], " to ", path[at + 1], ", or an original state is missing"); MC_CHECK(from > along + 1e-12, told, ": ", out[i], " is repeated"); along = from; break;
    }
  }
  while (at + 1 < path.size() && d(path[at], path[at + 1]) == 0.0) { at++; }
  MC_CHECK(at + 1 == path.size(), told, ": original states are missing"); mc::state(mc::Hash().add(told).h); if (mc::want_note()) { mc::note(told); }
}
template<typename Path> void paths(int most, const std::vector<P>& points, const std::vector<double>& steps, bool angles)
{
  const int n = mc::choose(most + 1); Path p; for (int i = 0; i < n; i++) { p.push_back(mc::pick(points)); }
  for (double s : steps) { check(p, s, angles); }
}
}
void mc::run()
{
  const std::vector<double> steps{0.1, 0.25, 1.0 / 3.0, 0.5, 1.0, 0.7071067811865476, 1.4142135623730951, 3.0, 1e300, INF, 0.0, -0.0, -1.0, NaN, -INF, 0x1p-1074 * 0};
  const std::vector<P> grid{{0, 0}, {1, 0}, {0, 1}, {0.3, -0.7}, {0.1, 0.2}}, line{{0, 0}, {0.1, 0}, {0.3, 0}, {1, 0}, {1 + 0x1p-52, 0}, {-2, 0}}, angle{{0, 0}, {3, 0}, {-3, 0}, {M_PI, 1}, {1.5, 0.5}};
  scenario("plane", [=] { paths<std::vector<P>>(by_tier(5, 6), grid, steps, false); });
  scenario("line", [=] { paths<std::deque<P>>(by_tier(4, 5), line, steps, false); });
  scenario("angles", [=] { paths<std::vector<P>>(by_tier(4, 5), angle, steps, true); });
  scenario("fine", [=] { paths<std::vector<P>>(3, grid, {0.001, 0.0137, 0.003}, false); });
  // Distances just over and just under a whole number of steps, near and far from the origin.
  scenario("just over", [=] { const double scale = pick(std::vector<double>{1, 1e-6, 1e3, 1e7}), off = pick(std::vector<double>{-1e-7, -1e-8, 1e-8, 1e-7}); std::vector<P> g; for (const P& q : std::vector<P>{{0, 0}, {1, 0}, {0, 4}, {-7, 0}, {130, 0}}) { g.push_back(P{q.x * scale, q.y * scale}); } paths<std::vector<P>>(3, g, {scale * (1 + off), scale * (1 + off) / 3, scale * (0.25 + off), scale * (5 + off)}, false); });
  scenario("long", [=] { std::vector<P> p; const int c = choose(by_tier(33, 303)), n = c == 0 ? 1000 : c == 1 ? 65540 : c == 2 ? 300 : 4 + c; for (int i = 0; i < n; i++) { p.push_back(P{static_cast<double>(i), static_cast<double>((i * i) % 5)}); } for (double s : {0.3, 1.0, 2.0}) { check(p, s, false); } });
}
