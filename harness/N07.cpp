// N07: wrap-around arithmetic of continuous revolute angles against long double arithmetic.
#include "mc.hpp"
#include <cmath>
#include <limits>
#include <common_robotics_utilities/math.hpp>
namespace m = common_robotics_utilities::math;
MC_HARNESS("N07", "every single angle, pair and triple from grids of fractions of a turn over several turns with their floating-point neighbours, against extended-precision angles on the circle; a state is a distinct tuple of angles")
using mc::str;
namespace
{
using L = long double;
const L kPi = 3.14159265358979323846264338327950288L, kTurn = 2 * kPi;
// signed turn from a to b in [-pi, pi)
L turn(L a, L b) { L d = std::fmod(b - a, kTurn); if (d < -kPi) d += kTurn; if (d >= kPi) d -= kTurn; return d; }
L apart(L a, L b) { return std::fabs(turn(a, b)); }
L tolerance(double a, double b = 0, double c = 0) { return 1e-13L * (10 + std::fabs(a) + std::fabs(b) + std::fabs(c)); }
std::vector<double> grid(int per_half, int turns, bool neighbours)
{
  std::vector<double> g;
  for (int k = -2 * turns * per_half; k <= 2 * turns * per_half; k++)
  {
    const double a = M_PI * k / per_half; g.push_back(a);
    if (neighbours) { g.push_back(std::nextafter(a, 1e9)); g.push_back(std::nextafter(a, -1e9)); }
  }
  return g;
}
bool half_open(double x) { return x >= -M_PI && x < M_PI; }
void once(double x)
{
  const double w = m::EnforceContinuousRevoluteBounds(x); mc::transition();
  if (!half_open(w)) mc::fail(str(x, " wraps to ", w));
  if (apart(x, w) > tolerance(x)) mc::fail(str(x, " wraps to ", w, ", another angle"));
  if (half_open(x) && x < M_PI - 1e-15 && std::fabs(x - w) > 1e-15) mc::fail(str(x, " needs no wrapping but becomes ", w));
  mc::Hash h; h.add(x); mc::state(h.h);
}
void pair(double a, double b)
{
  const L t = tolerance(a, b), shortest = apart(a, b); mc::transition(5);
  const double d = m::ContinuousRevoluteSignedDistance(a, b);
  if (!half_open(d)) mc::fail(str("difference ", a, " to ", b, " is ", d));
  if (std::fabs(std::fabs((L)d) - shortest) > t) mc::fail(str("difference ", a, " to ", b, " is ", d, ", the shortest turn is ", (double)turn(a, b)));
  if (shortest < kPi - t && std::fabs(d - turn(a, b)) > t) mc::fail(str("difference ", a, " to ", b, " is ", d, ", the shortest turn is ", (double)turn(a, b)));
  const double e = m::ContinuousRevoluteDistance(a, b), f = m::ContinuousRevoluteDistance(b, a);
  if (!(e >= 0 && e <= M_PI) || std::fabs(e - shortest) > t) mc::fail(str("distance ", a, " to ", b, " is ", e));
  if (std::fabs(e - f) > t) mc::fail(str("distance ", a, " to ", b, " is ", e, " but back it is ", f));
  const double s = m::AddContinuousRevoluteValues(a, d);
  if (!half_open(s) || apart(s, b) > t) mc::fail(str(a, " plus the difference to ", b, " is ", s));
  const double p = m::AddContinuousRevoluteValues(a, b);
  if (!half_open(p) || apart(p, (L)a + b) > t) mc::fail(str(a, " plus ", b, " is ", p));
  const double r = m::GetContinuousRevoluteRange(a, b);
  L forward = std::fmod((L)b - a, kTurn); if (forward < 0) forward += kTurn;
  if (!(r >= 0 && r <= 2 * M_PI) || (std::fabs(r - forward) > t && std::fabs(std::fabs(r - forward) - kTurn) > t)) mc::fail(str("range ", a, " to ", b, " is ", r, ", not ", (double)forward));
  if (a == b && r != 0) mc::fail(str("range ", a, " to itself is ", r));
  for (double q : {-1.0, 0.0, 0.25, 0.5, 0.875, 1.0, 7.0})
  {
    const double i = m::InterpolateContinuousRevolute(a, b, q), c = std::min(1.0, std::max(0.0, q)); mc::transition();
    if (!half_open(i)) mc::fail(str("interpolating ", a, " to ", b, " by ", q, " is ", i));
    if (std::fabs(apart(a, i) - c * shortest) > 2 * t || std::fabs(apart(i, b) - (1 - c) * shortest) > 2 * t) mc::fail(str("interpolating ", a, " to ", b, " by ", q, " is ", i));
    if (apart(i, (L)a + c * (L)d) > 2 * t) mc::fail(str("interpolating ", a, " to ", b, " by ", q, " is ", i, ", not along the difference ", d));
  }
  mc::Hash h; h.add(a).add(b); mc::state(h.h);
}
void triple(double a, double b, double c)
{
  const L t = tolerance(a, b, c); mc::transition(2);
  L full = std::fmod((L)b - a, kTurn), part = std::fmod((L)c - a, kTurn);
  if (full < 0) full += kTurn;
  if (part < 0) part += kTurn;
  const bool in = m::CheckInContinuousRevoluteBounds(a, b, c);
  // where the angle coincides with a limit up to rounding either answer is right, unless it is the limit itself
  const bool vague = std::fabs(full - part) < 2 * t || part < t || part > kTurn - t || full < t || full > kTurn - t;
  if (!vague && in != (part <= full)) mc::fail(str("bounds ", a, " to ", b, in ? " accept " : " refuse ", c));
  if ((c == a || c == b) && !in) mc::fail(str("bounds ", a, " to ", b, " refuse their limit ", c));
  // a range given directly; b is a length here
  const double range = std::fabs(b); const bool inr = m::CheckInContinuousRevoluteRange(a, range, c);
  const bool vaguer = std::fabs(part - range) < 2 * t || part < t || part > kTurn - t;
  if (!vaguer && inr != (part <= range)) mc::fail(str("range of ", range, " from ", a, inr ? " accepts " : " refuses ", c));
  if (c == a && !inr) mc::fail(str("range of ", range, " from ", a, " refuses its start"));
  mc::Hash h; h.add(a).add(b).add(c); mc::state(h.h);
}
}
void mc::run()
{
  static const std::vector<double> fine = [] {
    auto g = grid(48, 3, true); const double inf = 1e9;
    for (double x : {0.1, 0.7, 1.0, 3.0, 10.0, 100.0, 1000.0, 12345.678, 1e6, 1e-3, 1e-9, 1e-17, 1e-300, 5e-324}) { g.push_back(x); g.push_back(-x); g.push_back(std::nextafter(x, inf)); }
    for (int i = 1; i < 400; i++) { g.push_back(M_PI + i * 4.4408920985006262e-16); g.push_back(-M_PI - i * 4.4408920985006262e-16); g.push_back(-M_PI + i * 4.4408920985006262e-16); }
    return g; }();
  static const std::vector<double> pairs = [] { auto g = grid(by_tier(12, 24), 2, true); for (double x : {0.1, -0.3, 1e-9, -1e-9, 1e-17, 1000.0, -12345.678}) g.push_back(x); return g; }();
  static const std::vector<double> triples = [] { auto g = grid(by_tier(8, 12), 1, thorough()); for (double x : {0.1, -3.0, 1e-9, 9.5}) g.push_back(x); return g; }();
  scenario("angles", [] { once(pick(fine)); }, 1);
  scenario("pairs", [] { const double a = pick(pairs), b = pick(pairs); pair(a, b); });
  scenario("triples", [] { const double a = pick(triples), b = pick(triples), c = pick(triples); triple(a, b, c); });
}
