// N10: random indices, ranges and rotations for every draw; generators against the published algorithms.
#include "mc.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <vector>
#include <common_robotics_utilities/random_rotation_generator.hpp>
#include <common_robotics_utilities/simple_prngs.hpp>
#include <common_robotics_utilities/utility.hpp>
namespace u = common_robotics_utilities::utility;
namespace g = common_robotics_utilities::simple_prngs;
using Rot = common_robotics_utilities::random_rotation_generator::RandomRotationGenerator;
MC_HARNESS("N10", "every draw from a grid of fractions with their floating-point neighbours and the extreme draws x every small range and the widest ranges of every integer type; every triple and quadruple of draws for rotations; every sequence of draw, discard, reseed, copy and assign up to a depth on each generator against the published algorithm; a state is a distinct case or generator state")
using mc::str;
namespace
{
const double kLast = std::nextafter(1.0, 0.0);
std::vector<double> draws(int parts)
{
  std::vector<double> d{0.0, 5e-324, 1e-300, 0x1p-64, 0x1p-53, kLast, std::nextafter(kLast, 0.0)};
  for (int k = 0; k < parts; k++)
  {
    const double x = double(k) / parts; d.push_back(x); d.push_back((k + 0.5) / parts);
    if (k) { d.push_back(std::nextafter(x, 0.0)); d.push_back(std::nextafter(x, 1.0)); }
  }
  return d;
}
template<typename T> void index_of(T n, double draw, const char* type)
{
  int asked = 0;
  const T i = u::GetUniformRandomIndex<T>([&] () { asked++; return draw; }, n); mc::transition();
  if (asked != 1) mc::fail(str("an index took ", asked, " draws"));
  if (i < 0 || i >= n) mc::fail(str(type, " index of ", +n, " for draw ", draw, " is ", +i));
  const long double exact = (long double)draw * n, slack = 1e-15L * n;
  if ((long double)i > exact + slack || (long double)i <= exact - 1 - slack) mc::fail(str(type, " index of ", +n, " for draw ", draw, " is ", +i));
}
template<typename T> void range_of(T a, T b, double draw, const char* type)
{
  int asked = 0;
  const T v = u::GetUniformRandomInRange<T>([&] () { asked++; return draw; }, a, b); mc::transition();
  if (asked != 1) mc::fail(str("a value took ", asked, " draws"));
  if (v < a || v > b) mc::fail(str(type, " value in ", +a, "..", +b, " for draw ", draw, " is ", +v));
  const long double n = (long double)b - a + 1, exact = draw * n, slack = 1e-15L * n, off = (long double)v - a;
  if (off > exact + slack || off <= exact - 1 - slack) mc::fail(str(type, " value in ", +a, "..", +b, " for draw ", draw, " is ", +v));
}
template<typename T> void helpers(const char* type)
{
  using Lim = std::numeric_limits<T>;
  mc::scenario(str("index-", type), [=] () {
    std::vector<T> sizes; for (int n = 1; n <= mc::by_tier(24, 100); n++) sizes.push_back(T(n));
    for (int k = 0; k < 4; k++) { sizes.push_back(T(Lim::max() - k)); sizes.push_back(T(Lim::max() / 2 + k)); }
    const T n = mc::pick(sizes); mc::Hash h; h.add(n); mc::state(h.h);
    for (double d : draws(n <= 100 ? int(n) : 37)) index_of<T>(n, d, type);
    if (n <= 100)
    {
      const int each = 8; std::map<T, int> seen;
      for (int k = 0; k < int(n) * each; k++)
        seen[u::GetUniformRandomIndex<T>([&] () { return (k + 0.5) / (double(n) * each); }, n)]++;
      mc::transition(uint64_t(n) * each);
      if (seen.size() != size_t(n)) mc::fail(str("indices of ", +n, ": only ", seen.size(), " are ever drawn"));
      for (auto& s : seen) if (s.second != each) mc::fail(str("indices of ", +n, ": ", +s.first, " is drawn ", s.second, " times in ", each * int(n)));
    }
  });
  mc::scenario(str("range-", type), [=] () {
    std::vector<T> ends{T(0), T(1), T(2), T(3), T(7), T(10), T(100), Lim::min(), T(Lim::min() + 1), T(Lim::min() / 2), T(Lim::max() / 2), T(Lim::max() / 2 + 1), T(Lim::max() - 1), Lim::max()};
    if (Lim::is_signed) for (int k : {1, 2, 3, 8, 100}) ends.push_back(T(-k));
    std::sort(ends.begin(), ends.end()); ends.erase(std::unique(ends.begin(), ends.end()), ends.end());
    const T a = mc::pick(ends), b = mc::pick(ends); mc::Hash h; h.add(a).add(b); mc::state(h.h);
    if (a > b)
    {
      if (mc::throws([&] { u::GetUniformRandomInRange<T>([] { return 0.5; }, a, b); }) != 1) mc::fail(str(type, " range ", +a, "..", +b, " is not refused"));
      return;
    }
    const long double n = (long double)b - a + 1;
    for (double d : draws(n <= 40 ? int(n) : 37)) range_of<T>(a, b, d, type);
    if (n <= 256)
    {
      const int each = 4, count = int(n); std::map<T, int> seen;
      for (int k = 0; k < count * each; k++)
        seen[u::GetUniformRandomInRange<T>([&] () { return (k + 0.5) / (double(count) * each); }, a, b)]++;
      mc::transition(uint64_t(count) * each);
      if (seen.size() != size_t(count)) mc::fail(str(type, " values in ", +a, "..", +b, ": only ", seen.size(), " are ever drawn"));
      for (auto& s : seen) if (s.second != each) mc::fail(str(type, " values in ", +a, "..", +b, ": ", +s.first, " is drawn ", s.second, " times in ", each * count));
    }
  });
  mc::scenario(str("refused-", type), [=] () {
    std::vector<T> bad{T(0)}; if (Lim::is_signed) { bad.push_back(T(-1)); bad.push_back(Lim::min()); }
    const T n = mc::pick(bad);
    if (mc::throws([&] { u::GetUniformRandomIndex<T>([] { return 0.0; }, n); }) != 1) mc::fail(str(type, " index of ", +n, " is not refused"));
    mc::transition(); mc::state(uint64_t(n));
  });
}

// ---- rotations -----------------------------------------------------------------------------
void quaternions()
{
  mc::scenario("quaternion", [] () {
    const std::vector<double> d = draws(mc::by_tier(8, 16));
    const double a = mc::pick(d), b = mc::pick(d);
    for (double c : d)
    {
      const double given[3] = {a, b, c}; int k = 0;
      const Eigen::Quaterniond q = Rot::GenerateUniformRandomQuaternion([&] () { if (k == 3) mc::fail("a quaternion takes more than three draws"); return given[k++]; });
      mc::transition();
      if (!(std::fabs(q.norm() - 1) < 1e-12)) mc::fail(str("draws ", a, ",", b, ",", c, " give norm ", q.norm()));
      mc::Hash h; h.add(a).add(b).add(c); mc::state(h.h);
    }
  }, 1);
  // The rotation is uniform: over an equidistributed grid of draws the moments are those of the uniform
  // distribution on the unit 3-sphere, E q_i q_j = d_ij/4, E q_i^4 = 1/8, E q_i^2 q_j^2 = 1/24.
  mc::scenario("quaternion-moments", [] () {
    const int n = mc::by_tier(24, 48); double second[4][4] = {}, fourth[4][4] = {}, third[4][4][4] = {};
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++)
    {
      const double given[3] = {(i + 0.5) / n, (j + 0.5) / n, (k + 0.5) / n}; int at = 0;
      const Eigen::Quaterniond q = Rot::GenerateUniformRandomQuaternion([&] () { return given[at++]; });
      const double c[4] = {q.w(), q.x(), q.y(), q.z()};
      for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++)
      {
        second[x][y] += c[x] * c[y]; fourth[x][y] += c[x] * c[x] * c[y] * c[y];
        for (int z = 0; z < 4; z++) third[x][y][z] += c[x] * c[y] * c[z];
      }
      mc::transition();
    }
    const double total = double(n) * n * n;
    for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++)
    {
      if (std::fabs(second[x][y] / total - (x == y ? 0.25 : 0)) > 1e-9) mc::fail(str("mean of q", x, "q", y, " over all draws is ", second[x][y] / total));
      if (std::fabs(fourth[x][y] / total - (x == y ? 0.125 : 1.0 / 24)) > 1.0 / (n * n)) mc::fail(str("mean of q", x, "^2q", y, "^2 over all draws is ", fourth[x][y] / total));
      for (int z = 0; z < 4; z++) if (std::fabs(third[x][y][z] / total) > 1e-9) mc::fail(str("mean of q", x, "q", y, "q", z, " over all draws is ", third[x][y][z] / total));
    }
    mc::state(1);
  });
  mc::scenario("euler", [] () {
    const std::vector<double> d = draws(mc::by_tier(6, 12));
    const double a = mc::pick(d), b = mc::pick(d);
    for (double c : d) for (double e : {0.0, 0.25, 0.5, kLast, c})
    {
      const double given[4] = {a, b, c, e}; int k = 0;
      const Eigen::Vector3d r = Rot::GenerateUniformRandomEulerAngles([&] () { if (k == 4) mc::fail("angles take more than four draws"); return given[k++]; });
      mc::transition();
      if (!(r.x() >= -M_PI && r.x() < M_PI && r.z() >= -M_PI && r.z() < M_PI && r.y() >= 0 && r.y() <= 2 * M_PI))
        mc::fail(str("draws ", a, ",", b, ",", c, ",", e, " give angles ", r.transpose()));
      mc::Hash h; h.add(a).add(b).add(c).add(e); mc::state(h.h);
    }
  }, 1);
  // Angles of a uniform rotation: roll and yaw equidistributed, the sine of pitch equidistributed in [-1,1], both halves of pitch.
  mc::scenario("euler-moments", [] () {
    const int n = mc::by_tier(16, 24); double s[12] = {};
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < 4; k++) for (int l = 0; l < n; l++)
    {
      const double given[4] = {(i + 0.5) / n, (j + 0.5) / n, (k + 0.5) / 4, (l + 0.5) / n}; int at = 0;
      const Eigen::Vector3d r = Rot::GenerateUniformRandomEulerAngles([&] () { return given[at++]; }); mc::transition();
      const double sp = std::sin(r.y()), v[12] = {std::cos(r.x()), std::sin(r.x()), std::cos(2 * r.x()), std::sin(2 * r.x()), std::cos(r.z()), std::sin(r.z()), std::cos(2 * r.z()), std::sin(2 * r.z()),
                                                  sp, sp * sp, sp * sp * sp * sp, std::cos(r.y()) > 0 ? 1.0 : -1.0};
      for (int m = 0; m < 12; m++) s[m] += v[m];
    }
    const double want[12] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 1.0 / 3, 0.2, 0};
    for (int m = 0; m < 12; m++)
      if (std::fabs(s[m] / (4.0 * n * n * n) - want[m]) > 2.0 / (n * n)) mc::fail(str("moment ", m, " of random angles over all draws is ", s[m] / (4.0 * n * n * n), ", not ", want[m]));
    mc::state(2);
  });
  // The members draw from the generator alone, and every form gives the same rotation.
  mc::scenario("members", [] () {
    const uint64_t seed = uint64_t(mc::choose(mc::by_tier(8, 40))); const int depth = 4; std::string trail;
    Rot one, two; std::mt19937_64 x(seed), y(seed);
    for (int i = 0; i < depth; i++)
    {
      mc::transition(2);
      if (mc::flip())
      {
        const Eigen::Quaterniond q = one.GetQuaternion(x); const std::vector<double> r = two.GetRawQuaternion(y); trail += "q";
        if (r != std::vector<double>{q.x(), q.y(), q.z(), q.w()} || std::fabs(q.norm() - 1) > 1e-12) mc::fail(str("after ", trail, " the raw quaternion differs"));
      }
      else
      {
        const Eigen::Vector3d e = one.GetEulerAngles(x); const std::vector<double> r = two.GetRawEulerAngles(y); trail += "e";
        if (r != std::vector<double>{e.x(), e.y(), e.z()}) mc::fail(str("after ", trail, " the raw angles differ"));
      }
      if (!(x == y)) mc::fail(str("after ", trail, " the generators differ"));
    }
    mc::Hash h; h.add(seed).add(trail); mc::state(h.h);
  });
}

// ---- generators ----------------------------------------------------------------------------
struct Split
{
  uint64_t s; explicit Split(uint64_t v = 0) { seed(v); }
  void seed(uint64_t v) { s = v; }
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
};
struct Plus
{
  uint64_t a, b; explicit Plus(uint64_t v = 0) { seed(v); }
  void seed(uint64_t v) { Split s(v); a = s.next(); b = s.next(); }
  uint64_t next() { uint64_t x = a; const uint64_t y = b; a = y; x ^= x << 23; b = x ^ y ^ (x >> 18) ^ (y >> 5); return b + y; }
};
struct Star
{
  uint64_t s[16]; int p; explicit Star(uint64_t v = 0) { seed(v); }
  void seed(uint64_t v) { Split q(v); for (auto& x : s) x = q.next(); p = 0; }
  uint64_t next()
  {
    const uint64_t s0 = s[p]; p = (p + 1) % 16; uint64_t s1 = s[p]; s1 ^= s1 << 31;
    s[p] = s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30); return s[p] * 1181783497276652981ull;
  }
};
const std::vector<uint64_t> kSeeds{0, 1, 42, 1234567, 0x8000000000000000ull, ~0ull};
template<typename Real, typename Ref> void generator(const char* name, int depth)
{
  static_assert(Real::min() == 0, "min"); static_assert(Real::max() == ~uint64_t(0), "max");
  mc::scenario(str("sequence-", name), [=] () {
    const uint64_t first = mc::pick(kSeeds); Real real(first); Ref ref(first); std::string trail = str("seed ", first);
    auto other = std::make_unique<Real>(first + 1); Ref other_ref(first + 1);
    for (int i = 0; i < depth; i++)
    {
      mc::transition(); const int op = mc::choose(11);
      if (op == 0) { trail += " draw"; if (real() != ref.next()) mc::fail(trail + ": another value than the published algorithm's"); }
      else if (op <= 6)
      {
        const uint64_t n = std::array<uint64_t, 6>{{0, 1, 2, 15, 16, 17}}[size_t(op - 1)]; trail += str(" discard", n);
        real.discard(n); for (uint64_t k = 0; k < n; k++) ref.next();
      }
      else if (op <= 8) { const uint64_t v = op == 7 ? 42 : first; trail += str(" seed", v); real.seed(v); ref.seed(v); }
      else if (op == 9) { trail += " keep-copy"; other = std::make_unique<Real>(real); other_ref = ref; }
      else { trail += " restore"; real = *other; ref = other_ref; }
    }
    // what follows is the published sequence, on a copy as well
    Real copy(real); mc::Hash h; h.add(std::string(name));
    for (int k = 0; k < 20; k++)
    {
      const uint64_t want = ref.next(), got = real();
      if (got != want) mc::fail(str(trail, ": draw ", k, " afterwards differs from the published algorithm"));
      if (copy() != want) mc::fail(str(trail, ": draw ", k, " afterwards differs on a copy"));
      h.add(want);
    }
    mc::state(h.h);
  });
  mc::scenario(str("long-", name), [=] () {
    const uint64_t seed = mc::pick(kSeeds); Real real(seed); Ref ref(seed);
    for (int k = 0; k < mc::by_tier(70000, 200000); k++) if (real() != ref.next()) mc::fail(str("seed ", seed, " draw ", k, " differs from the published algorithm"));
    Real skipping(seed); skipping.discard(uint64_t(mc::by_tier(70000, 200000)));
    if (skipping() != ref.next()) mc::fail(str("seed ", seed, ": a long discard differs from drawing"));
    mc::transition(70000); mc::state(seed);
  });
}
}  // namespace
void mc::run()
{
  helpers<int>("int"); helpers<size_t>("size_t"); helpers<int64_t>("int64_t"); helpers<uint32_t>("uint32_t");
  helpers<int8_t>("int8_t"); helpers<uint8_t>("uint8_t"); helpers<int16_t>("int16_t"); helpers<uint16_t>("uint16_t");
  quaternions();
  scenario("published", [] () {   // the reference itself against published output for seed 1234567
    Split s(1234567);
    for (uint64_t v : {6457827717110365317ull, 3203168211198807973ull, 9817491932198370423ull, 4593380528125082431ull, 16408922859458223821ull})
      if (s.next() != v) mc::fail("reference SplitMix64 is wrong");
    mc::transition(); mc::state(3);
  });
  generator<g::SplitMix64PRNG, Split>("splitmix64", by_tier(4, 6));
  generator<g::XorShift128PlusPRNG, Plus>("xorshift128plus", by_tier(4, 6));
  generator<g::XorShift1024StarPRNG, Star>("xorshift1024star", by_tier(4, 6));
}
