// N12: colours.
#include "mc.hpp"
#include <array>
#include <cmath>
#include <limits>
#include <set>
#include <vector>
#include <common_robotics_utilities/color_builder.hpp>
namespace cb = common_robotics_utilities::color_builder;
using Color = cb::RGBAColor;
MC_HARNESS("N12", "every byte value in every channel, every quadruple of channel values from a grid with out-of-range and infinite values, every ramp position of a fine grid with its neighbours over several ranges, every colour code x alpha; a state is a distinct input")
using mc::str;
namespace
{
struct Plain { float r = 9, g = 9, b = 9, a = 9; };
struct Wide { double a = 9, b = 9, g = 9, r = 9; };   // other order and width
template<typename C> std::string show(const C& c) { return str("(", c.r, ",", c.g, ",", c.b, ",", c.a, ")"); }
template<typename C> bool is(const C& c, float r, float g, float b, float a) { return float(c.r) == r && float(c.g) == g && float(c.b) == b && float(c.a) == a; }
template<typename C> void in_range(const C& c, const std::string& how)
{ for (double v : {double(c.r), double(c.g), double(c.b), double(c.a)}) if (!(v >= 0 && v <= 1)) mc::fail(how + " gives " + show(c)); }
float trim(float v) { return v < 0 ? 0.0f : v > 1 ? 1.0f : v; }
float from(int byte) { return float(byte) / 255.0f; }
int to_byte(float v) { return int(std::floor(double(trim(v)) * 255.0 + 0.5)); }
std::vector<float> levels(bool all)
{
  const float inf = std::numeric_limits<float>::infinity();
  std::vector<float> v{0.0f, 1.0f, 0.25f, -0.5f, 1.5f, -0.0f, std::nextafter(1.0f, 2.0f), std::nextafter(1.0f, 0.0f), inf, -inf, 1e30f, -1e-40f};
  if (!all) v.resize(6);
  return v;
}
void every_form(const std::array<float, 4>& v)
{
  const float r = trim(v[0]), g = trim(v[1]), b = trim(v[2]), a = trim(v[3]); const std::string what = str("(", v[0], ",", v[1], ",", v[2], ",", v[3], ")"); mc::transition(12);
  auto expect = [&] (const auto& c, float alpha, const char* how) { in_range(c, how + what); if (!is(c, r, g, b, alpha)) mc::fail(str(how, what, " gives ", show(c))); };
  const Color four(v[0], v[1], v[2], v[3]); expect(four, a, "constructing"); expect(Color(v[0], v[1], v[2]), 1.0f, "constructing without alpha");
  Color set; if (!is(set, 0, 0, 0, 0)) mc::fail("a default colour is not clear black");
  set.SetR(v[0]); if (!is(set, r, 0, 0, 0)) mc::fail(str("setting red to ", v[0], " gives ", show(set)));
  set.SetG(v[1]); if (!is(set, r, g, 0, 0)) mc::fail(str("setting green to ", v[1], " gives ", show(set)));
  set.SetB(v[2]); if (!is(set, r, g, b, 0)) mc::fail(str("setting blue to ", v[2], " gives ", show(set)));
  set.SetA(v[3]); expect(set, a, "setting");
  if (set.R() != r || set.G() != g || set.B() != b || set.A() != a) mc::fail("reading " + show(set) + " gives other channels");
  if (set.GetRHex() != to_byte(r) || set.GetGHex() != to_byte(g) || set.GetBHex() != to_byte(b) || set.GetAHex() != to_byte(a)) mc::fail("bytes of " + show(set) + " differ");
  expect(cb::MakeFromFloatColors<Color>(v[0], v[1], v[2], v[3]), a, "making"); expect(cb::MakeFromFloatColors<Plain>(v[0], v[1], v[2], v[3]), a, "making plain"); expect(cb::MakeFromFloatColors<Color>(v[0], v[1], v[2]), 1.0f, "making without alpha");
  Plain p; p.r = v[0]; p.g = v[1]; p.b = v[2]; p.a = v[3];
  expect(cb::ConvertColor<Plain, Color>(p), a, "converting"); expect(cb::ConvertColor<Plain, Wide>(p), a, "converting to doubles");
  expect(cb::ConvertColor<Wide, Color>(cb::ConvertColor<Color, Wide>(four)), a, "converting to and fro");
  if (!cb::ColorsEqual(four, cb::ConvertColor<Color, Plain>(four))) mc::fail("converting " + show(four) + " makes another colour");
}
void bytes(int i, int j, int k, int l, float alpha)
{
  const uint8_t r = uint8_t(i), g = uint8_t(j), b = uint8_t(k), a = uint8_t(l); mc::transition(8); const std::string what = str("bytes (", i, ",", j, ",", k, ",", l, ")");
  auto expect = [&] (const auto& c, float want, const char* how) { in_range(c, how + what); if (!is(c, from(i), from(j), from(k), want)) mc::fail(str(how, what, " gives ", show(c))); };
  expect(Color(r, g, b, a), from(l), "constructing from "); expect(Color(r, g, b), 1.0f, "constructing without alpha from "); expect(Color(r, g, b, alpha), trim(alpha), "constructing with float alpha from ");
  expect(cb::MakeFromHexColors<Color>(r, g, b, a), from(l), "making from "); expect(cb::MakeFromHexColors<Plain>(r, g, b), 1.0f, "making opaque from ");
  expect(cb::MakeFromMixedColors<Color>(r, g, b, alpha), trim(alpha), "mixing from "); expect(cb::MakeFromMixedColors<Plain>(r, g, b), 1.0f, "mixing opaque from ");
  Color s; s.SetRHex(r); s.SetGHex(g); s.SetBHex(b); s.SetAHex(a); expect(s, from(l), "setting ");
  if (s.GetRHex() != r || s.GetGHex() != g || s.GetBHex() != b || s.GetAHex() != a) mc::fail(what + " do not round-trip");
}
}  // namespace
void mc::run()
{
  scenario("channels", [] () {
    const std::vector<float> all = levels(true), some = levels(by_tier(0, 1));
    std::array<float, 4> v; const int full = choose(4); for (int c = 0; c < 4; c++) v[size_t(c)] = c == full ? pick(all) : pick(some);
    every_form(v); Hash h; h.add(v); mc::state(h.h);
  });
  scenario("bytes", [] () {
    const int channel = choose(5), byte = choose(256); int v[4] = {17, 200, 3, 128}; if (channel < 4) v[channel] = byte; else for (int& x : v) x = byte;
    for (float alpha : levels(true)) bytes(v[0], v[1], v[2], v[3], alpha);
    if (std::fabs(double(cb::ColorChannelFromHex(uint8_t(byte))) - byte / 255.0) > 1e-7) mc::fail(str("byte ", byte, " becomes ", cb::ColorChannelFromHex(uint8_t(byte))));
    if (cb::ColorChannelToHex(cb::ColorChannelFromHex(uint8_t(byte))) != byte) mc::fail(str("byte ", byte, " does not round-trip"));
    Hash h; h.add(channel).add(byte); mc::state(h.h);
  });
  scenario("rounding", [] () {   // floats become the closest byte, and the conversion is monotone
    const int n = by_tier(1 << 14, 1 << 20), part = choose(64); int last = -1;
    for (int k = n / 64 * part; k <= n / 64 * (part + 1); k++)
    {
      const float v = float(k) / float(n) * 1.25f - 0.125f; const int got = cb::ColorChannelToHex(v); transition();
      if (std::fabs(double(trim(v)) * 255.0 - got) > 0.5 + 1e-4) mc::fail(str(v, " becomes byte ", got));
      if (got < last) mc::fail(str("at ", v, " the byte falls from ", last, " to ", got));
      if (cb::TrimColorValue(v) != trim(v)) mc::fail(str(v, " is trimmed to ", cb::TrimColorValue(v)));
      last = got;
    }
    mc::state(uint64_t(part));
  });
  scenario("equality", [] () {
    const std::vector<float> grid{0.0f, 0.25f, 0.5f, 1.0f}; const int channel = choose(4); const float x = pick(grid), y = pick(grid); const float tol = pick(std::vector<float>{0.0f, 0.125f, 0.25f, 0.5f, 1.0f}); transition(2);
    Plain p; p.r = p.g = p.b = p.a = 0.5f; Color q(0.5f, 0.5f, 0.5f, 0.5f); (&p.r)[channel] = x; (&q.r)[channel] = y;
    if (cb::ColorsEqual(p, q, tol) != (std::fabs(x - y) <= tol)) mc::fail(str("channel ", channel, " ", x, " and ", y, " within ", tol));
    if (cb::ColorsEqual(q, p) != (x == y)) mc::fail(str("channel ", channel, " ", x, " and ", y, " without tolerance"));
    Hash h; h.add(channel).add(x).add(y).add(tol); mc::state(h.h);
  });
  scenario("ramp", [] () {
    struct Span { double lo, hi; }; const std::vector<Span> spans{{0, 1}, {-1, 1}, {-7.5, -2.5}, {100, 400}, {0, 1e-6}, {-1e9, 1e9}, {1e9, 1e9 + 1}, {-3e10, -3e10 + 100}};
    const Span s = pick(spans); const double range = s.hi - s.lo; const int n = by_tier(400, 4000), part = choose(8);
    auto at = [&] (double v) { transition(); const Color c = cb::InterpolateHotToCold<Color>(v, s.lo, s.hi); in_range(c, str("ramp at ", v)); if (c.a != 1.0f) mc::fail(str("ramp at ", v, " is not opaque")); return c; };
    auto near = [] (const Color& c, double r, double g, double b) { return std::fabs(c.r - r) < 1e-6 && std::fabs(c.g - g) < 1e-6 && std::fabs(c.b - b) < 1e-6; };
    Color last; bool first = true;
    for (int k = n / 8 * part; k <= n / 8 * (part + 1); k++)
      for (int side = -1; side <= 1; side++)
      {
        double v = s.lo + range * k / n; if (side) v = std::nextafter(v, side * INFINITY);
        const Color c = at(v); const double t = std::min(1.0, std::max(0.0, (v - s.lo) / range));
        // the polygon blue - cyan - green - yellow - red
        const double r = std::min(1.0, std::max(0.0, 4 * t - 2)), g = std::min(1.0, std::min(4 * t, 4 - 4 * t)), b = std::min(1.0, std::max(0.0, 2 - 4 * t));
        if (std::fabs(c.r - r) > 1e-5 || std::fabs(c.g - g) > 1e-5 || std::fabs(c.b - b) > 1e-5) mc::fail(str("ramp ", s.lo, "..", s.hi, " at ", v, " is ", show(c), ", not (", r, ",", g, ",", b, ")"));
        if (!first && (std::fabs(c.r - last.r) > 4.1 / n + 1e-5 || std::fabs(c.g - last.g) > 4.1 / n + 1e-5 || std::fabs(c.b - last.b) > 4.1 / n + 1e-5)) mc::fail(str("ramp ", s.lo, "..", s.hi, " jumps at ", v));
        last = c; first = false;
      }
    for (double v : {s.lo, s.lo - range, s.lo - 1e300, -double(INFINITY)}) if (!near(at(v), 0, 0, 1)) mc::fail(str("ramp ", s.lo, "..", s.hi, " at ", v, " is not blue"));
    for (double v : {s.hi, s.hi + range, 1e300, double(INFINITY)}) if (!near(at(v), 1, 0, 0)) mc::fail(str("ramp ", s.lo, "..", s.hi, " at ", v, " is not red"));
    if (throws([&] { cb::InterpolateHotToCold<Color>(s.lo, s.hi, s.lo); }) != 1) mc::fail("an inverted ramp is not refused");
    const Plain p = cb::InterpolateHotToCold<Plain>(s.lo + range / 3, s.lo, s.hi); const Color q = at(s.lo + range / 3);
    if (!cb::ColorsEqual(p, q)) mc::fail("the ramp of another colour type differs");
    if (s.lo == 0 && s.hi == 1 && !cb::ColorsEqual(cb::InterpolateHotToCold<Color>(1.0 / 3), q)) mc::fail("the default ramp differs");
    Hash h; h.add(s.lo).add(s.hi).add(part); mc::state(h.h);
  });
  scenario("ramp-point", [] () {   // a range of a single value
    const double at = pick(std::vector<double>{-1, 0, 2.5}), v = pick(std::vector<double>{-2, -1, 0, 2.5, 9}); transition();
    in_range(cb::InterpolateHotToCold<Color>(v, at, at), str("ramp over the single value ", at, " at ", v));
    Hash h; h.add(at).add(v); mc::state(h.h);
  });
  scenario("unique", [] () {
    const std::vector<uint32_t> beyond{21, 22, 255, 256, 1u << 16, ~0u}; const int k = choose(21 + int(beyond.size())); const uint32_t code = k <= 20 ? uint32_t(k) : beyond[size_t(k - 21)];
    for (float alpha : levels(true))
    {
      const Color c = cb::LookupUniqueColor<Color>(code, alpha); in_range(c, str("code ", code)); transition(2);
      if (code == 0) { if (!is(c, 1, 1, 1, 0)) mc::fail("code 0 is " + show(c)); }
      else if (c.a != trim(alpha)) mc::fail(str("code ", code, " with alpha ", alpha, " is ", show(c)));
      if (code > 20 && !is(c, 0, 0, 0, trim(alpha))) mc::fail(str("code ", code, " is ", show(c), ", not black"));
      if (!cb::ColorsEqual(c, cb::LookupUniqueColor<Plain>(code, alpha))) mc::fail(str("code ", code, " differs between colour types"));
      for (uint32_t other = 0; other <= 20; other++)
      {
        const Color d = cb::LookupUniqueColor<Color>(other, alpha);
        if (other != code && d.r == c.r && d.g == c.g && d.b == c.b) mc::fail(str("codes ", code, " and ", other, " have the same colour"));
      }
    }
    if (code && cb::LookupUniqueColor<Color>(code).a != 1.0f) mc::fail(str("code ", code, " is not opaque by default"));
    mc::state(code);
  });
}
