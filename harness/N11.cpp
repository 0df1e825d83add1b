// N11: clamping, spreading, bits, collections, maps and hashes of utility.hpp against their definitions.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <future>
#include <limits>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <common_robotics_utilities/utility.hpp>
struct Hashed { int a; std::string b; bool c; };
CRU_MAKE_HASHABLE(Hashed, t.a, t.b, t.c)
namespace u = common_robotics_utilities::utility;
MC_HARNESS("N11", "every value and every triple or quadruple of limits from a grid with the extremes of the type; every bit position x every value of the narrow unsigned types and a grid for the wide ones; every pair of small collections with repetitions; every small map; a state is a distinct case")
using mc::str;
namespace
{
std::string show(double v) { return str(v); }
template<typename T> std::string show(T v) { return str(+v); }
template<typename T> std::vector<T> values()
{
  using L = std::numeric_limits<T>; std::vector<T> v{T(0), T(1), T(2), T(3), L::max(), L::lowest(), T(L::max() / 2)};
  if (L::is_signed) { v.push_back(T(-1)); v.push_back(T(-2)); }
  if (!L::is_integer) { v.push_back(T(-0.0)); v.push_back(T(0.5)); v.push_back(L::min()); v.push_back(L::denorm_min()); v.push_back(L::infinity()); v.push_back(-L::infinity()); v.push_back(std::nextafter(T(1), T(0))); }
  return v;
}
template<typename T> void limits(const char* type)
{
  mc::scenario(str("clamp-", type), [=] () {
    const T val = mc::pick(values<T>()), lo = mc::pick(values<T>()), hi = mc::pick(values<T>()); mc::transition(3);
    T got{}, quiet{}; std::vector<std::string> log;
    const u::LoggingFunction fn = [&] (const std::string& s) { log.push_back(s); };
    const int threw = mc::throws([&] { got = u::ClampValue<T>(val, lo, hi); });
    mc::Hash h; h.add(val).add(lo).add(hi); mc::state(h.h);
    if ((threw == 1) != (lo > hi) || threw == 2) mc::fail(str("clamping to ", show(lo), "..", show(hi), threw ? " is refused" : " is not refused"));
    if (mc::throws([&] { quiet = u::ClampValueAndLog<T>(val, lo, hi, fn); }) != threw) mc::fail("clamping with and without a log differ");
    if (threw) return;
    const T want = val < lo ? lo : val > hi ? hi : val;
    if (!(got == want && quiet == want)) mc::fail(str("clamping ", show(val), " to ", show(lo), "..", show(hi), " gives ", show(got), " and with a log ", show(quiet)));
    if (log.size() != (want == val ? 0u : 1u)) mc::fail(str("clamping ", show(val), " to ", show(lo), "..", show(hi), " logs ", log.size(), " lines"));
  });
  mc::scenario(str("spread-", type), [=] () {
    const T val = mc::pick(values<T>()), lo = mc::pick(values<T>()), mid = mc::pick(values<T>()); mc::transition(2);
    for (const T hi : values<T>())
    {
      T got{}, quiet{}; std::vector<std::string> log;
      const u::LoggingFunction fn = [&] (const std::string& s) { log.push_back(s); };
      const int threw = mc::throws([&] { got = u::SpreadValue<T>(val, lo, mid, hi); });
      const std::string what = str("spreading ", show(val), " to ", show(lo), ",", show(mid), ",", show(hi));
      if ((threw == 1) == (lo <= mid && mid <= hi) || threw == 2) mc::fail(what + (threw ? " is refused" : " is not refused"));
      if (mc::throws([&] { quiet = u::SpreadValueAndLog<T>(val, lo, mid, hi, fn); }) != threw) mc::fail(what + " with and without a log differ");
      if (threw) continue;
      const T want = (val > lo && val < mid) ? lo : (val >= mid && val < hi) ? hi : val;
      if (!(got == want && quiet == want)) mc::fail(str(what, " gives ", show(got), " and with a log ", show(quiet)));
      if (log.size() != (want == val ? 0u : 1u)) mc::fail(str(what, " logs ", log.size(), " lines"));
    }
    mc::Hash h; h.add(val).add(lo).add(mid); mc::state(h.h);
  });
}
template<typename T> void bits(const char* type)
{
  const int width = int(sizeof(T)) * 8;
  mc::scenario(str("bits-", type), [=] () {
    const uint32_t pos = uint32_t(mc::choose(width)); std::vector<T> all;
    if (width == 8 || (width == 16 && mc::thorough())) for (uint32_t v = 0; v < (1u << width); v++) all.push_back(T(v));
    else
    {
      for (int i = 0; i < width; i++) for (int j = 0; j <= i; j++) { const T v = T(T(1) << i) | T(T(1) << j); all.push_back(v); all.push_back(T(~v)); all.push_back(T(v - 1)); }
      all.push_back(T(0)); all.push_back(T(~T(0)));
    }
    for (const T v : all)
    {
      mc::transition(3); bool parts[64];
      for (int k = 0; k < width; k++) parts[k] = v / (k < 63 ? T(uint64_t(1) << k) : T(uint64_t(1) << 63)) % 2;
      if (u::GetBit<T>(v, pos) != parts[pos]) mc::fail(str("bit ", pos, " of ", +v, " reads ", !parts[pos]));
      for (const bool b : {false, true})
      {
        T want = 0; for (int k = 0; k < width; k++) if (k == int(pos) ? b : parts[k]) want = T(want + T(T(1) << k));
        const T got = u::SetBit<T>(v, pos, b);
        if (got != want) mc::fail(str("setting bit ", pos, " of ", +v, " to ", b, " gives ", +got));
        if (u::GetBit<T>(got, pos) != b) mc::fail(str("bit ", pos, " of ", +got, " reads ", !b));
      }
    }
    mc::Hash h; h.add(pos).add(width); mc::state(h.h);
  });
}
template<typename A, typename B> void compare(const std::vector<int>& a, const std::vector<int>& b, const char* form)
{
  const A x(a.begin(), a.end()); const B y(b.begin(), b.end());
  std::multiset<int> mx(x.begin(), x.end()), my(y.begin(), y.end()); mc::transition(2);
  bool subset = true; for (int v : my) if (my.count(v) > mx.count(v)) subset = false;
  const bool s = u::IsSubset<int, A, B>(x, y), e = u::CollectionsEqual<int, A, B>(x, y);
  if (s != subset) mc::fail(str(form, ": ", mc::vstr(b), s ? " counts" : " does not count", " as part of ", mc::vstr(a)));
  if (e != (mx == my)) mc::fail(str(form, ": ", mc::vstr(a), " and ", mc::vstr(b), e ? " count" : " do not count", " as equal"));
}
std::vector<int> choose_items(int longest, int alphabet)
{ std::vector<int> v(static_cast<size_t>(mc::choose(longest + 1))); for (int& x : v) x = mc::choose(alphabet); return v; }

template<typename Map> void map_round_trip(const std::map<int, std::string>& m, const char* form)
{
  const Map real(m.begin(), m.end()); mc::transition(5);
  using Pairs = std::vector<std::pair<int, std::string>>;
  const std::vector<int> keys = u::GetKeysFromMapLike<int, std::string, Map>(real);
  const Pairs pairs = u::GetKeysAndValues<int, std::string, Map>(real);
  if (std::set<int>(keys.begin(), keys.end()).size() != m.size() || keys.size() != m.size()) mc::fail(str(form, ": ", keys.size(), " keys of ", m.size()));
  for (int k : keys) if (!m.count(k)) mc::fail(str(form, ": key ", k, " is made up"));
  if (pairs.size() != m.size() || std::map<int, std::string>(pairs.begin(), pairs.end()) != m) mc::fail(str(form, ": keys and values differ from the map"));
  for (size_t i = 0; i < pairs.size(); i++) if (pairs[i].first != keys[i]) mc::fail(str(form, ": keys alone and with values come in different orders"));
  if (u::MakeFromKeysAndValues<int, std::string, Map>(pairs) != real) mc::fail(str(form, ": the map made of its keys and values differs"));
  std::vector<std::string> vals; for (auto& p : pairs) vals.push_back(p.second);
  if (u::MakeFromKeysAndValues<int, std::string, Map>(keys, vals) != real) mc::fail(str(form, ": the map made of its separate keys and values differs"));
  for (int k = -1; k < 6; k++)
  {
    const std::string want = m.count(k) ? m.at(k) : "other";
    if (u::RetrieveOrDefault<int, std::string, Map>(real, k, "other") != want) mc::fail(str(form, ": retrieving ", k, " does not give ", want));
  }
  if (real != Map(m.begin(), m.end())) mc::fail(str(form, ": asking changes the map"));
}
}  // namespace
void mc::run()
{
  limits<double>("double"); limits<float>("float"); limits<int>("int"); limits<uint8_t>("uint8"); limits<int64_t>("int64"); limits<uint64_t>("uint64");
  bits<uint8_t>("uint8"); bits<uint16_t>("uint16"); bits<uint32_t>("uint32"); bits<uint64_t>("uint64");
  scenario("collections", [] () {
    const std::vector<int> a = choose_items(by_tier(4, 5), 3), b = choose_items(by_tier(4, 5), 3);
    compare<std::vector<int>, std::vector<int>>(a, b, "vectors"); compare<std::list<int>, std::vector<int>>(a, b, "list and vector");
    compare<std::multiset<int>, std::list<int>>(a, b, "multiset and list"); compare<std::set<int>, std::set<int>>(a, b, "sets");
    compare<std::unordered_set<int>, std::vector<int>>(a, b, "unordered set and vector"); compare<std::vector<int>, std::unordered_multiset<int>>(a, b, "vector and unordered multiset");
    Hash h; h.addv(a).addv(b); mc::state(h.h);
  });
  scenario("large collections", [] () {
    // a large collection and a copy of it with one item left out, added, or exchanged, in another order
    const int n = pick(std::vector<int>{5, 8, 16, 17, 32, 33, 64, 100, 255, 256, 257, 1000}), alphabet = pick(std::vector<int>{1, 2, 7, 1 << 20}), change = choose(6), order = choose(3);
    std::vector<int> a, b; for (int i = 0; i < n; i++) a.push_back((i * 7919) % 104729 % alphabet - alphabet / 3);
    b = a; const size_t at = std::vector<size_t>{0, size_t(n / 2), size_t(n - 1)}[size_t(choose(3))];
    if (change == 1) b.erase(b.begin() + long(at)); else if (change == 2) b.push_back(b[at]); else if (change == 3) b[at] = 1 << 21; else if (change == 4) b[at] = b[(at + 1) % size_t(n)]; else if (change == 5) b.resize(size_t(n / 2));
    if (order == 1) std::reverse(b.begin(), b.end()); else if (order == 2) std::sort(b.begin(), b.end());
    compare<std::vector<int>, std::vector<int>>(a, b, "large vectors"); compare<std::vector<int>, std::vector<int>>(b, a, "large vectors swapped"); compare<std::list<int>, std::multiset<int>>(a, b, "large list and multiset");
    compare<std::set<int>, std::unordered_set<int>>(a, b, "large set and unordered set"); compare<std::unordered_multiset<int>, std::vector<int>>(b, a, "large unordered multiset and vector");
    Hash h; h.addv(a).addv(b); mc::state(h.h);
  });
  scenario("large maps", [] () {
    const int n = pick(std::vector<int>{6, 8, 16, 17, 64, 100, 257, 1000}), step = pick(std::vector<int>{1, -3, 1000003}); std::map<int, std::string> m;
    for (int i = 0; i < n; i++) m[(i - n / 4) * step] = std::string(size_t(i % 40), char('a' + i % 26)) + std::to_string(i);
    map_round_trip<std::map<int, std::string>>(m, "large map"); map_round_trip<std::unordered_map<int, std::string>>(m, "large unordered map");
    std::set<int> s; for (auto& p : m) s.insert(p.first);
    std::unordered_set<int> us(s.begin(), s.end()); transition(2); const std::vector<int> k = u::GetKeysFromSetLike<int>(s), uk = u::GetKeysFromSetLike<int, std::unordered_set<int>>(us);
    if (k != std::vector<int>(s.begin(), s.end())) mc::fail("the keys of a large set differ from the set");
    if (uk.size() != s.size() || std::set<int>(uk.begin(), uk.end()) != s) mc::fail("the keys of a large unordered set differ from the set");
    for (auto& p : m) if (u::RetrieveOrDefault<int, std::string>(m, p.first, "none") != p.second || u::RetrieveOrDefault<int, std::string>(m, p.first, "") != p.second) mc::fail("an entry of a large map is not found");
    Hash h; h.add(n).add(step); mc::state(h.h);
  });
  scenario("maps", [] () {
    const std::vector<std::string> texts{"", "a", "bb", "other"}; std::map<int, std::string> m;
    for (int k = 0; k < by_tier(4, 5); k++) { const int c = choose(5); if (c) m[k] = texts[size_t(c - 1)]; }
    map_round_trip<std::map<int, std::string>>(m, "map"); map_round_trip<std::unordered_map<int, std::string>>(m, "unordered map");
    std::set<int> s; for (auto& p : m) s.insert(p.first);
    std::unordered_set<int> us(s.begin(), s.end()); transition(2);
    const std::vector<int> k = u::GetKeysFromSetLike<int>(s), uk = u::GetKeysFromSetLike<int, std::unordered_set<int>>(us);
    if (k != std::vector<int>(s.begin(), s.end())) mc::fail("the keys of a set differ from the set");
    if (uk.size() != s.size() || std::set<int>(uk.begin(), uk.end()) != s) mc::fail("the keys of an unordered set differ from the set");
    Hash h; for (auto& p : m) h.add(p.first).add(p.second); mc::state(h.h);
  });
  scenario("maps-made", [] () {   // keys repeated, sizes different
    const std::vector<int> keys = choose_items(4, 3); const std::vector<int> vals = choose_items(4, 2); std::map<int, int> got; transition();
    const int threw = throws([&] { got = u::MakeFromKeysAndValues<int, int>(keys, vals); });
    if ((threw == 1) != (keys.size() != vals.size()) || threw == 2) mc::fail(str(keys.size(), " keys and ", vals.size(), " values are ", threw ? "" : "not ", "refused"));
    Hash h; h.addv(keys).addv(vals); mc::state(h.h);
    if (threw) return;
    std::map<int, int> want; std::vector<std::pair<int, int>> pairs;
    for (size_t i = 0; i < keys.size(); i++) { want[keys[i]] = vals[i]; pairs.push_back({keys[i], vals[i]}); }
    const std::unordered_map<int, int> hashed = u::MakeFromKeysAndValues<int, int, std::unordered_map<int, int>>(keys, vals), hashed2 = u::MakeFromKeysAndValues<int, int, std::unordered_map<int, int>>(pairs);
    for (const std::map<int, int>& m : {got, u::MakeFromKeysAndValues<int, int>(pairs), std::map<int, int>(hashed.begin(), hashed.end()), std::map<int, int>(hashed2.begin(), hashed2.end())})
      if (m != want) mc::fail(str("keys ", vstr(keys), " with ", vstr(vals), " do not each map to the last value given for them"));
  });
  scenario("substrings", [] () {
    const std::vector<std::string> texts{"", "a", "b", "ab", "ba", "aab"}; std::vector<std::string> all(size_t(choose(4))); transition();
    for (std::string& s : all) s = pick(texts);
    const std::string part = pick(texts); bool want = true;
    for (const std::string& s : all)
    {
      bool in = false; for (size_t i = 0; i + part.size() <= s.size(); i++) if (s.compare(i, part.size(), part) == 0) in = true;
      want = want && in;
    }
    if (u::CheckAllStringsForSubstring(all, part) != want) mc::fail(str("\"", part, "\" in all of ", vstr(all), " is not ", want));
    if (u::CheckAllStringsForSubstring(std::list<std::string>(all.begin(), all.end()), part) != want) mc::fail("a list of strings answers differently");
    Hash h; h.add(part); for (auto& s : all) h.add(s); mc::state(h.h);
  });
  scenario("long strings and any character", [] () {
    using namespace std::string_literals;
    const bool lengthy = flip(); std::vector<std::string> texts;
    if (lengthy) { for (size_t n : {1, 63, 64, 65, 255, 256, 257, 1100}) { texts.push_back(std::string(n, 'a')); texts.push_back(std::string(n, 'a') + "b"); } }
    else { texts = {"\0"s, "a\0"s, "\0a"s, "a\0b"s, "a\0c"s, "b", "\xff", "a\xff"s, " ", "A", "a"}; }
    std::vector<std::string> all(size_t(1 + choose(2))); for (std::string& s : all) s = pick(texts);
    if (lengthy && flip()) { all.insert(all.end(), 300, all.back()); }
    const std::string part = pick(texts); bool want = true; transition();
    for (const std::string& s : all) { want = want && std::search(s.begin(), s.end(), part.begin(), part.end()) != s.end(); }
    if (u::CheckAllStringsForSubstring(all, part) != want) mc::fail(str("a string of ", part.size(), " characters in all of ", all.size(), " strings, the first of ", all[0].size(), ", is not ", want));
    Hash h; h.add(part); for (auto& s : all) h.add(s); mc::state(h.h);
  });
  scenario("alignment", [] () {
    alignas(256) static char block[512]; const int offset = choose(by_tier(130, 256)); const uint64_t by = uint64_t(1 + choose(130)); transition(3);
    const char& item = block[offset]; const bool want = (reinterpret_cast<uintptr_t>(block) + uintptr_t(offset)) % by == 0; int lines = 0;
    if (u::CheckAlignment(item, by) != want || u::CheckAlignment(item, by, [&] (const std::string&) { lines++; }) != want) mc::fail(str("alignment of offset ", offset, " to ", by, " is not ", want));
    if (lines != 1) mc::fail("the alignment check does not log once");
    if ((throws([&] { u::RequireAlignment(item, by); }) == 1) == want) mc::fail(str("requiring alignment of offset ", offset, " to ", by));
    if ((throws([&] { u::RequireEigenAlignment(item); }) == 1) == ((reinterpret_cast<uintptr_t>(block) + uintptr_t(offset)) % EIGEN_DEFAULT_ALIGN_BYTES == 0)) mc::fail(str("requiring Eigen alignment of offset ", offset));
    Hash h; h.add(offset).add(by); mc::state(h.h);
  });
  scenario("hashes", [] () {   // equal values hash alike, whatever they are stored in; distinct small values are told apart
    std::set<std::size_t> seen; size_t count = 0;
    for (int a = -20; a <= 20; a++) for (const char* b : {"", "x", "xy"}) for (bool c : {false, true})
    {
      const Hashed one{a, b, c}, two{a, std::string(b), c}; const std::size_t v = std::hash<Hashed>()(one); transition(); count++;
      if (v != std::hash<Hashed>()(two)) mc::fail("equal values hash differently");
      std::size_t folded = 0; u::hash_combine(folded, a, std::string(b), c);
      std::size_t step = 0; u::hash_combine(step, a); u::hash_combine(step, std::string(b)); u::hash_combine(step, c);
      if (folded != v || step != v) mc::fail("combining hashes at once and one by one differs");
      std::size_t none = v; u::hash_combine(none); if (none != v) mc::fail("combining nothing changes a hash");
      seen.insert(v);
    }
    if (seen.size() != count) mc::fail(str(count - seen.size(), " of ", count, " small values collide"));
    mc::state(1);
  });
  scenario("futures", [] () {   // a future is ready exactly from the moment its promise is kept, broken or failed
    const int steps = choose(3), how = choose(3); std::promise<int> p; std::future<int> f = p.get_future(); transition();
    for (int i = 0; i < steps; i++) if (u::IsFutureReady(f)) mc::fail("a future is ready before its promise is kept");
    if (how == 0) p.set_value(7); else if (how == 1) p.set_exception(std::make_exception_ptr(std::runtime_error("no"))); else { std::promise<int> gone = std::move(p); }
    for (int i = 0; i < 2; i++) if (!u::IsFutureReady(f)) mc::fail("a future is not ready although its promise is settled");
    if (!f.valid()) mc::fail("asking spends the future");
    if ((throws([&] { if (f.get() != 7) mc::fail("the future has another value"); }) != 0) != (how != 0)) mc::fail("the future's outcome is lost");
    std::future<int> lazy = std::async(std::launch::deferred, [] { return 1; });
    if (u::IsFutureReady(lazy)) mc::fail("a deferred future is ready before it ran");
    Hash h; h.add(steps).add(how); mc::state(h.h);
  });
}
