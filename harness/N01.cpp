// N01: k-nearest neighbours.
#include "mc.hpp"
#include <algorithm>
#include <deque>
#include <limits>
#include <set>
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>
MC_HARNESS("N01", "every assignment of distances from an alphabet with ties to up to 7 items x every range x every k x serial and parallel search x containers, against the definition of the k nearest; a state is a distinct (distances, range, k)")
namespace knn = common_robotics_utilities::simple_knearest_neighbors;
using common_robotics_utilities::parallelism::DegreeOfParallelism;
namespace
{
struct Item { int id; double d; };
struct Query { int tag; };
const int64_t kMax = std::numeric_limits<int64_t>::max();
const double kInf = std::numeric_limits<double>::infinity();
template<typename C> void probe(size_t n, const std::vector<double>& alphabet, bool ranges, const std::vector<int>& threads, bool invalid, const std::function<double(size_t)>& pattern = {})
{
  C items; std::string what; for (size_t i = 0; i < n; i++) { items.push_back(Item{static_cast<int>(i), pattern ? pattern(i) : mc::pick(alphabet)}); }
  size_t a = 0, b = n; if (ranges) { a = static_cast<size_t>(mc::choose(static_cast<int>(n) + (invalid ? 2 : 1))); b = invalid ? static_cast<size_t>(mc::choose(static_cast<int>(n) + 2)) : a + static_cast<size_t>(mc::choose(static_cast<int>(n - a) + 1)); }
  std::vector<int64_t> ks; for (int64_t k = -1; k <= static_cast<int64_t>(n) + 1; k++) { if (n < 20 || k < (n > 500 ? 2 : 6) || (n > 500 ? k % (static_cast<int64_t>(n) / 3) == 1 : k % 16 < 2) || k + (n > 500 ? 2 : 4) > static_cast<int64_t>(n)) { ks.push_back(k); } } ks.push_back(kMax); ks.push_back(std::numeric_limits<int64_t>::min());
  const int64_t k = mc::pick(ks); const int t = mc::pick(threads); const DegreeOfParallelism par = t == 0 ? DegreeOfParallelism::None() : DegreeOfParallelism(t); const int form = mc::choose(a == 0 && b == n ? 4 : 2);
  if (mc::want_note()) { what = mc::str(k, " nearest of ["); for (const Item& i : items) { what += mc::str(" ", i.d); } what += mc::str(" ] in ", a, "..", b, t ? mc::str(" on ", t, " threads") : "", " form ", form); }
  const std::function<double(const Item&, const Query&)> distance = [&](const Item& i, const Query& q)
  {
    MC_CHECK(q.tag == 77 && i.id >= static_cast<int>(a) && i.id < static_cast<int>(b) && &items[static_cast<size_t>(i.id)] == &i, what, ": asked for the distance of item ", i.id); return i.d;
  };
  std::vector<knn::IndexAndDistance> got; std::string error; const Query q{77};
  const int threw = mc::throws([&]
  {
    if (form == 0) { got = knn::GetKNearestNeighborsInRange<Item, Query, C>(items, a, b, q, distance, k, par); }
    else if (form == 1) { got = t == 0 ? knn::GetKNearestNeighborsInRangeSerial<Item, Query, C>(items, a, b, q, distance, k) : knn::GetKNearestNeighborsInRangeParallel<Item, Query, C>(items, a, b, q, distance, k, par); }
    else if (form == 2) { got = knn::GetKNearestNeighbors<Item, Query, C>(items, q, distance, k, par); }
    else { got = t == 0 ? knn::GetKNearestNeighborsSerial<Item, Query, C>(items, q, distance, k) : knn::GetKNearestNeighborsParallel<Item, Query, C>(items, q, distance, k, par); }
  }, &error);
  mc::transition(); uint64_t h = mc::Hash().add(a).add(b).add(k).h; for (const Item& i : items) { h = mc::Hash().add(h).add(i.d).h; } mc::state(h);
  const bool bad = b < a || b > n; if (bad) { MC_CHECK(threw == 1, what, ": accepted"); return; }
  if (k < 0) { MC_CHECK(threw == 1 || (threw == 0 && got.empty()), what, ": ", got.size(), " items"); return; }
  MC_CHECK(threw == 0, what, ": threw ", error);
  const size_t want = std::min<uint64_t>(static_cast<uint64_t>(k), b - a); MC_CHECK(got.size() == want, what, ": ", got.size(), " items");
  std::set<int64_t> in; double last = -kInf, worst = -kInf;
  for (const auto& g : got)
  {
    MC_CHECK(g.Index() >= static_cast<int64_t>(a) && g.Index() < static_cast<int64_t>(b), what, ": item ", g.Index()); MC_CHECK(in.insert(g.Index()).second, what, ": item ", g.Index(), " twice");
    const double d = items[static_cast<size_t>(g.Index())].d; MC_CHECK(g.Distance() == d, what, ": item ", g.Index(), " at ", g.Distance());
    if (want < b - a) { MC_CHECK(d >= last, what, ": not in order"); } last = d; worst = std::max(worst, d);
  }
  for (size_t i = a; i < b && want > 0; i++) { if (in.count(static_cast<int64_t>(i)) == 0) { MC_CHECK(items[i].d >= worst, what, ": item ", i, " is closer than one returned"); } }
  if (mc::want_note()) { mc::note(what); }
}
void values()
{
  const int64_t i = mc::pick(std::vector<int64_t>{-1, 0, 7, kMax}); const double d = mc::pick(std::vector<double>{0.0, 1.5, kInf}); const int how = mc::choose(4);
  knn::IndexAndDistance x; MC_CHECK(x.Index() == -1 && x.Distance() == kInf, "a new neighbour is ", x.Index(), " at ", x.Distance());
  if (how == 0) { x = knn::IndexAndDistance(i, d); } else if (how == 1) { x.SetIndexAndDistance(i, d); } else if (how == 2) { knn::IndexAndDistance o(i, d); x.SetFromOther(o); } else { if (i < 0) { return; } x = knn::IndexAndDistance(static_cast<size_t>(i), d); }
  MC_CHECK(x.Index() == i && x.Distance() == d, "neighbour ", i, " at ", d, " became ", x.Index(), " at ", x.Distance());
  const double e = mc::pick(std::vector<double>{0.0, 1.5, kInf}); MC_CHECK(knn::IndexAndDistanceCompare(x, knn::IndexAndDistance(int64_t{0}, e)) == (d < e), "comparison of ", d, " and ", e); mc::transition();
}
}
void mc::run()
{
  using V = std::vector<Item>; using D = std::deque<Item>; const double next = std::nextafter(1.0, 2.0); const std::vector<double> small{0.0, 1.0, 2.0}, wide{0.0, 1.0, next, 2.0, kInf}, odd{-1.0, -0.0, 0.0, 1e300, 5e-324};
  scenario("neighbours", [] { values(); });
  for (size_t n = 0; n <= 3; n++) { scenario(str(n, " items, ranges"), [=] { probe<V>(n, odd, true, {0, 2, 3}, true); }); }
  for (size_t n = 4; n <= 5; n++) { scenario(str(n, " items"), [=] { probe<D>(n, n == 4 ? wide : small, true, {0, 2, 3}, false); }, 4); }
  scenario("6 items", [=] { probe<V>(6, small, false, {0, 2, 4, 8}, false); }, 4);
  scenario("6 items serial", [=] { probe<V>(6, wide, false, {0}, false); }, 4);
  scenario("8 items serial", [=] { probe<V>(8, {0.0, 1.0, 2.0}, false, {0}, false); }, 4);
  scenario("many items", []
  {   // distances that run through a pattern, with and without ties
    const size_t n = mc::pick(std::vector<size_t>{16, 31, 64, 100, 300}); const int step = mc::pick(std::vector<int>{1, 7, 37, -1, 0}), modulus = mc::pick(std::vector<int>{5, 17, 311});
    probe<V>(n, {}, false, {0, 2, 5, 8, 16}, false, [=](size_t i) { return step < 0 ? static_cast<double>(n - i) : static_cast<double>((static_cast<int>(i) * step) % modulus); });
  }, 4);
  scenario("very many items", []
  {
    const size_t n = mc::pick(std::vector<size_t>{1000, 4097, static_cast<size_t>(by_tier(20000, 70000))}); const int step = mc::pick(std::vector<int>{1, 7919, -1, 0}), modulus = mc::pick(std::vector<int>{17, 100003});
    probe<V>(n, {}, false, {0, 3, 16}, false, [=](size_t i) { return step < 0 ? static_cast<double>(n - i) : static_cast<double>((static_cast<int64_t>(i) * step) % modulus); });
  }, 4);
  scenario("9 items on 3 threads", [=] { probe<V>(9, {0.0, 1.0}, false, {3}, false); }, 4);
  if (thorough())
  {
    scenario("5 items, wide", [=] { probe<D>(5, wide, true, {0, 2, 3, 5}, false); }, 4);
    scenario("7 items", [=] { probe<V>(7, small, false, {0, 2, 3, 5, 8}, false); }, 4);
    scenario("12 items", [=] { probe<V>(12, {0.0, 1.0}, false, {0, 3, 5}, false); }, 4);
  }
}
