// N04: hierarchical clustering.
#include "mc.hpp"
#include <algorithm>
#include <limits>
#include <map>
#include <set>
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>
MC_HARNESS("N04", "every symmetric matrix of distances from an alphabet with ties over up to 5 items x limit x linkage x interface x degree of parallelism; the result must be one that closest-pair-first merging reaches under some choice among ties (all choices enumerated); a state is a distinct clustering result of a distinct matrix")
namespace hc = common_robotics_utilities::simple_hierarchical_clustering;
using common_robotics_utilities::parallelism::DegreeOfParallelism;
namespace
{
using Matrix = std::vector<std::vector<double>>; using Cluster = std::vector<int>; using Partition = std::set<Cluster>; using Outcome = std::pair<Partition, double>;
const double kInf = std::numeric_limits<double>::infinity();
double apart(const Matrix& d, const Cluster& a, const Cluster& b, bool complete) { double least = kInf, most = 0; for (int i : a) { for (int j : b) { const double x = d[static_cast<size_t>(i)][static_cast<size_t>(j)]; least = std::min(least, x); most = std::max(most, x); } } return complete ? most : least; }
/// All results of merging a closest pair while it is within the limit.
void merge(const Matrix& d, const Partition& p, double last, double limit, bool complete, std::set<Outcome>& out, std::set<Outcome>& seen)
{
  if (!seen.insert({p, last}).second) { return; }
  double best = kInf; for (auto a = p.begin(); a != p.end(); ++a) { for (auto b = std::next(a); b != p.end(); ++b) { best = std::min(best, apart(d, *a, *b, complete)); } }
  if (best == kInf || !(best <= limit)) { out.insert({p, last}); return; }
  for (auto a = p.begin(); a != p.end(); ++a)
  {
    for (auto b = std::next(a); b != p.end(); ++b)
    {
      if (apart(d, *a, *b, complete) != best) { continue; } Partition q = p; q.erase(*a); q.erase(*b); Cluster c = *a; c.insert(c.end(), b->begin(), b->end()); std::sort(c.begin(), c.end()); q.insert(c); merge(d, q, best, limit, complete, out, seen);
    }
  }
}
struct Thing { int id; explicit Thing(int i) : id(i) {} };   // not default-constructible
std::string text(const Partition& p) { std::string s; for (const auto& c : p) { s += " {"; for (int i : c) { s += mc::str(" ", i); } s += " }"; } return s; }
void cluster(int n, const std::vector<double>& alphabet, const std::vector<double>& limits, const std::vector<int>& threads, const std::function<double(size_t, size_t)>& pattern = {})
{
  Matrix d(static_cast<size_t>(n), std::vector<double>(static_cast<size_t>(n), 0.0)); mc::Hash h; h.add(n);
  for (size_t i = 0; i < d.size(); i++) { for (size_t j = i + 1; j < d.size(); j++) { d[i][j] = d[j][i] = pattern ? pattern(i, j) : mc::pick(alphabet); h.add(d[i][j]); } }
  const double limit = mc::pick(limits); const bool complete = mc::flip();
  const auto told = [&] { std::string s = mc::str(n, " items at"); for (size_t i = 0; i < d.size(); i++) { for (size_t j = i + 1; j < d.size(); j++) { s += mc::str(" ", d[i][j]); } } return s + mc::str(", limit ", limit, complete ? ", complete" : ", single"); };
  Partition each; for (int i = 0; i < n; i++) { each.insert(Cluster{i}); } std::set<Outcome> allowed, seen; merge(d, each, 0.0, limit, complete, allowed, seen);
  std::vector<Thing> data; for (int i = 0; i < n; i++) { data.emplace_back(i); } Eigen::MatrixXd m(n, n); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { m(i, j) = d[static_cast<size_t>(i)][static_cast<size_t>(j)]; } }
  const std::function<double(const Thing&, const Thing&)> f = [&](const Thing& a, const Thing& b) { return d.at(static_cast<size_t>(a.id)).at(static_cast<size_t>(b.id)); };
  const auto strategy = complete ? hc::ClusterStrategy::COMPLETE_LINK : hc::ClusterStrategy::SINGLE_LINK;
  const auto judge = [&](const std::vector<std::vector<int>>& got, double last, const char* form, int t)
  {
    Partition p; std::set<int> in; size_t items = 0; for (Cluster c : got) { MC_CHECK(!c.empty(), told(), ", ", form, ": an empty cluster"); items += c.size(); for (int i : c) { MC_CHECK(i >= 0 && i < n && in.insert(i).second, told(), ", ", form, ": item ", i, " again"); } std::sort(c.begin(), c.end()); p.insert(c); }
    MC_CHECK(items == static_cast<size_t>(n), told(), ", ", form, ": ", items, " items"); MC_CHECK(allowed.count({p, last}), told(), ", ", form, " on ", t, " threads:", text(p), " at ", last, " is not reached by merging closest pairs, e.g.", text(allowed.begin()->first), " at ", allowed.begin()->second);
    if (complete) { for (const auto& c : p) { for (int i : c) { for (int j : c) { MC_CHECK(d[static_cast<size_t>(i)][static_cast<size_t>(j)] <= std::max(0.0, limit), told(), ": a cluster is wider than the limit"); } } } }
    mc::transition(); mc::state(mc::Hash().add(h.h).add(text(p)).h);
  };
  for (int t : threads)
  {
    const DegreeOfParallelism par = t == 0 ? DegreeOfParallelism::None() : DegreeOfParallelism(t);
    const auto indices = [](const hc::IndexClusteringResult& r) { std::vector<std::vector<int>> c; for (const auto& x : r.Clusters()) { c.emplace_back(x.begin(), x.end()); } return c; };
    const auto things = [](const auto& r) { std::vector<std::vector<int>> c; for (const auto& x : r.Clusters()) { c.emplace_back(); for (const Thing& y : x) { c.back().push_back(y.id); } } return c; };
    const auto a = hc::IndexClusterWithDistanceMatrix(m, limit, strategy, par); judge(indices(a), a.FinalClosestDistance(), "by matrix", t);
    if (t <= 2)
    {
      const auto b = hc::IndexCluster<Thing>(data, f, limit, strategy, par); judge(indices(b), b.FinalClosestDistance(), "by function", t);
      const auto c = hc::ClusterWithDistanceMatrix<Thing>(data, m, limit, strategy, par); judge(things(c), c.FinalClosestDistance(), "elements by matrix", t);
      const auto e = hc::Cluster<Thing>(data, f, limit, strategy, par); judge(things(e), e.FinalClosestDistance(), "elements by function", t);
      const auto g = hc::MakeElementClusteringFromIndexClustering<Thing>(data, a); MC_CHECK(things(g) == indices(a) && g.FinalClosestDistance() == a.FinalClosestDistance(), told(), ": element clusters differ from index clusters");
    }
  }
  if (mc::want_note()) { mc::note(mc::str(told(), " ->", text(allowed.begin()->first), " (", allowed.size(), " possible)")); }
}
void refuse()
{
  const int n = mc::choose(4), r = mc::choose(4), c = mc::choose(4); std::vector<Thing> data; for (int i = 0; i < n; i++) { data.emplace_back(i); } const Eigen::MatrixXd m = Eigen::MatrixXd::Zero(r, c); const DegreeOfParallelism par = mc::flip() ? DegreeOfParallelism(2) : DegreeOfParallelism::None();
  int t = mc::throws([&] { hc::IndexClusterWithDistanceMatrix(m, 1.0, hc::ClusterStrategy::SINGLE_LINK, par); }); MC_CHECK(t == (r != c || r == 0 ? 1 : 0), "a ", r, "x", c, " matrix", t ? " refused" : " accepted");
  t = mc::throws([&] { hc::ClusterWithDistanceMatrix<Thing>(data, m, 1.0, hc::ClusterStrategy::COMPLETE_LINK, par); }); MC_CHECK(t == (n == 0 || r != n || c != n ? 1 : 0), n, " items with a ", r, "x", c, " matrix", t ? " refused" : " accepted");
  t = mc::throws([&] { hc::Cluster<Thing>(data, [](const Thing&, const Thing&) { return 0.5; }, 1.0, hc::ClusterStrategy::COMPLETE_LINK, par); }); MC_CHECK(t == (n == 0 ? 1 : 0), n, " items", t ? " refused" : " accepted"); mc::transition();
}
}
void mc::run()
{
  scenario("sizes", [] { refuse(); });
  const std::vector<double> limits{-1.0, 0.0, 1.0, 2.5, 3.0, 1e300}; const double up = std::nextafter(1.0, 2.0);
  for (int n = 1; n <= 3; n++) { scenario(str(n, " items"), [=] { cluster(n, {0.0, 1.0, up, 3.0, kInf}, limits, {0, 2, 3}); }); }
  scenario("4 items", [=] { cluster(4, {0.0, 1.0, 2.0, 3.0}, {0.0, 1.5, 2.0, 3.0}, {0}); }, 4); scenario("4 items, parallel", [=] { cluster(4, {1.0, 2.0, 3.0}, {1.0, 3.0}, {2, 3, 4}); }, 4);
  scenario("5 items", [=] { cluster(5, thorough() ? std::vector<double>{1.0, 2.0, 3.0} : std::vector<double>{1.0, 3.0}, {1.0, 2.0, 3.0}, {0, 2}); }, 4);
  scenario("items on a line", []
  {   // given in several orders
    const int n = mc::by_tier(7, 9); std::vector<double> at{0.0}; for (int i = 1; i < n; i++) { at.push_back(at.back() + mc::pick(i < mc::by_tier(6, 8) ? std::vector<double>{1.0, 1.375, 5.0} : std::vector<double>{1.25, 2.0})); }
    const int order = mc::choose(3); if (order) { std::vector<double> mixed; for (int i = 0; i < n; i++) { mixed.push_back(at[static_cast<size_t>(i * (order == 1 ? 2 : 5) % n)]); } if (std::set<double>(mixed.begin(), mixed.end()).size() == at.size()) { at = mixed; } }
    const double unit = mc::flip() ? 1.0 : 0.1 / 3.0;   // with inexact distances
    cluster(n, {}, {1.3 * unit, 4.0 * unit, 6.5 * unit, 100.0}, {mc::flip() ? 3 : 0}, [&](size_t i, size_t j) { return std::abs(at[i] - at[j]) * unit; });
  }, 5);
  scenario("4 items at nearly equal distances", [=] { cluster(4, {1.0, up, 2.0}, {1.0, 5.0}, {0, 2}); }, 4);
  scenario("three pairs at nearly equal distances", [=]
  {   // the pairs are merged first, then the closest two of them
    const bool halves = mc::flip(); std::vector<double> d; for (int i = 0; i < 36; i++) { d.push_back(0.0); }
    for (size_t i = 0; i < 6; i++) { for (size_t j = i + 1; j < 6; j++) { d[i * 6 + j] = i / 2 == j / 2 ? 0.25 + 0.125 * static_cast<double>(i / 2) : (halves ? i : j) % 2 == 1 ? (halves ? 1.5 : 0.9) : mc::flip() ? up : 1.0; } }
    cluster(6, {}, {1.0, up, 5.0}, {0, 2}, [=](size_t i, size_t j) { return d[std::min(i, j) * 6 + std::max(i, j)]; });
  }, 5);
  scenario("two pairs and an item", [=]
  {   // the pairs are merged first; then two clusters, or the item and one of them, are the closest by little
    const int item = mc::pick(std::vector<int>{0, 2, 4}); const std::vector<double> near{1.0, up, 1.0 + 1e-9, 1.001, 2.0}; const double ab = mc::pick(near), ai = mc::pick(near), bi = mc::pick(near);
    cluster(5, {}, {1.0, up, 5.0}, {0, 2}, [=](size_t i, size_t j) { const auto group = [=](size_t k) { return static_cast<int>(k) == item ? 2 : (static_cast<int>(k) - (static_cast<int>(k) > item ? 1 : 0)) / 2; }; const int g = group(i), h = group(j); return g == h ? 0.25 + 0.125 * g : g + h == 1 ? ab : g + h == 2 ? ai : bi; });
  }, 3);
  scenario("many items", []
  {   // all distances different: scattered ones, groups, or points in a row
    const int n = mc::pick(std::vector<int>{8, 12, 16, 17, 24, 33, 40}), kind = mc::choose(3), seed = mc::choose(mc::by_tier(6, 30)); const size_t un = static_cast<size_t>(n);
    const auto at = [=](size_t i) { return static_cast<double>((i * 7919 + static_cast<size_t>(seed) * 12345 + i * i * 31) % 9973); };
    cluster(n, {}, kind == 0 ? std::vector<double>{200.5, 2000.5, 6000.5, 1e300} : kind == 1 ? std::vector<double>{60.5, 500.5, 1e300} : std::vector<double>{100.5, 700.5, 4000.5}, {0, 3, 7}, [=](size_t i, size_t j)
    {
      const double own = 1e-4 * static_cast<double>(i * un + j);
      if (kind == 0) { return static_cast<double>((i * 7919 + j * 104729 + i * j * static_cast<size_t>(37 + seed * 11)) % 9967) + own; }
      if (kind == 1) { return (i % 5 == j % 5 ? 0.0 : 500.0) + static_cast<double>((i * 31 + j * 17 + i * j * static_cast<size_t>(7 + seed)) % 97) + own; }
      return std::abs(at(i) - at(j)) + own;
    });
  }, 3);
  scenario("5 items, one limit", [=] { cluster(5, {1.0, 2.0, 3.0}, {2.0}, {0}); }, 4);
  if (thorough()) { scenario("6 items", [=] { cluster(6, {1.0, 2.0}, {1.0, 2.0}, {0, 3}); }, 4); scenario("4 items, five distances", [=] { cluster(4, {0.0, 1.0, up, 2.0, kInf}, limits, {0, 2}); }, 4); }
}
