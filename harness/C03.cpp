// C03: parallel distance and clustering queries equal the serial result.
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include "mc.hpp"
#include "mcs.hpp"
#include <common_robotics_utilities/math.hpp>
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>
MC_HARNESS("C03", "every query kind x small data set (with ties) x parameters x requested and delivered thread count x called from outside or inside of a parallel region, compared with the serial call and a "
                  "brute-force reference, with happens-before race detection; small configurations under every schedule within the deviation bound; a state is a distinct (configuration, result)")
using namespace common_robotics_utilities;
using parallelism::DegreeOfParallelism;
namespace hc = simple_hierarchical_clustering;
namespace
{
using Data = std::vector<int>;
struct Machine { int threads, delivered, nested; };
std::string text(const Machine& m) { return mc::str(m.threads, " threads, ", m.delivered, " delivered", m.nested ? m.nested == 1 ? ", called by each thread of a region" : ", called by one thread of a region" : ""); }
double apart(const int& a, const int& b) { return std::abs(a - b); }
const std::function<double(const int&, const int&)> kApart = apart;

/// Runs f once or, nested, in each thread of a region of two; f gets a slot for its result.
void in_place(const Machine& m, const std::function<void(int)>& f)
{
#if defined(_OPENMP)
  if (m.nested)
  {
#pragma omp parallel num_threads(2)
    {
      const int me = omp_get_thread_num();
      if (m.nested == 1 || me == 0) { f(me); }
    }
    return;
  }
#endif
  f(0);
}
struct Checked { int threw = 0; std::string what; };
template<typename F> int caught(F&& f) { try { f(); return 0; } catch (const mc::Fail&) { throw; } catch (const mc::Skip&) { throw; } catch (const std::exception&) { return 1; } }

void knn(const Data& data, size_t from, size_t to, bool full, int64_t k, int query, const Machine& m, const mcs::Options& o)
{
  using R = std::vector<simple_knearest_neighbors::IndexAndDistance>;
  R results[2], serial; int threw[2] = {-1, -1}, threw_serial = -1;
  mcs::run(o, [&] {
    const auto call = [&](const DegreeOfParallelism& p) {
      return full ? simple_knearest_neighbors::GetKNearestNeighbors<int, int>(data, query, kApart, k, p) : simple_knearest_neighbors::GetKNearestNeighborsInRange<int, int>(data, from, to, query, kApart, k, p); };
    threw_serial = caught([&] { serial = call(DegreeOfParallelism::None()); });
    in_place(m, [&](int slot) { threw[slot] = caught([&] { results[slot] = call(DegreeOfParallelism(m.threads)); }); });
  });
  if (full) { from = 0; to = data.size(); }
  const std::string what = mc::str(k, " nearest neighbours of ", query, " in ", mc::vstr(data), "[", from, ",", to, ") with ", text(m));
  const bool bad = k < 0 || to < from || to > data.size();
  MC_CHECK(threw_serial == (bad ? 1 : 0), what, ": the serial call ", bad ? "does not refuse" : "refuses");
  std::vector<double> want;
  if (!bad) { for (size_t i = from; i < to; i++) { want.push_back(apart(data[i], query)); } }
  std::sort(want.begin(), want.end()); want.resize(std::min(want.size(), static_cast<size_t>(std::max<int64_t>(k, 0))));
  mc::Hash h; h.add(what);
  const auto check = [&](const R& r, const std::string& who) {
    std::vector<double> got; std::set<int64_t> seen;
    for (const auto& e : r)
    {
      MC_CHECK(e.Index() >= static_cast<int64_t>(from) && e.Index() < static_cast<int64_t>(to), what, ": ", who, " reports index ", e.Index());
      MC_CHECK(seen.insert(e.Index()).second, what, ": ", who, " reports index ", e.Index(), " twice");
      MC_CHECK(e.Distance() == apart(data[static_cast<size_t>(e.Index())], query), what, ": ", who, " reports distance ", e.Distance(), " for index ", e.Index());
      got.push_back(e.Distance()); h.add(e.Index());
    }
    std::sort(got.begin(), got.end());
    MC_CHECK(got == want, what, ": ", who, " reports distances ", mc::vstr(got), ", expected ", mc::vstr(want));
  };
  check(serial, "the serial call");
  for (int s = 0; s < 2; s++)
    if (threw[s] >= 0) { MC_CHECK(threw[s] == threw_serial, what, ": the parallel call ", threw[s] ? "throws" : "does not throw"); check(results[s], "the parallel call"); }
  mc::state(h.h);
  if (mc::want_note()) { mc::note(what + " -> " + mc::vstr(want)); }
}
void hausdorff(const Data& a, const Data& b, bool matrix, const Machine& m, const mcs::Options& o)
{
  double results[2] = {-1, -1}, serial = -1; int threw[2] = {-1, -1}, ts = -1;
  mcs::run(o, [&] {
    Eigen::MatrixXd d(a.size(), b.size());
    for (size_t i = 0; i < a.size(); i++) { for (size_t j = 0; j < b.size(); j++) { d(static_cast<long>(i), static_cast<long>(j)) = apart(a[i], b[j]); } }
    const auto call = [&](const DegreeOfParallelism& p) { return matrix ? simple_hausdorff_distance::ComputeDistance<int, int>(a, b, d, p) : simple_hausdorff_distance::ComputeDistance<int, int>(a, b, kApart, p); };
    ts = caught([&] { serial = call(DegreeOfParallelism::None()); });
    in_place(m, [&](int slot) { threw[slot] = caught([&] { results[slot] = call(DegreeOfParallelism(m.threads)); }); });
  });
  const std::string what = mc::str("Hausdorff distance ", matrix ? "(matrix) " : "", "from ", mc::vstr(a), " to ", mc::vstr(b), " with ", text(m));
  const bool bad = a.empty() || b.empty(); double want = 0;
  for (int x : a) { double least = INFINITY; for (int y : b) { least = std::min(least, apart(x, y)); } want = std::max(want, least); }
  MC_CHECK(ts == (bad ? 1 : 0) && (bad || serial == want), what, ": the serial call gives ", serial, ", expected ", want);
  for (int s = 0; s < 2; s++)
    if (threw[s] >= 0) { MC_CHECK(threw[s] == ts && (bad || results[s] == want), what, ": the parallel call gives ", results[s], ", expected ", want); }
  mc::state(mc::Hash().add(what).add(want).h);
  if (mc::want_note()) { mc::note(mc::str(what, " -> ", want)); }
}
void matrices(const Data& a, const Data& b, bool self, const Machine& m, const mcs::Options& o)
{
  Eigen::MatrixXd results[2], serial; bool used[2] = {false, false};
  const std::function<double(const int&, const int&)> d = [](const int& x, const int& y) { return apart(x, y) + 0.25; };
  mcs::run(o, [&] {
    const auto call = [&](const DegreeOfParallelism& p) { return self ? math::BuildPairwiseDistanceMatrix<int>(a, d, p) : math::BuildPairwiseDistanceMatrix<int, int>(a, b, d, p); };
    serial = call(DegreeOfParallelism::None());
    in_place(m, [&](int slot) { results[slot] = call(DegreeOfParallelism(m.threads)); used[slot] = true; });
  });
  const std::string what = mc::str("distance matrix of ", mc::vstr(a), self ? std::string() : " and " + mc::vstr(b), " with ", text(m));
  const Data& c = self ? a : b; Eigen::MatrixXd want(a.size(), c.size());
  for (size_t i = 0; i < a.size(); i++) { for (size_t j = 0; j < c.size(); j++) { want(static_cast<long>(i), static_cast<long>(j)) = self && i == j ? 0.0 : d(a[i], c[j]); } }
  const auto same = [&](const Eigen::MatrixXd& x) { return x.rows() == want.rows() && x.cols() == want.cols() && (x.array() == want.array()).all(); };
  MC_CHECK(same(serial), what, ": the serial matrix is wrong");
  for (int s = 0; s < 2; s++) { if (used[s]) { MC_CHECK(same(results[s]), what, ": the parallel matrix is wrong"); } }
  mc::state(mc::Hash().add(what).h);
  if (mc::want_note()) { mc::note(what); }
}
/// A clustering: its clusters as sorted lists, sorted, and the last merging distance.
using Partition = std::pair<std::vector<std::vector<int64_t>>, double>;
Partition normal(std::vector<std::vector<int64_t>> c, double d) { for (auto& x : c) { std::sort(x.begin(), x.end()); } std::sort(c.begin(), c.end()); return {c, d}; }
/// All outcomes of merging closest clusters first, over all ways of breaking ties.
void outcomes(const Data& data, std::vector<std::vector<int64_t>> now, double last, double limit, bool complete, std::set<Partition>& done, std::set<std::vector<std::vector<int64_t>>>& visited)
{
  now = normal(now, 0).first;
  if (!visited.insert(now).second) { return; }
  double best = INFINITY; std::vector<std::pair<size_t, size_t>> pairs;
  for (size_t i = 0; i < now.size(); i++)
    for (size_t j = i + 1; j < now.size(); j++)
    {
      double lo = INFINITY, hi = 0;
      for (int64_t x : now[i]) { for (int64_t y : now[j]) { const double d = apart(data[static_cast<size_t>(x)], data[static_cast<size_t>(y)]); lo = std::min(lo, d); hi = std::max(hi, d); } }
      const double d = complete ? hi : lo;
      if (d < best) { best = d; pairs.clear(); }
      if (d == best) { pairs.emplace_back(i, j); }
    }
  if (pairs.empty() || best > limit) { done.insert(normal(now, last)); return; }
  for (const auto& [i, j] : pairs)
  {
    auto next = now; next[i].insert(next[i].end(), next[j].begin(), next[j].end()); next.erase(next.begin() + static_cast<long>(j));
    outcomes(data, next, best, limit, complete, done, visited);
  }
}
void hierarchical(const Data& data, double limit, bool complete, bool values, const Machine& m, const mcs::Options& o)
{
  Partition results[2], serial; bool used[2] = {false, false};
  mcs::run(o, [&] {
    const auto call = [&](const DegreeOfParallelism& p) {
      const auto strategy = complete ? hc::ClusterStrategy::COMPLETE_LINK : hc::ClusterStrategy::SINGLE_LINK;
      if (!values) { const auto r = hc::IndexCluster<int>(data, kApart, limit, strategy, p); return normal(r.Clusters(), r.FinalClosestDistance()); }
      const auto r = hc::Cluster<int>(data, kApart, limit, strategy, p);
      // Values back to indices; equal values are numbered in order.
      std::map<int, std::vector<int64_t>> of; for (size_t i = data.size(); i > 0; i--) { of[data[i - 1]].push_back(static_cast<int64_t>(i - 1)); }
      std::vector<std::vector<int64_t>> c;
      for (const auto& cluster : r.Clusters()) { c.emplace_back(); for (int v : cluster) { MC_CHECK(!of[v].empty(), "clustering invents the value ", v); c.back().push_back(of[v].back()); of[v].pop_back(); } }
      return normal(c, r.FinalClosestDistance());
    };
    serial = call(DegreeOfParallelism::None());
    in_place(m, [&](int slot) { results[slot] = call(DegreeOfParallelism(m.threads)); used[slot] = true; });
  });
  const std::string what = mc::str(complete ? "complete" : "single", "-link clustering of ", mc::vstr(data), " up to ", limit, " with ", text(m));
  std::set<Partition> good; std::set<std::vector<std::vector<int64_t>>> visited; std::vector<std::vector<int64_t>> start;
  for (size_t i = 0; i < data.size(); i++) { start.push_back({static_cast<int64_t>(i)}); }
  outcomes(data, start, 0.0, limit, complete, good, visited);
  const auto show = [](const Partition& p) { std::string s; for (const auto& c : p.first) { s += mc::vstr(c); } return mc::str(s, " at ", p.second); };
  const auto matches = [&](const Partition& p) {
    if (!values) { return good.count(p) > 0; }
    for (const auto& g : good)
    {
      // compare as clusters of values
      const auto of = [&](const Partition& q) { std::vector<std::vector<int64_t>> c; for (const auto& x : q.first) { c.emplace_back(); for (int64_t i : x) { c.back().push_back(data[static_cast<size_t>(i)]); } } return normal(c, q.second); };
      if (of(g) == of(p)) { return true; }
    }
    return false;
  };
  MC_CHECK(matches(serial), what, ": the serial result ", show(serial), " is not a merging of closest clusters first");
  for (int s = 0; s < 2; s++) { if (used[s]) { MC_CHECK(matches(results[s]), what, ": the parallel result is ", show(results[s]), ", expected e.g. ", show(*good.begin())); } }
  mc::state(mc::Hash().add(what).add(show(serial)).add(show(results[0])).h);
  if (mc::want_note()) { mc::note(what + " -> " + show(serial)); }
}
void kmeans(const Data& data, int k, int64_t seed, bool preliminary, bool weighted, const Machine& m, const mcs::Options& o)
{
  using D = std::vector<double>;
  D values; for (int v : data) { values.push_back(v); }
  std::vector<double> weights; for (size_t i = 0; i < data.size(); i++) { weights.push_back(1.0 + static_cast<double>(i % 3)); }
  std::vector<int32_t> results[2], serial; int threw[2] = {-1, -1}, ts = -1;
  const std::function<double(const double&, const double&)> d = [](const double& x, const double& y) { return std::abs(x - y); };
  // An empty cluster moves far away.
  const std::function<double(const D&, const std::vector<double>&)> wmean = [](const D& x, const std::vector<double>& w) { double s = 0, t = 0; for (size_t i = 0; i < x.size(); i++) { s += x[i] * w[i]; t += w[i]; } return x.empty() ? 1000.0 : s / t; };
  const std::function<double(const D&)> mean = [](const D& x) { double s = 0; for (double v : x) { s += v; } return x.empty() ? 1000.0 : s / static_cast<double>(x.size()); };
  mcs::run(o, [&] {
    const auto call = [&](const DegreeOfParallelism& p) {
      return weighted ? simple_kmeans_clustering::ClusterWeighted<double>(values, weights, d, wmean, k, seed, preliminary, p) : simple_kmeans_clustering::Cluster<double>(values, d, mean, k, seed, preliminary, p); };
    ts = caught([&] { serial = call(DegreeOfParallelism::None()); });
    in_place(m, [&](int slot) { threw[slot] = caught([&] { results[slot] = call(DegreeOfParallelism(m.threads)); }); });
  });
  const std::string what = mc::str(k, "-means clustering of ", mc::vstr(data), ", seed ", seed, preliminary ? ", preliminary pass" : "", weighted ? ", weighted" : "", " with ", text(m));
  if (ts == 0)
  {
    MC_CHECK(serial.size() == data.size(), what, ": ", serial.size(), " labels");
    for (int32_t l : serial) { MC_CHECK(l >= 0 && l < std::max(k, 1), what, ": label ", l); }
  }
  for (int s = 0; s < 2; s++)
    if (threw[s] >= 0) { MC_CHECK(threw[s] == ts && results[s] == serial, what, ": the parallel labels are ", mc::vstr(results[s]), ", the serial ones ", mc::vstr(serial)); }
  mc::state(mc::Hash().add(what).addv(serial).h);
  if (mc::want_note()) { mc::note(what + " -> " + mc::vstr(serial)); }
}
#if defined(_OPENMP)
const bool kOmp = true;
#else
const bool kOmp = false;
#endif
Machine machine(bool nested)
{
  Machine m; m.threads = 2 + mc::choose(3); m.delivered = kOmp ? mc::pick(std::vector<int>{64, 2, 1}) : 64;
  m.nested = kOmp && nested ? mc::choose(3) : 0;
  if (m.delivered >= m.threads && m.delivered != 64) { throw mc::Skip(); }
  return m;
}
Data dataset(int most, const std::vector<int>& alphabet)
{
  const int n = mc::choose(most + 1); Data d;
  for (int i = 0; i < n; i++) { d.push_back(mc::pick(alphabet)); }
  return d;
}
mcs::Options options(const Machine& m, int deviations, bool free)
{ mcs::Options o; o.preemptions = deviations; o.free_switches = free; o.omp_delivered = m.delivered; return o; }
const std::vector<int> kTies{0, 2, 3};
}
void mc::run()
{
  scenario("nearest neighbours", [] {
    const Machine m = machine(true); const Data d = dataset(by_tier(5, 6), kTies); const bool full = flip();
    const size_t from = full ? 0 : static_cast<size_t>(choose(2)), to = full ? d.size() : d.size() + 1 - static_cast<size_t>(choose(std::min<int>(3, static_cast<int>(d.size()) + 1)));
    const int64_t k = full ? choose(static_cast<int>(d.size()) + 3) - 1 : 1 + choose(2);
    knn(d, from, to, full, k, 2, m, options(m, 0, false));
  }, 6);
  scenario("Hausdorff distance", [] {
    const Machine m = machine(true); const Data a = dataset(by_tier(3, 4), {0, 2, 5}), b = dataset(2, {1, 4});
    hausdorff(a, b, flip(), m, options(m, 0, false));
  }, 6);
  scenario("distance matrices", [] {
    const Machine m = machine(true); const Data a = dataset(by_tier(3, 4), {0, 2, 5}), b = dataset(2, {1, 4});
    const bool self = flip(); if (self && !b.empty()) { throw Skip(); }
    matrices(a, b, self, m, options(m, 0, false));
  }, 6);
  scenario("hierarchical clustering", [] {
    const Machine m = machine(false); const Data d = dataset(by_tier(4, 5), {0, 2, 3}); if (d.empty()) { throw Skip(); }
    const double limit = pick(std::vector<double>{0, 1, 2.5, 10}); const bool complete = flip(), values = flip();
    hierarchical(d, limit, complete, values, m, options(m, 0, false));
  }, 6);
  scenario("hierarchical clustering, larger", [] {
    const Machine m = machine(true);
    const Data d = pick(std::vector<Data>{{0, 10, 1, 11, 2, 30}, {5, 0, 9, 14, 20, 27, 35}, {0, 2, 4, 6, 8}, {7, 7, 7, 7, 1}, {1, 2, 4, 8, 16, 32}});
    hierarchical(d, pick(std::vector<double>{1, 2, 3, 9, 100}), flip(), flip(), m, options(m, 0, false));
  }, 6);
  scenario("k-means", [] {
    const Machine m = machine(false); const Data d = dataset(by_tier(4, 5), {0, 2, 9});
    kmeans(d, choose(static_cast<int>(d.size()) + 3) - 1, choose(2), false, flip(), m, options(m, 0, false));
  }, 6);
  scenario("k-means with a preliminary pass", [] {
    const Machine m = machine(true); Data d; for (int i = 0; i < 80; i++) { d.push_back((i * 37) % 101 + (i % 3) * 200); }
    kmeans(d, 2 + choose(2) * by_tier(0, 1), 42, true, flip(), m, options(m, 0, false));
  }, 4);
  // Schedules.
  const int deviations = kOmp ? by_tier(2, 3) : by_tier(1, 2);
  scenario("schedules of nearest neighbours", [=] {
    Machine m{2 + choose(2), 64, kOmp ? choose(3) : 0};
    knn({3, 0, 2, 2}, 0, 4, true, pick(std::vector<int64_t>{1, 2, 4}), 2, m, options(m, m.nested ? deviations - 1 : deviations, false));
  }, 8);
  scenario("schedules of Hausdorff distance and matrices", [=] {
    Machine m{2 + choose(2), 64, kOmp ? choose(3) : 0}; const int what = choose(4); const mcs::Options o = options(m, m.nested ? deviations - 1 : deviations, false);
    if (what < 2) { hausdorff({0, 5, 2}, {1, 4}, what == 0, m, o); } else { matrices({0, 2, 5}, {1, 4}, what == 2, m, o); }
  }, 8);
  scenario("schedules of clustering", [=] {
    Machine m{2 + choose(2), 64, 0}; const int what = choose(4); const mcs::Options o = options(m, deviations - 1, false);
    if (what < 2) { hierarchical({0, 3, 1, 9}, 2.5, what == 0, false, m, o); } else { kmeans({0, 9, 1, 8}, 2, 1, false, what == 2, m, o); }
  }, 8);
}
