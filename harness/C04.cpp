// C04: parallel graph and roadmap work equals the serial result.
#include <algorithm>
#include <atomic>
#include <cmath>
#include <set>
#include <unordered_set>
#include <vector>
#include "mc.hpp"
#include "mcs.hpp"
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_prm_planner.hpp>
MC_HARNESS("C04", "every operation (pruning, edge update, insertion, growing, building, queries) x small graph or state list x options x requested and delivered thread count x called from outside or inside of a parallel region, "
                  "compared with the serial call, with happens-before race detection; small configurations under every schedule within the deviation bound; a state is a distinct (configuration, resulting graph)")
using namespace common_robotics_utilities;
using parallelism::DegreeOfParallelism;
namespace sg = simple_graph;
namespace prm = simple_prm_planner;
namespace
{
#if defined(_OPENMP)
const bool kOmp = true;
#else
const bool kOmp = false;
#endif
using Data = std::vector<int>;
using G = sg::Graph<int>;
using Overlay = sg::NonOwningGraphOverlay<int, G>;
struct Machine { int threads, delivered, nested; };
std::string text(const Machine& m) { return mc::str(m.threads, " threads, ", m.delivered, " delivered", m.nested ? m.nested == 1 ? ", called by each thread of a region" : ", called by one thread of a region" : ""); }
void in_place(const Machine& m, const std::function<void(int)>& f)
{
#if defined(_OPENMP)
  if (m.nested)
  {
#pragma omp parallel num_threads(2)
    {
      const int me = omp_get_thread_num();
      if (m.nested == 1 || me == 0) { f(me); }
    }
    return;
  }
#endif
  f(0);
}
/// What an operation leaves behind.
struct Result
{
  bool threw = false, linked = true; std::vector<int64_t> numbers; std::vector<int> values;
  std::vector<std::vector<std::pair<int64_t, double>>> in, out;
  std::string problem;
  bool operator==(const Result& o) const { return threw == o.threw && linked == o.linked && numbers == o.numbers && values == o.values && in == o.in && out == o.out && problem == o.problem; }
};
std::string text(const Result& r)
{
  if (r.threw) { return "exception"; }
  std::string s = r.linked ? "" : "BAD LINKAGE "; if (!r.problem.empty()) { s += r.problem + " "; }
  for (size_t i = 0; i < r.values.size(); i++)
  {
    s += mc::str(i, "(", r.values[i], ") in"); for (const auto& e : r.in[i]) { s += mc::str(" ", e.first, ":", e.second); }
    s += " out"; for (const auto& e : r.out[i]) { s += mc::str(" ", e.first, ":", e.second); } s += "; ";
  }
  return s + mc::vstr(r.numbers);
}
/// The graph with its edges sorted; with by_value, nodes are named by their values.
template<typename Gr> Result graph(const Gr& g, std::vector<int64_t> numbers = {}, bool by_value = false)
{
  Result r; r.numbers = std::move(numbers);
  std::vector<int64_t> order; for (int64_t i = 0; i < g.Size(); i++) { order.push_back(i); }
  const auto value = [&](int64_t i) { return g.GetNodeImmutable(i).GetValueImmutable(); };
  if (by_value) { std::sort(order.begin(), order.end(), [&](int64_t a, int64_t b) { return value(a) < value(b); }); }
  std::vector<int64_t> name(order.size()); for (size_t k = 0; k < order.size(); k++) { name[static_cast<size_t>(order[k])] = static_cast<int64_t>(k); }
  const auto named = [&](int64_t i) { return i >= 0 && i < static_cast<int64_t>(name.size()) ? name[static_cast<size_t>(i)] : -1000 - i; };
  for (const int64_t i : order)
  {
    const auto& n = g.GetNodeImmutable(i);
    r.values.push_back(n.GetValueImmutable()); r.in.emplace_back(); r.out.emplace_back();
    for (const auto& e : n.GetInEdgesImmutable()) { r.in.back().emplace_back(named(e.GetFromIndex()), e.GetWeight()); if (e.GetToIndex() != i) { r.problem = mc::str("in edge of node ", i, " names ", e.GetToIndex()); } }
    for (const auto& e : n.GetOutEdgesImmutable()) { r.out.back().emplace_back(named(e.GetToIndex()), e.GetWeight()); if (e.GetFromIndex() != i) { r.problem = mc::str("out edge of node ", i, " names ", e.GetFromIndex()); } }
    std::sort(r.in.back().begin(), r.in.back().end()); std::sort(r.out.back().begin(), r.out.back().end());
  }
  // Mirrored exactly: the in records and the out records are the same edges.
  std::multiset<std::tuple<int64_t, int64_t, double>> a, b;
  for (size_t i = 0; i < order.size(); i++)
  {
    for (const auto& e : r.in[i]) { a.emplace(e.first, static_cast<int64_t>(i), e.second); }
    for (const auto& e : r.out[i]) { b.emplace(static_cast<int64_t>(i), e.first, e.second); }
  }
  r.linked = a == b;
  return r;
}
using Job = std::function<Result(const DegreeOfParallelism&)>;
void compare(const std::string& what, const Job& job, const Machine& m, int deviations)
{
  mcs::Options o; o.preemptions = deviations; o.free_switches = false; o.omp_delivered = m.delivered;
  Result serial, results[2]; bool used[2] = {false, false};
  const auto call = [&](const DegreeOfParallelism& p) { try { return job(p); } catch (const mc::Fail&) { throw; } catch (const mc::Skip&) { throw; } catch (const std::exception&) { Result r; r.threw = true; return r; } };
  mcs::run(o, [&] {
    serial = call(DegreeOfParallelism::None());
    in_place(m, [&](int slot) { results[slot] = call(DegreeOfParallelism(m.threads)); used[slot] = true; });
  });
  MC_CHECK(serial.linked && serial.problem.empty(), what, ": the serial call leaves ", text(serial));
  for (int s = 0; s < 2; s++) { if (used[s]) { MC_CHECK(results[s] == serial, what, " with ", text(m), ": the parallel call leaves ", text(results[s]), ", the serial one ", text(serial)); } }
  mc::transition(2); mc::state(mc::Hash().add(what).add(text(m)).add(text(serial)).h);
  if (mc::want_note()) { mc::note(what + " with " + text(m) + " -> " + text(serial)); }
}
// Deterministic user functions.
double apart(const int& a, const int& b) { return std::abs(a - b); }
double skewed(const int& a, const int& b) { return std::abs(a - b) + (a < b ? 0.25 : 0.0); }
const std::function<double(const int&, const int&)> kDistance[2] = {skewed, apart};
using Valid = std::function<bool(const int32_t, const int&, const int&)>;
/// Edge validity: pattern 0 all, 1 odd sums (symmetric), 2 upward only, 3 none.
Valid validity(int pattern)
{
  return [pattern](const int32_t, const int& a, const int& b) { return pattern == 0 || (pattern == 1 && (a + b) % 2 != 0) || (pattern == 2 && a < b); };
}
/// An edge validity check that keeps a context per thread, as documented users do; a shared context shows as a race.
struct Contexts
{
  std::vector<int> used = std::vector<int>(64, 0);
  Valid wrap(const Valid& v) { return [this, v](const int32_t t, const int& a, const int& b) { mcs::point(); used.at(static_cast<size_t>(t))++; return v(t, a, b); }; }
};
G make(const Data& values, int edges)
{
  G g; for (int v : values) { g.AddNode(v); }
  const int n = static_cast<int>(values.size());
  for (int a = 0; a < n; a++)
    for (int b = 0; b < n; b++)
      if (a != b && (edges == 0 || (edges == 1 && (a * 2 + b) % 3 != 0) || (edges == 2 && a < b) || (edges == 3 && (b - a + n) % n == 1) || (edges == 4 && b == 0) || (edges == 5 && a == 0)))
      {
        g.AddEdgeBetweenNodes(a, b, 1.0 + a + 10.0 * b);
        if (edges == 3) { g.AddEdgeBetweenNodes(a, b, 100.0 + a + 10.0 * b); }
      }
  return g;
}
const Data kValues{4, 9, 1, 16, 11, 30};
Data first(int n) { return Data(kValues.begin(), kValues.begin() + n); }

void prune(int n, int edges, int mask, bool overlay, const Machine& m, int deviations)
{
  std::unordered_set<int64_t> drop; for (int i = 0; i < n; i++) { if (mask >> i & 1) { drop.insert(i); } }
  compare(mc::str("pruning nodes ", mask, " of ", n, " with edges ", edges, overlay ? " through an overlay" : ""), [=](const DegreeOfParallelism& p) {
    const G g = make(first(n), edges); const Result before = graph(g);
    const G out = overlay ? sg::PruneGraph<Overlay, G>(Overlay(g), drop, p) : g.MakePrunedCopy(drop, p);
    MC_CHECK(graph(g) == before, "pruning changed its source");
    return graph(out, {g.Size()});
  }, m, deviations);
}
void update(int n, int edges, int pattern, const Machine& m, int deviations)
{
  compare(mc::str("updating ", n, " nodes with edges ", edges, ", validity ", pattern), [=](const DegreeOfParallelism& p) {
    G g = make(first(n), edges); Contexts c;
    prm::UpdateRoadMapEdges<int, G>(g, c.wrap(validity(pattern)), kDistance[0], p);
    return graph(g);
  }, m, deviations);
}
void insert(int n, int edges, int state, int k, int pattern, bool symmetric, bool duplicates, bool to_roadmap, bool overlay, bool knn, const Machine& m, int deviations)
{
  compare(mc::str("adding ", state, " to ", n, " nodes, k ", k, ", validity ", pattern, symmetric ? ", symmetric" : "", duplicates ? ", duplicates kept" : "", to_roadmap ? ", towards the roadmap" : "", overlay ? ", overlay" : "", knn ? ", parallel search" : ""), [=](const DegreeOfParallelism& p) {
    G g = make(first(n), edges); Contexts c; const auto check = c.wrap(validity(pattern));
    const prm::LinearGraphKNNProvider<int, G> provider(kDistance[symmetric], knn ? p : DegreeOfParallelism::None());
    const auto direction = to_roadmap ? prm::NNDistanceDirection::NEW_STATE_TO_ROADMAP : prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE;
    if (overlay)
    {
      Overlay o(g); const int64_t at = prm::AddNodeToRoadmap<int, Overlay>(state, direction, o, provider, kDistance[symmetric], check, k, o.Size(), p, symmetric, duplicates);
      return graph(o, {at});
    }
    const int64_t at = prm::AddNodeToRoadmap<int, G>(state, direction, g, provider, kDistance[symmetric], check, k, g.Size(), p, symmetric, duplicates);
    return graph(g, {at});
  }, m, deviations);
}
void grow(const Data& samples, int k, int pattern, bool symmetric, bool duplicates, bool knn, const Machine& m, int deviations)
{
  compare(mc::str("growing over ", mc::vstr(samples), ", k ", k, ", validity ", pattern, symmetric ? ", symmetric" : "", duplicates ? ", duplicates kept" : "", knn ? ", parallel search" : ""), [=](const DegreeOfParallelism& p) {
    G g; size_t next = 0; Contexts c;
    const std::function<int(const int32_t)> sample = [&](const int32_t) { return samples[next++]; };
    const std::function<bool(const int32_t, const int&)> valid = [](const int32_t, const int& s) { return s != 7; };
    const prm::LinearGraphKNNProvider<int, G> provider(kDistance[symmetric], knn ? p : DegreeOfParallelism::None());
    const auto st = prm::GrowRoadMap<int, G>(g, sample, provider, kDistance[symmetric], valid, c.wrap(validity(pattern)), [&](const int64_t) { return next >= samples.size(); }, k, p, symmetric, duplicates);
    return graph(g, {static_cast<int64_t>(st.at("total_samples")), static_cast<int64_t>(st.at("successful_samples")), static_cast<int64_t>(st.at("duplicate_samples")), static_cast<int64_t>(st.at("failed_samples"))});
  }, m, deviations);
}
void build(const Data& samples, int size, int k, int tries, int pattern, bool parallel_sampling, bool symmetric, bool duplicates, bool knn, const Machine& m, int deviations)
{
  const bool by_value = parallel_sampling && duplicates;
  compare(mc::str("building ", size, " nodes from ", mc::vstr(samples), ", k ", k, ", ", tries, " tries, validity ", pattern, parallel_sampling ? ", parallel sampling" : "", symmetric ? ", symmetric" : "", duplicates ? ", duplicates kept" : "", knn ? ", parallel search" : ""), [=](const DegreeOfParallelism& p) {
    std::atomic<size_t> next(0); Contexts c, sampling;
    const std::function<int(const int32_t)> sample = [&](const int32_t t) { sampling.used.at(static_cast<size_t>(t))++; return samples[next.fetch_add(1) % samples.size()]; };
    const std::function<bool(const int32_t, const int&)> valid = [](const int32_t, const int& s) { return s != 7; };
    const prm::LinearGraphKNNProvider<int, G> provider(kDistance[symmetric], knn ? p : DegreeOfParallelism::None());
    const G g = prm::BuildRoadMap<int, G>(size, sample, provider, kDistance[symmetric], valid, c.wrap(validity(pattern)), k, tries, p, parallel_sampling, symmetric, duplicates);
    return graph(g, {g.CheckGraphLinkage(), static_cast<int64_t>(next.load())}, by_value);
  }, m, deviations);
}
void query(int n, int k, int pattern, bool symmetric, bool lazy, bool overlay, const Machine& m, int deviations)
{
  compare(mc::str(lazy ? "lazy " : "", "query on ", n, " nodes, k ", k, ", validity ", pattern, symmetric ? ", symmetric" : "", overlay ? ", overlay" : ""), [=](const DegreeOfParallelism& p) {
    const G g = make(first(n), 2); const Result before = graph(g); Contexts c;
    const prm::LinearGraphKNNProvider<int, G> provider(kDistance[symmetric], p);
    const auto r = (lazy ? prm::LazyQueryPath<int, Data, G, prm::LinearGraphKNNProvider<int, G>> : prm::QueryPath<int, Data, G, prm::LinearGraphKNNProvider<int, G>>)(
        Data{0, 5}, Data{20, 33}, g, provider, kDistance[symmetric], c.wrap(validity(pattern)), k, p, symmetric, false, true, overlay);
    MC_CHECK(graph(g) == before, "the query changed the roadmap");
    std::vector<int64_t> numbers{static_cast<int64_t>(std::isinf(r.PathCost()) ? -1 : r.PathCost() * 8)}; for (int v : r.Path()) { numbers.push_back(v); }
    return graph(g, numbers);
  }, m, deviations);
}
Machine machine(bool nested)
{
  Machine m; m.threads = 2 + mc::choose(3); m.delivered = kOmp ? mc::pick(std::vector<int>{64, 2, 1}) : 64;
  m.nested = kOmp && nested ? mc::choose(3) : 0;
  if (m.delivered >= m.threads && m.delivered != 64) { throw mc::Skip(); }
  return m;
}
}
void mc::run()
{
  scenario("pruning", [] {
    const Machine m = machine(true); const int n = choose(by_tier(5, 7)), edges = choose(6), mask = choose(1 << n);
    prune(n, edges, mask, flip(), m, 0);
  }, 5);
  scenario("edge update", [] {
    const Machine m = machine(true); const int n = choose(by_tier(6, 7));
    update(n, choose(6), choose(4), m, 0);
  }, 5);
  scenario("insertion", [] {
    const Machine m = machine(true); const int n = choose(6); const int state = pick(std::vector<int>{5, 9, 40}), k = choose(by_tier(4, 6)), pattern = choose(4); const bool symmetric = flip();
    if (symmetric && pattern == 2) { throw Skip(); }
    const bool duplicates = flip(), to = flip(), overlay = thorough() ? flip() : (n % 2 == 0);
    insert(n, 3, state, k, pattern, symmetric, duplicates, to, overlay, flip(), m, 0);
  }, 6);
  scenario("growing", [] {
    const Machine m = machine(true); const Data s = pick(std::vector<Data>{{4, 9, 7, 1, 16, 30}, {4, 4, 7, 9, 4, 9}, {7, 7}, {}, {1, 2, 4, 8, 16, 32, 64}}); const int k = 1 + choose(3), pattern = choose(4); const bool symmetric = flip();
    if (symmetric && pattern == 2) { throw Skip(); }
    grow(s, k, pattern, symmetric, flip(), flip(), m, 0);
  }, 6);
  scenario("building", [] {
    const Machine m = machine(true); const bool duplicates = flip();
    const Data s = pick(duplicates ? std::vector<Data>{{4, 9, 7, 1, 16, 30, 71, 55}, {1, 2, 4, 8, 16, 32}, {7, 7, 7, 4, 9, 70, 1, 16}} : std::vector<Data>{{4, 9, 4, 7, 1, 9, 16, 30, 71, 55}, {1, 1, 2, 4, 8, 4, 16, 32}, {4, 4, 7, 4}});
    const int size = choose(by_tier(6, 7)), k = 1 + choose(3), pattern = choose(4); const bool symmetric = flip();
    if (symmetric && pattern == 2) { throw Skip(); }
    const bool sampling = flip(); const int tries = sampling && duplicates ? 10 : pick(std::vector<int>{10, 2});
    build(s, size, k, tries, pattern, sampling, symmetric, duplicates, flip(), m, 0);
  }, 6);
  scenario("queries", [] {
    const Machine m = machine(true); const int n = 1 + choose(5), k = 1 + choose(3), pattern = choose(4); const bool symmetric = flip();
    if (symmetric && pattern == 2) { throw Skip(); }
    const bool lazy = flip(); query(n, k, pattern, symmetric, lazy, flip(), m, 0);
  }, 6);
  // Schedules.
  const int deviations = kOmp ? by_tier(2, 3) : by_tier(1, 2);
  scenario("schedules of pruning and edge update", [=] {
    Machine m{2 + choose(2), 64, kOmp ? choose(3) : 0}; const int d = m.nested ? deviations - 1 : deviations; const int edges = pick(std::vector<int>{0, 3, 4, 5});
    if (flip()) { prune(4, edges, 2, false, m, d); } else { update(3, edges, 2, m, d); }
  }, 8);
  scenario("schedules of insertion", [=] {
    Machine m{2 + choose(2), 64, kOmp ? choose(3) : 0}; const int d = m.nested ? deviations - 1 : deviations; const bool symmetric = flip();
    insert(3, 3, 5, 3, symmetric ? 1 : 2, symmetric, false, flip(), flip(), false, m, d);
  }, 8);
  scenario("schedules of building", [=] {
    Machine m{2 + choose(2), 64, kOmp ? choose(3) : 0}; const int d = m.nested ? deviations - 1 : deviations; const bool symmetric = flip();
    build({4, 9, 7, 1}, 3, 2, 10, symmetric ? 1 : 2, true, symmetric, flip(), false, m, d);
  }, 8);
}
