// G04: roadmap queries return optimal valid paths and leave the roadmap alone.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <tuple>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_prm_planner.hpp>
MC_HARNESS("G04", "every small roadmap with edge weights over {none, distance, twice it, infinite} x start and goal lists x neighbour count x options, edge validity answers chosen lazily (all explored), through every query entry point "
                  "(overlay, copy, in place; eager, lazy), against a reference insertion and all-pairs shortest paths; a state is a distinct (cost, path)")
using namespace common_robotics_utilities;
using parallelism::DegreeOfParallelism;
namespace sg = simple_graph;
namespace prm = simple_prm_planner;
namespace
{
const double INF = std::numeric_limits<double>::infinity();
using G = sg::Graph<int>;
using Path = std::vector<int>;
using Knn = prm::LinearGraphKNNProvider<int, G>;
using Edge = std::tuple<int64_t, int64_t, double>;
struct Map { std::vector<int> values; std::multiset<Edge> edges; bool operator==(const Map& o) const { return values == o.values && edges == o.edges; } };
std::string text(const Map& m) { std::string s = mc::vstr(m.values); for (const auto& [a, b, w] : m.edges) { s += mc::str(" ", a, "->", b, ":", w); } return s; }
Map read(const G& g)
{
  Map m; std::multiset<Edge> in;
  for (int64_t i = 0; i < g.Size(); i++)
  {
    const auto& n = g.GetNodeImmutable(i); m.values.push_back(n.GetValueImmutable());
    for (const auto& e : n.GetOutEdgesImmutable()) { m.edges.emplace(e.GetFromIndex(), e.GetToIndex(), e.GetWeight()); }
    for (const auto& e : n.GetInEdgesImmutable()) { in.emplace(e.GetFromIndex(), e.GetToIndex(), e.GetWeight()); }
  }
  MC_CHECK(in == m.edges, "the roadmap is not consistently linked: ", text(m)); return m;
}
struct World
{
  bool symmetric = false; int pattern = -1; std::map<std::pair<int, int>, bool> v;
  double distance(int a, int b) const { return symmetric ? std::abs(a - b) : a < b ? b - a : 1.5 * (a - b); }
  bool valid(int a, int b)
  {
    if (symmetric && a > b) { std::swap(a, b); }
    const auto k = std::make_pair(a, b); auto it = v.find(k);
    if (it == v.end())
    {
      bool ok = true;
      switch (pattern) { case -1: ok = mc::flip(); break; case 0: ok = true; break; case 1: ok = a < b || symmetric; break; case 2: ok = std::abs(a - b) < 20; break; case 3: ok = (a * 7 + b * 3) % 4 != 0; break; default: ok = (a * 3 + b * 5) % 3 != 1; }
      it = v.emplace(k, ok).first;
    }
    return it->second;
  }
  std::string text() const { std::string s; for (const auto& e : v) { s += mc::str(" ", e.second ? "" : "!", "ok(", e.first.first, ",", e.first.second, ")"); } return s; }
};
int64_t insert(Map& m, int state, bool to_roadmap, int64_t k, int64_t most, bool duplicates, World& w)
{
  std::vector<std::pair<double, int64_t>> near;
  for (int64_t i = 0; i < most; i++) { const int v = m.values[static_cast<size_t>(i)]; near.emplace_back(to_roadmap ? w.distance(state, v) : w.distance(v, state), i); }
  std::sort(near.begin(), near.end());
  if (near.size() > static_cast<size_t>(k)) { if (k > 0 && near[static_cast<size_t>(k) - 1].first == near[static_cast<size_t>(k)].first) { throw mc::Skip(); } near.resize(static_cast<size_t>(k)); }
  if (!duplicates && !near.empty() && near[0].first == 0.0) { if (near.size() > 1 && near[1].first == 0.0) { throw mc::Skip(); } return near[0].second; }
  const int64_t at = static_cast<int64_t>(m.values.size()); m.values.push_back(state);
  for (const auto& n : near)
  {
    const int v = m.values[static_cast<size_t>(n.second)];
    if (w.valid(v, state)) { m.edges.emplace(n.second, at, w.distance(v, state)); }
    if (w.valid(state, v)) { m.edges.emplace(at, n.second, w.distance(state, v)); }
  }
  return at;
}
void query(int n, const std::vector<double>& factors, const std::vector<Path>& start_lists, const std::vector<Path>& goal_lists, int pattern, int64_t k, int big = 0)
{
  World w; w.symmetric = mc::flip(); w.pattern = pattern;
  const bool lazy = mc::flip(), duplicates = mc::flip(), limit = mc::thorough() || n < 2 ? mc::flip() : pattern < 0 ? duplicates : (pattern % 2 == 1) != lazy;
  const Path starts = mc::pick(start_lists), goals = mc::pick(goal_lists);
  std::vector<int> values{10, 23, 41}; values.resize(static_cast<size_t>(n));
  if (big) { for (int i = 0; i < n; i++) { values[static_cast<size_t>(i)] = (big == 9 ? i : (i * 7) % n) * 11 + i % 3; } }
  G g; for (int v : values) { g.AddNode(v); }
  for (int a = 0; a < n; a++)
    for (int b = 0; b < n; b++)
      if (a != b && (!w.symmetric || a < b) && (big != 9 || b == a + 1 || (a * 5 + b * 3) % 1009 == 7))
      {
        const double f = big ? factors[static_cast<size_t>(a * 5 + b * 3 + big) % factors.size()] : mc::pick(factors); if (f < 0) { continue; }
        const int x = values[static_cast<size_t>(a)], y = values[static_cast<size_t>(b)];
        g.AddEdgeBetweenNodes(a, b, std::isinf(f) ? INF : f * w.distance(x, y));
        if (w.symmetric) { g.AddEdgeBetweenNodes(b, a, std::isinf(f) ? INF : f * w.distance(y, x)); }
      }
  const Map before = read(g);
  const std::function<double(const int&, const int&)> distance = [&](const int& a, const int& b) { return w.distance(a, b); };
  const std::function<bool(const int32_t, const int&, const int&)> valid = [&](const int32_t t, const int& a, const int& b) { if (t != 0) { mc::fail_soft("a serial query checks edges with another thread number"); } return w.valid(a, b); };
  const Knn knn(distance, DegreeOfParallelism::None());
  const auto none = DegreeOfParallelism::None();
  using R = simple_astar_search::AstarResult<int, Path>;
  struct Got { std::string name; R r; }; std::vector<Got> all;
  const std::string setting = mc::str(lazy ? "lazy " : "", "query on ", text(before), " from ", mc::vstr(starts), " to ", mc::vstr(goals), ", k ", k, w.symmetric ? ", symmetric" : "", duplicates ? ", duplicates allowed" : "", limit ? ", limited queue" : "");
  for (const bool overlay : {true, false})
  {
    const G& constant = g;
    all.push_back({overlay ? "overlay" : "copy", lazy ? prm::LazyQueryPath<int, Path, G>(starts, goals, constant, knn, distance, valid, k, none, w.symmetric, duplicates, limit, overlay)
                                                      : prm::QueryPath<int, Path, G>(starts, goals, constant, knn, distance, valid, k, none, w.symmetric, duplicates, limit, overlay)});
    MC_CHECK(read(g) == before, setting, ", ", all.back().name, ": the roadmap changed to ", text(read(g)));
  }
  G in_place = g;
  all.push_back({"in place", lazy ? prm::LazyQueryPathAndAddNodes<int, Path, G>(starts, goals, in_place, knn, distance, valid, k, none, w.symmetric, duplicates, limit)
                                  : prm::QueryPathAndAddNodes<int, Path, G>(starts, goals, in_place, knn, distance, valid, k, none, w.symmetric, duplicates, limit)});
  // Reference.
  Map m = before; std::set<int64_t> from, to;
  const int64_t pre_starts = static_cast<int64_t>(m.values.size()); for (int s : starts) { from.insert(insert(m, s, true, k, pre_starts, duplicates, w)); }
  const int64_t pre_goals = static_cast<int64_t>(m.values.size()); for (int s : goals) { to.insert(insert(m, s, false, k, pre_goals, duplicates, w)); }
  const Map now = read(in_place);
  MC_CHECK(now == m, setting, ":", w.text(), ": the extended roadmap is ", text(now), ", expected ", text(m));
  const size_t size = m.values.size();
  std::vector<std::vector<double>> step(size, std::vector<double>(size, INF));
  for (const auto& [a, b, d] : m.edges)
  {
    const size_t x = static_cast<size_t>(a), y = static_cast<size_t>(b); const int p = m.values[x], q = m.values[y];
    step[x][y] = std::min(step[x][y], lazy ? (w.valid(p, q) ? w.distance(p, q) : INF) : d);
  }
  auto dist = step; for (size_t i = 0; i < size; i++) { dist[i][i] = 0; }
  for (size_t c = 0; c < size; c++) { for (size_t a = 0; a < size; a++) { for (size_t b = 0; b < size; b++) { dist[a][b] = std::min(dist[a][b], dist[a][c] + dist[c][b]); } } }
  double best = INF; for (int64_t a : from) { for (int64_t b : to) { best = std::min(best, dist[static_cast<size_t>(a)][static_cast<size_t>(b)]); } }
  for (const Got& got : all)
  {
    const std::string what = setting + ":" + w.text() + ", " + got.name + ": path " + mc::vstr(got.r.Path()) + mc::str(" at ", got.r.PathCost());
    MC_CHECK(got.r.PathCost() == best || std::abs(got.r.PathCost() - best) < 1e-9, what, ", expected cost ", best);
    if (std::isinf(best)) { MC_CHECK(got.r.Path().empty(), what, " without a solution"); continue; }
    MC_CHECK(!got.r.Path().empty(), what);
    // Some sequence of nodes with these values is a path of this cost.
    std::vector<double> cost(size, INF);
    for (int64_t a : from) { if (m.values[static_cast<size_t>(a)] == got.r.Path().front()) { cost[static_cast<size_t>(a)] = 0; } }
    for (size_t i = 1; i < got.r.Path().size(); i++)
    {
      std::vector<double> next(size, INF);
      for (size_t a = 0; a < size; a++) { for (size_t b = 0; b < size; b++) { if (m.values[b] == got.r.Path()[i]) { next[b] = std::min(next[b], cost[a] + step[a][b]); } } }
      cost = next;
    }
    double reached = INF; for (int64_t b : to) { reached = std::min(reached, cost[static_cast<size_t>(b)]); }
    MC_CHECK(std::abs(reached - best) < 1e-9, what, " is not a valid path from a start to a goal of that cost (", reached, ")");
    MC_CHECK(std::count(starts.begin(), starts.end(), got.r.Path().front()) && std::count(goals.begin(), goals.end(), got.r.Path().back()), what, " does not join a start and a goal");
  }
  mc::transition(3); mc::state(mc::Hash().add(best).addv(all[0].r.Path()).h);
  if (mc::want_note()) { mc::note(setting + ":" + w.text() + mc::str(" -> ", best, " ", mc::vstr(all[0].r.Path()))); }
}
}
void mc::run()
{
  const std::vector<Path> starts{{0}, {10}, {17}, {60, 0}}, goals{{60}, {10}, {23}, {60, 41}, {0}};
  scenario("0-1 nodes", [=] { query(choose(2), {1}, {{0}, {10}, {17}, {60, 0}, {0, 0}}, {{60}, {10}, {60, 41}, {0}, {60, 60}}, -1, choose(3)); }, 6);
  scenario("2 nodes", [=] { query(2, thorough() ? std::vector<double>{1, -1, INF, 2} : std::vector<double>{1, -1, INF}, thorough() ? starts : std::vector<Path>{{0}, {10}}, thorough() ? goals : std::vector<Path>{{60}, {23}}, -1, 1 + choose(2)); }, 9);
  scenario("3 nodes", [=] { query(3, thorough() ? std::vector<double>{1, -1, INF, 2} : std::vector<double>{1, -1, 2}, thorough() ? starts : std::vector<Path>{{0}, {60, 17}}, thorough() ? goals : std::vector<Path>{{60}, {10, 55}}, choose(5), thorough() ? 1 + choose(3) : 1 + 2 * choose(2)); }, 9);
  scenario("other starts and goals on 3 nodes", [=] { query(3, {1, -1}, {{0}, {10}, {17}, {60, 0}, {41, 23, 0}}, {{60}, {10}, {23}, {60, 41}, {0}, {30, 31, 32}}, choose(5), choose(4)); }, 8);
  scenario("many nodes", [=] { const int n = pick(std::vector<int>{14, 25}); query(n, {-1, 1, INF, -1, 2, -1, 1}, {{500}, {-5, 33}, {23, 140, 56}}, {{-9}, {200, 300, 77}, {11, 44}}, choose(5), pick(std::vector<int64_t>{1, 3, 8, 30}), 1 + choose(3)); }, 5);
  scenario("long roadmaps", [=] { query(300, {1, 1, 1.25}, {{-5}, {-7, -30, 6}}, {{3333}, {3333, 3000, 3310}}, choose(5), pick(std::vector<int64_t>{1, 3, 200}), 9); }, 4);
  scenario("very long roadmaps", [=] {
    const int n = 70000; const int form = choose(3); const bool lazy = flip(), symmetric = flip(), overlay = form == 1, in_place = form == 2; const int near = symmetric == lazy ? 1 : 3, cut = pick(std::vector<int>{-1, 65535, 30000});   // node i at 10 i, joined to the next one, not over the cut
    G g(n); for (int i = 0; i < n; i++) { g.AddNode(10 * i); } for (int i = 0; i + 1 < n; i++) { if (i != cut) { g.AddEdgesBetweenNodes(i, i + 1, 10); } }
    const std::function<double(const int&, const int&)> distance = [](const int& a, const int& b) { return static_cast<double>(std::abs(a - b)); };
    const std::function<bool(const int32_t, const int&, const int&)> valid = [](const int32_t, const int& a, const int& b) { return std::abs(a - b) <= 14; };
    const Knn knn(distance, DegreeOfParallelism::None()); const auto none = DegreeOfParallelism::None(); const Path starts{10 * n - 4, -500}, goals{390003, 1000000}; const G& constant = g;
    const auto r = in_place ? lazy ? prm::LazyQueryPathAndAddNodes<int, Path, G>(starts, goals, g, knn, distance, valid, near, none, symmetric, true, true) : prm::QueryPathAndAddNodes<int, Path, G>(starts, goals, g, knn, distance, valid, near, none, symmetric, true, true)
                            : lazy ? prm::LazyQueryPath<int, Path, G>(starts, goals, constant, knn, distance, valid, near, none, symmetric, true, true, overlay) : prm::QueryPath<int, Path, G>(starts, goals, constant, knn, distance, valid, near, none, symmetric, true, true, overlay);
    const std::string what = str("query on a chain of ", n, " nodes cut after ", cut, lazy ? ", lazy" : "", symmetric ? ", symmetric" : "", in_place ? ", in place" : overlay ? ", overlay" : ", copy"); const bool reachable = cut != 65535;
    const double cost = 10 * n - 4 - 390003 + (near == 1 ? 6 : 0);   // with one neighbour only, back from the nearest node mc::transition(); mc::state(mc::Hash().add(what).h);
    MC_CHECK(r.Path().empty() != reachable, what, ": a path of ", r.Path().size(), " states"); if (!reachable) { MC_CHECK(r.PathCost() == INF, what, ": cost ", r.PathCost()); }
    else
    {
      double length = 0; for (size_t i = 1; i < r.Path().size(); i++) { const int a = r.Path()[i - 1], b = r.Path()[i]; MC_CHECK(std::abs(a - b) <= 14 && a != b, what, ": the path goes from ", a, " to ", b); length += std::abs(a - b); }
      MC_CHECK(r.Path().front() == starts[0] && r.Path().back() == goals[0], what, ": the path goes from ", r.Path().front(), " to ", r.Path().back());
      MC_CHECK(r.PathCost() == length && length == cost, what, ": cost ", r.PathCost(), ", length ", length, ", expected ", cost);
    }
    if (in_place)
    {
      MC_CHECK(g.Size() == n + 4, what, ": the roadmap has ", g.Size(), " nodes"); size_t out = 0, in = 0;
      for (int i = 0; i < n + 4; i++)
      {
        const auto& node = g.GetNodeImmutable(i); const int x = node.GetValueImmutable(); MC_CHECK(x == (i < n ? 10 * i : i < n + 2 ? starts[static_cast<size_t>(i - n)] : goals[static_cast<size_t>(i - n - 2)]), what, ": node ", i, " is ", x);
        for (const auto& e : node.GetOutEdgesImmutable()) { out++; const int y = g.GetNodeImmutable(e.GetToIndex()).GetValueImmutable(); MC_CHECK(e.GetFromIndex() == i && e.GetWeight() == std::abs(x - y) && e.GetWeight() <= 14, what, ": an edge from ", x, " to ", y, " of weight ", e.GetWeight()); }
        for (const auto& e : node.GetInEdgesImmutable()) { in++; const auto& others = g.GetNodeImmutable(e.GetFromIndex()).GetOutEdgesImmutable(); MC_CHECK(e.GetToIndex() == i && std::any_of(others.begin(), others.end(), [&](const auto& o) { return o.GetToIndex() == i; }), what, ": an edge into node ", i, " has no other end"); }
      }
      const size_t want = 2 * static_cast<size_t>(n - 1 - (cut >= 0)) + (near == 1 ? 4 : 8); MC_CHECK(out == want && in == want, what, ": ", out, " and ", in, " edges, expected ", want);
    }
    else { MC_CHECK(g.Size() == n, what, ": the roadmap has ", g.Size(), " nodes"); }
  }, 3);
  scenario("refused queries", [] {
    G g; g.AddNode(1); World w; w.pattern = 0; const Knn knn([](const int& a, const int& b) { return std::abs(a - b) + 0.0; }, DegreeOfParallelism::None());
    const std::function<double(const int&, const int&)> distance = [](const int& a, const int& b) { return std::abs(a - b); };
    const std::function<bool(const int32_t, const int&, const int&)> valid = [](const int32_t, const int&, const int&) { return true; };
    const int which = choose(3); const bool lazy = flip(), add = flip(), overlay = flip();
    const Path s = which == 0 ? Path{} : Path{5}, t = which == 1 ? Path{} : Path{6}; const auto none = DegreeOfParallelism::None();
    const int threw = throws([&] {
      if (add) { if (lazy) { prm::LazyQueryPathAndAddNodes<int, Path, G>(s, t, g, knn, distance, valid, 1, none); } else { prm::QueryPathAndAddNodes<int, Path, G>(s, t, g, knn, distance, valid, 1, none); } }
      else { const G& c = g; if (lazy) { prm::LazyQueryPath<int, Path, G>(s, t, c, knn, distance, valid, 1, none, true, false, true, overlay); } else { prm::QueryPath<int, Path, G>(s, t, c, knn, distance, valid, 1, none, true, false, true, overlay); } } });
    MC_CHECK((threw == 1) == (which < 2), "query with ", s.size(), " starts and ", t.size(), " goals is ", threw ? "refused" : "accepted");
    MC_CHECK(which == 2 ? (add || g.Size() == 1) : g.Size() == 1, "the roadmap changed"); transition();
  });
}
