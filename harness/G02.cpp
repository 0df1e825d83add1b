// G02: A* search finds an optimal path if and only if one exists.
#include "mc.hpp"
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_astar_search.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <cmath>
#include <set>
MC_HARNESS("G02", "every small weighted digraph x start sets with starting costs x goal sets x edge validity answers x consistent heuristics (zero, half, exact) "
                  "x duplicate limiting, through every search entry point, against Bellman-Ford; a state is a distinct (cost, path)")
using namespace common_robotics_utilities;
using namespace common_robotics_utilities::simple_graph;
namespace sg = common_robotics_utilities::simple_graph_search;
namespace sa = common_robotics_utilities::simple_astar_search;
namespace
{
using G = Graph<int>;
const double INF = std::numeric_limits<double>::infinity();
/// The order in which the costs of a path are added up is not specified.
bool near(double a, double b) { return a == b || std::abs(a - b) <= 1e-12 * std::abs(b); }
struct Problem
{
  int n = 0;
  std::vector<std::vector<double>> w;      // INF: no edge
  std::vector<std::vector<bool>> valid;    // user's check
  std::vector<std::pair<int, double>> starts;
  std::vector<bool> goal;
  int h = 0;                               // 0 zero, 1 half of exact, 2 exact, 3/4 inconsistent
  bool limit = false;
  double edge(int a, int b) const { return valid[a][b] ? w[a][b] : INF; }
  std::vector<double> togo;
  std::vector<std::vector<double>> dist;
  void solve()
  {
    togo.assign(n, INF); for (int i = 0; i < n; i++) if (goal[i]) togo[i] = 0;
    for (int r = 0; r < n; r++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b) togo[a] = std::min(togo[a], edge(a, b) + togo[b]);
    dist.assign(n, std::vector<double>(n, INF));
    for (int a = 0; a < n; a++) { dist[a][a] = 0; for (int b = 0; b < n; b++) if (a != b) dist[a][b] = edge(a, b); }
    for (int k = 0; k < n; k++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) dist[a][b] = std::min(dist[a][b], dist[a][k] + dist[k][b]);
  }
  double scale(double v) const { if (h == 0) return 0; if (v == INF) return h == 2 ? 1e6 : 1e5; return h == 1 ? v / 2 : v; }
  // 3 and 4: exact at every other state and zero elsewhere, so admissible but not consistent
  double node(int i, double v) const { if (h < 3) return scale(v); if (i % 2 == h - 3) return v == INF ? 1e6 : v; return 0; }
  double heur(int i) const { return node(i, togo[i]); }
  double heur2(int a, int b) const { return node(a, dist[a][b]); }
  std::string text() const
  {
    std::string r; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b && w[a][b] < INF) r += mc::str("(", a, "->", b, ":", w[a][b], valid[a][b] ? "" : " invalid", ")");
    r += " starts"; for (auto& s : starts) r += mc::str(" ", s.first, "@", s.second);
    r += " goals"; for (int i = 0; i < n; i++) if (goal[i]) r += mc::str(" ", i);
    r += mc::str(" heuristic ", h, limit ? " limited" : ""); return r;
  }
  template<typename P> void check(const P& path, double cost, bool zero_costs, const char* entry) const
  {
    double best = INF; for (auto& s : starts) best = std::min(best, (zero_costs ? 0 : s.second) + togo[s.first]);
    MC_CHECK(near(cost, best), entry, " on ", text(), ": cost ", cost, " expected ", best);
    if (best == INF) { MC_CHECK(path.empty(), entry, " on ", text(), ": path without cost"); return; }
    MC_CHECK(!path.empty(), entry, " on ", text(), ": no path");
    double sc = INF; for (auto& s : starts) if (s.first == int(path.front())) sc = std::min(sc, zero_costs ? 0.0 : s.second);
    MC_CHECK(sc < INF, entry, " on ", text(), ": path begins at ", path.front(), ", not a start");
    MC_CHECK(goal[int(path.back())], entry, " on ", text(), ": path ends at ", path.back(), ", not a goal");
    double sum = sc;
    for (size_t i = 1; i < path.size(); i++) { MC_CHECK(path[i - 1] != path[i], "repeated state"); sum += edge(int(path[i - 1]), int(path[i])); }
    MC_CHECK(near(sum, cost), entry, " on ", text(), ": path ", mc::vstr(path), " costs ", sum, " reported ", cost);
    mc::Hash hh; hh.add(cost); for (auto& x : path) hh.add(int(x)); mc::state(hh.h);
  }
};
struct BadHash { size_t operator()(const int& v) const { return static_cast<size_t>(v & 1); } };
void run_all(Problem& p)
{
  p.solve();
  const auto inc = [&](const int64_t a) { MC_CHECK(a >= 0 && a < p.n, "search asked about state ", a); return a; };
  // implicit state space, children with costs
  std::set<int> expanded;
  const std::function<bool(const int&)> goal = [&](const int& s) { inc(s); return bool(p.goal[s]); };
  const std::function<sa::StatesWithCosts<int>(const int&)> kids = [&](const int& s)
  { inc(s); sa::StatesWithCosts<int> r; for (int b = 0; b < p.n; b++) if (b != s && p.edge(s, b) < INF) r.emplace_back(b, p.edge(s, b)); return r; };
  const std::function<double(const int&)> heur = [&](const int& s) { return p.heur(inc(s)); };
  sa::StatesWithCosts<int> starts; bool zero = true;
  for (auto& s : p.starts) { starts.emplace_back(s.first, s.second); zero &= s.second == 0; }
  { const auto r = sa::PerformAstarSearch<int>(starts, goal, kids, heur, p.limit); p.check(r.Path(), r.PathCost(), false, "state search with costs"); }
  // candidates + validity check + distance
  const std::function<std::vector<int>(const int&)> cand = [&](const int& s) { inc(s); std::vector<int> r; for (int b = p.n - 1; b >= 0; b--) if (b != s && p.w[s][b] < INF) r.push_back(b); return r; };
  const std::function<bool(const int&, const int&)> ok = [&](const int& a, const int& b) { MC_CHECK(p.w[a][b] < INF, "validity asked for a non-edge"); return bool(p.valid[a][b]); };
  const std::function<double(const int&, const int&)> dist = [&](const int& a, const int& b) { MC_CHECK(p.valid[a][b], "distance asked for an invalid edge"); return p.w[a][b]; };
  { const auto r = sa::PerformAstarSearch<int, std::vector<int>, BadHash>(starts, goal, cand, ok, dist, heur, p.limit); p.check(r.Path(), r.PathCost(), false, "state search with validity check"); }
  // one start, one goal
  int ngoal = 0, g1 = -1; for (int i = 0; i < p.n; i++) if (p.goal[i]) { ngoal++; g1 = i; }
  if (zero && p.starts.size() == 1 && ngoal == 1)
  {
    const std::function<double(const int&, const int&)> h2 = [&](const int& a, const int& b) { return p.heur2(a, b); };
    const auto r = sa::PerformAstarSearch<int>(p.starts[0].first, g1, cand, ok, dist, h2, p.limit);
    p.check(r.Path(), r.PathCost(), true, "start/goal state search");
  }
  // graph searches; the stored weight of invalid edges is infinite only for the eager form
  G lazy, eager; for (int i = 0; i < p.n; i++) { lazy.AddNode(i + 50); eager.AddNode(i + 50); }
  for (int a = 0; a < p.n; a++) for (int b = 0; b < p.n; b++) if (a != b && p.w[a][b] < INF)
  { lazy.AddEdgeBetweenNodes(a, b, 777); eager.AddEdgeBetweenNodes(a, b, p.valid[a][b] ? p.w[a][b] : INF); }
  using E = G::EdgeType;
  const std::function<bool(const G&, const int64_t)> gg = [&](const G& g, const int64_t i) { MC_CHECK(&g == &lazy, "other graph"); return bool(p.goal[inc(i)]); };
  const std::function<bool(const G&, const E&)> gok = [&](const G&, const E& e) { return ok(int(e.GetFromIndex()), int(e.GetToIndex())); };
  const std::function<double(const G&, const E&)> gd = [&](const G&, const E& e) { return dist(int(e.GetFromIndex()), int(e.GetToIndex())); };
  const std::function<double(const G&, const int64_t)> gh = [&](const G&, const int64_t i) { return p.heur(int(inc(i))); };
  sg::IndexStatesWithCosts is; std::vector<int64_t> si, gi; for (auto& s : p.starts) { is.emplace_back(s.first, s.second); si.push_back(s.first); }
  for (int i = 0; i < p.n; i++) if (p.goal[i]) gi.push_back(i);
  { const auto r = sg::PerformLazyAstarSearch<G>(lazy, is, gg, gok, gd, gh, p.limit); p.check(r.Path(), r.PathCost(), false, "graph search with costs"); }
  if (!zero) return;
  const std::function<double(const G&, const int64_t, const int64_t)> gh2 = [&](const G&, const int64_t a, const int64_t b) { return p.heur2(int(inc(a)), int(inc(b))); };
  { const auto r = sg::PerformLazyAstarSearch<G>(lazy, si, gi, gok, gd, gh2, p.limit); p.check(r.Path(), r.PathCost(), true, "graph search by indices"); }
  const std::function<bool(const int&, const int&)> vok = [&](const int& a, const int& b) { return ok(a - 50, b - 50); };
  const std::function<double(const int&, const int&)> vd = [&](const int& a, const int& b) { return dist(a - 50, b - 50); };
  const std::function<double(const int&, const int&)> vh = [&](const int& a, const int& b) { return p.heur2(a - 50, b - 50); };
  { const auto r = sg::PerformLazyAstarSearch<int, G>(lazy, si, gi, vok, vd, vh, p.limit); p.check(r.Path(), r.PathCost(), true, "graph search by values"); }
  { const auto r = sg::PerformAstarSearch<int, G>(eager, si, gi, vh, p.limit); p.check(r.Path(), r.PathCost(), true, "eager graph search"); }
  for (int bad = 0; bad < 4; bad++)
  {
    auto s2 = si, g2 = gi; (bad & 1 ? s2 : g2).push_back(bad & 2 ? -1 : p.n);
    MC_CHECK(mc::throws([&] { (void)sg::PerformAstarSearch<int, G>(eager, s2, g2, vh, p.limit); }) == 1, "index out of range accepted");
  }
}
void draw_rest(Problem& p, bool many)
{
  // starts: one or two, with costs
  const std::vector<double> sc = many ? std::vector<double>{0, 1, 4} : std::vector<double>{0, 3};
  if (many && mc::flip())
  {
    const int a = mc::choose(p.n), b = mc::choose(p.n);
    if (mc::thorough()) p.starts = {{a, mc::pick(sc)}, {b, mc::pick(sc)}};
    else { const int c = mc::choose(3); p.starts = {{a, c == 1 ? 4 : 0}, {b, c == 0 ? 1 : 0}}; }
  }
  else p.starts = {{many ? mc::choose(p.n) : 0, many ? 0 : mc::pick(sc)}};
  const int gm = many ? mc::choose(1 << p.n) : 1 << (p.n - 1);
  p.goal.assign(p.n, false); for (int i = 0; i < p.n; i++) p.goal[i] = gm >> i & 1;
  p.h = mc::choose(5); p.limit = mc::flip();
}
void init(Problem& p, int n) { p.n = n; p.w.assign(n, std::vector<double>(n, INF)); p.valid.assign(n, std::vector<bool>(n, true)); }
void small(int n, const std::vector<double>& ws, bool validity)
{
  Problem p; init(p, n);
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b)
  {
    const int c = mc::choose(static_cast<int>(ws.size()) + 1 + validity);
    if (c == 0) continue;
    if (c <= static_cast<int>(ws.size())) p.w[a][b] = ws[c - 1]; else { p.w[a][b] = 0.5; p.valid[a][b] = false; }
  }
  draw_rest(p, true);
  run_all(p); mc::note(p.text()); mc::transition();
}
/// 4-5 nodes with all pair edges present or not, fixed start/goal, weights making detours cheaper
void bigger(int n)
{
  Problem p; init(p, n);
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b && a != n - 1 && b != 0)
  {
    if (a > b) { if (mc::flip()) p.w[a][b] = 1; }
    else { const int c = mc::choose(3); if (c == 1) p.w[a][b] = (b - a) * (b - a); else if (c == 2) p.w[a][b] = 1; }
  }
  draw_rest(p, false);
  run_all(p); mc::note(p.text()); mc::transition();
}
/// Many states: grids with detours, long chains, and a hub; every heuristic, one goal or a few, starts at both ends.
void large()
{
  const int form = mc::choose(3);
  Problem p; init(p, form == 0 ? 48 : form == 1 ? 60 : 41);
  const int pat = mc::choose(4);
  auto put = [&](int a, int b, double w) { if (a >= 0 && b >= 0 && a < p.n && b < p.n && a != b) { p.w[a][b] = w; if ((a * 7 + b * 3) % 11 == pat) p.valid[a][b] = false; } };
  if (form == 0) for (int y = 0; y < 6; y++) for (int x = 0; x < 8; x++) { const int i = y * 8 + x; const double w = 1 + ((x * 3 + y * 5 + pat) % 4); if (x < 7) { put(i, i + 1, w); put(i + 1, i, w + 1); } if (y < 5) { put(i, i + 8, w + 0.5); put(i + 8, i, w); } if (x < 7 && y < 5) put(i, i + 9, 2 * w + 0.25); }
  else if (form == 1) for (int i = 0; i < p.n; i++) for (int d = 1; d <= 4; d++) { put(i, i + d, d * d - 0.5 * ((i + pat) % 2)); if (d < 3) put(i + d, i, d); }
  else for (int i = 1; i < p.n; i++) { put(0, i, 1 + (i + pat) % 5); put(i, 0, 1 + i % 3); put(i, i % (p.n - 1) + 1, 0.25 * (i % 7)); }
  const int sg = mc::choose(3);
  if (sg == 0) { p.starts = {{0, 0}}; p.goal.assign(p.n, false); p.goal[p.n - 1] = true; }
  else if (sg == 1) { p.starts = {{p.n / 2, 0}, {p.n - 1, 0}}; p.goal.assign(p.n, false); p.goal[0] = p.goal[p.n / 3] = true; }
  else { p.starts = {{p.n - 1, 5}, {2, 0}, {2, 1}, {7, 3.5}}; p.goal.assign(p.n, false); p.goal[p.n - 2] = p.goal[5] = true; }
  p.h = mc::choose(5); p.limit = mc::flip();
  const double scale = mc::pick(std::vector<double>{1.0, 0.1, 1e9 + 1.0 / 3.0, 1e-7 / 3.0});
  for (auto& row : p.w) { for (double& w : row) { w *= scale; } }
  for (auto& start : p.starts) { start.second *= scale; }
  run_all(p); mc::note(p.text()); mc::transition();
}
/// Grids in which all shortest routes cost almost the same, so that only exact costs tell them apart.
void near_ties()
{
  const int side = 2 + mc::choose(4), pat = mc::choose(16); const double noise = mc::pick(std::vector<double>{1e-8, 1e-10}), unit = mc::pick(std::vector<double>{1.0, 0.7e9});
  Problem p; init(p, side * side);
  const auto weight = [&](int a, int b) { return unit * (1.0 + noise * (((a + 1) * 37 + (b + 3) * 101 * (pat + 1) + (a * b) % (pat + 5) * 13) % 17)); };
  for (int y = 0; y < side; y++) for (int x = 0; x < side; x++)
  {
    const int i = y * side + x; const auto both = [&](int j) { p.w[i][j] = weight(i, j); p.w[j][i] = weight(j, i); };
    if (x + 1 < side) both(i + 1);
    if (y + 1 < side) both(i + side);
  }
  p.goal.assign(p.n, false);
  switch (mc::choose(4))
  {
    case 0: p.starts = {{0, 0}}; p.goal[p.n - 1] = true; break;
    case 1: p.starts = {{0, 0}, {side - 1, 0}}; p.goal[p.n - 1] = p.goal[p.n - side] = true; break;
    case 2: p.starts = {{0, unit * (1.0 + noise)}, {side - 1, unit}, {p.n - 1, unit * (1.0 - noise)}}; p.goal[0] = p.goal[side - 1] = p.goal[p.n - 1] = true; break;
    default: p.starts = {{p.n - 1, unit * (1.0 + noise)}, {0, unit * (1.0 + 0.5 * noise)}, {side, unit}}; p.goal[0] = p.goal[p.n - 1] = true; p.goal[1] = true; break;
  }
  p.h = mc::choose(5); p.limit = mc::flip();
  run_all(p); mc::note(p.text()); mc::transition();
}
void refusals()
{
  const bool limit = mc::flip();
  const std::function<bool(const int&)> goal = [](const int&) { return true; };
  const std::function<sa::StatesWithCosts<int>(const int&)> kids = [](const int&) { return sa::StatesWithCosts<int>(); };
  const std::function<double(const int&)> h = [](const int&) { return 0.0; };
  MC_CHECK(mc::throws([&] { (void)sa::PerformAstarSearch<int>({}, goal, kids, h, limit); }) == 1, "search without starts accepted");
  G g; g.AddNode(1);
  const std::function<double(const int&, const int&)> h2 = [](const int&, const int&) { return 0.0; };
  MC_CHECK(mc::throws([&] { (void)sg::PerformAstarSearch<int, G>(g, {}, {0}, h2, limit); }) == 1, "graph search without starts accepted");
  const auto r = sg::PerformAstarSearch<int, G>(g, {0}, {}, h2, limit);
  MC_CHECK(r.Path().empty() && r.PathCost() == INF, "search without goals found a path");
  MC_CHECK(mc::throws([] { sa::StateWithCost<int>(1, -0.5); }) == 1, "negative start cost accepted");
  MC_CHECK(mc::throws([] { sa::AstarResult<int>({1}, INF); }) == 1, "path with infinite cost accepted");
}
}  // namespace
void mc::run()
{
  scenario("refusals", refusals);
  scenario("large", large, 3);
  scenario("near ties", near_ties, 3);
  scenario("two", [] { small(2, {0, 1, 2.5}, true); }, 3);
  if (!thorough()) scenario("three", [] { small(3, {1}, true); }, 4);
  if (!thorough()) scenario("three-dag", []
  {
    Problem p; init(p, 3);
    for (int a = 0; a < 3; a++) for (int b = a + 1; b < 3; b++) { const int c = mc::choose(4); if (c) p.w[a][b] = c == 1 ? 1 : c == 2 ? 3 : 0; }
    draw_rest(p, true); run_all(p);
  }, 4);
  if (thorough()) { scenario("three", [] { small(3, {1, 3}, true); }, 4); scenario("three0", [] { small(3, {0, 2, 5}, false); }, 4); }
  scenario("four", [] { bigger(4); }, 4);
  if (thorough()) scenario("five", [] { bigger(5); }, 5);
}
