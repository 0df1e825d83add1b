// G01: Dijkstra search returns true shortest distances and usable paths.
#include "mc.hpp"
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <cmath>
MC_HARNESS("G01", "every assignment of {no edge, each weight of a small set incl. 0 and infinity} to all ordered node pairs up to the size bound, every start, "
                  "plus parallel edges and larger structured graphs, against Bellman-Ford; a state is a distinct distance vector")
using namespace common_robotics_utilities;
using namespace common_robotics_utilities::simple_graph;
using namespace common_robotics_utilities::simple_graph_search;
namespace
{
using G = Graph<int>;
const double INF = std::numeric_limits<double>::infinity();
std::string dump(const G& g)
{ std::string r; for (int64_t i = 0; i < g.Size(); i++) for (auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable()) r += mc::str("(", e.GetFromIndex(), "->", e.GetToIndex(), ":", e.GetWeight(), ")"); return r; }
/// The order in which the weights of a path are added up is not specified.
bool near(double a, double b) { return a == b || std::abs(a - b) <= 1e-12 * std::abs(b); }
template<typename Gr> void check(const G& g, const Gr& s, int64_t start)
{
  const int64_t n = g.Size();
  // distance of every node TO the start along directed edges (edges are followed from the start backwards)
  std::vector<double> d(static_cast<size_t>(n), INF); d[start] = 0;
  for (int64_t r = 0; r <= n; r++)
    for (int64_t i = 0; i < n; i++) for (auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable())
      d[e.GetFromIndex()] = std::min(d[e.GetFromIndex()], e.GetWeight() + d[e.GetToIndex()]);
  const DijkstrasResult r = PerformDijkstrasAlgorithm<Gr>(s, start);
  MC_CHECK(r.Size() == n, "result size ", r.Size());
  for (int64_t i = 0; i < n; i++)
  {
    MC_CHECK(near(r.GetNodeDistance(i), d[i]), dump(g), " start ", start, ": distance of ", i, " is ", r.GetNodeDistance(i), " expected ", d[i]);
    const int64_t p = r.GetPreviousIndex(i);
    if (d[i] == INF) { MC_CHECK(p == -1, dump(g), " start ", start, ": unreachable node ", i, " has previous ", p); continue; }
    if (i == start) { MC_CHECK(p == start, "previous of the start is ", p); continue; }
    // walk
    int64_t c = i; double cost = 0; int steps = 0;
    while (c != start)
    {
      MC_CHECK(++steps <= n, dump(g), " start ", start, ": previous indices from ", i, " run in a cycle");
      const int64_t q = r.GetPreviousIndex(c);
      MC_CHECK(q >= 0 && q < n, "previous index ", q);
      double w = INF; for (auto& e : g.GetNodeImmutable(c).GetOutEdgesImmutable()) if (e.GetToIndex() == q) w = std::min(w, e.GetWeight());
      MC_CHECK(w < INF, dump(g), " start ", start, ": no usable edge ", c, "->", q);
      cost += w; c = q;
    }
    MC_CHECK(near(cost, d[i]), dump(g), " start ", start, ": path cost from ", i, " is ", cost, " expected ", d[i]);
  }
  mc::state(mc::Hash().addv(d).h); mc::transition();
}
void roundtrip(const DijkstrasResult& r, bool damage)
{
  std::vector<uint8_t> b(5, 9);
  const uint64_t w = DijkstrasResult::Serialize(r, b);
  MC_CHECK(w == b.size() - 5, "bytes written ", w);
  b.push_back(1);
  const auto d = DijkstrasResult::Deserialize(b, 5);
  MC_CHECK(d.BytesRead() == w && d.Value().Size() == r.Size(), "result did not survive serialization");
  for (int64_t i = 0; i < r.Size(); i++)
    MC_CHECK(d.Value().GetPreviousIndex(i) == r.GetPreviousIndex(i) && d.Value().GetNodeDistance(i) == r.GetNodeDistance(i), "entry ", i, " changed by serialization");
  if (damage)
    for (uint64_t cut = 0; cut < w; cut++)
    {
      const std::vector<uint8_t> t(b.begin() + 5, b.begin() + 5 + static_cast<long>(cut));
      MC_CHECK(mc::throws([&] { (void)DijkstrasResult::Deserialize(t, 0); }) == 1, "result cut to ", cut, " bytes was accepted");
    }
}
void refuse(const G& g)
{
  for (int64_t s : std::vector<int64_t>{-1, g.Size(), g.Size() + 5, INT64_MIN, INT64_MAX})
    MC_CHECK(mc::throws([&] { (void)PerformDijkstrasAlgorithm<G>(g, s); }) == 1, "start ", s, " accepted");
}
void all(int n, const std::vector<double>& weights)
{
  G g; for (int i = 0; i < n; i++) g.AddNode(i);
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b)
  { const int c = mc::choose(static_cast<int>(weights.size()) + 1); if (c) g.AddEdgeBetweenNodes(a, b, weights[c - 1]); }
  for (int s = 0; s < n; s++) check(g, g, s);
  if (n <= 2) { refuse(g); roundtrip(PerformDijkstrasAlgorithm<G>(g, 0), true); }
  mc::note(dump(g));
}
/// parallel edges, overlays
void multi()
{
  const int n = 3;
  G base; for (int i = 0; i < n; i++) base.AddNode(i);
  G full = base; NonOwningGraphOverlay<int, G> ov(base);
  const int m = mc::by_tier(3, 4);
  const std::vector<double> w{0, 1, 2.5};
  for (int e = 0; e < m; e++)
  {
    const int p = mc::choose(n * (n - 1));
    const int a = p / (n - 1); int b = p % (n - 1); if (b >= a) b++;
    const double x = mc::pick(w);
    full.AddEdgeBetweenNodes(a, b, x); ov.AddEdgeBetweenNodes(a, b, x);
  }
  for (int s = 0; s < n; s++) { check(full, full, s); check(full, ov, s); }
  roundtrip(PerformDijkstrasAlgorithm<G>(full, 1), false);
  mc::note(dump(full));
}
/// layered graph with two crossing chains: many improvements of nodes already queued
void layered()
{
  const int L = mc::by_tier(4, 5);
  G g; for (int i = 0; i < 2 * L + 1; i++) g.AddNode(i);
  const std::vector<double> w{1, 3, 7};
  // node 0 = start; layer l nodes 1+2l, 2+2l
  for (int l = 0; l < L; l++)
  {
    const int u = 1 + 2 * l, v = u + 1;
    if (l == 0) { g.AddEdgeBetweenNodes(u, 0, mc::pick(w)); g.AddEdgeBetweenNodes(v, 0, 4); }
    else
    {
      g.AddEdgeBetweenNodes(u, u - 2, mc::pick(w)); g.AddEdgeBetweenNodes(v, v - 2, 2);
      if (mc::flip()) g.AddEdgeBetweenNodes(u, v - 2, 0.5);
    }
    if (mc::flip()) g.AddEdgesBetweenNodes(u, v, 0.25);
  }
  check(g, g, 0); check(g, g, 2 * L);
  mc::note(dump(g));
}
/// Many nodes: every start of grids, chains with shortcuts and a hub.
void large()
{
  const int form = mc::choose(3), pat = mc::choose(4);
  const double scale = mc::pick(std::vector<double>{1.0, 0.1, 1e9 + 1.0 / 3.0, 1e-7 / 3.0}), noise = mc::choose(2) * 1e-9;   // with noise, equal routes become nearly equal ones
  const int n = form == 0 ? 90 : form == 1 ? 70 : 65;
  G g; for (int i = 0; i < n; i++) g.AddNode(i);
  auto put = [&](int a, int b, double w) { if (a != b && b < n && a < n && (a * 7 + b * 3) % 13 != pat) g.AddEdgeBetweenNodes(a, b, (noise > 0 && form == 0 ? 1.0 + noise * ((a * 37 + b * 101 + a * b % 7 * 13) % 17) : w) * scale); };
  if (form == 0) for (int y = 0; y < 9; y++) for (int x = 0; x < 10; x++) { const int i = y * 10 + x; const double w = 1 + ((x * 3 + y * 5 + pat) % 4); if (x < 9) { put(i, i + 1, w); put(i + 1, i, w + 1); } if (y < 8) { put(i, i + 10, w + 0.5); put(i + 10, i, w); } }
  else if (form == 1) for (int i = 0; i < n; i++) for (int d = 1; d <= 4; d++) { put(i, i + d, d * d - 0.5 * ((i + pat) % 2)); if (d < 3) put(i + d, i, d); }
  else for (int i = 1; i < n; i++) { put(0, i, 1 + (i + pat) % 5); put(i, 0, 1 + i % 3); put(i, i % (n - 1) + 1, 0.25 * (i % 7)); }
  const int start = mc::choose(n);
  NonOwningGraphOverlay<int, G> ov(g);
  check(g, g, start); check(g, ov, start);
  if (start == 3) roundtrip(PerformDijkstrasAlgorithm<G>(g, start), false);
}
void ctor()
{
  const int a = mc::choose(4), b = mc::choose(4);
  const int t = mc::throws([&] { DijkstrasResult r(std::vector<int64_t>(a, 1), std::vector<double>(b, 2.0)); MC_CHECK(r.Size() == a, "size"); });
  MC_CHECK((t == 0) == (a == b), "result of ", a, " indices and ", b, " distances threw ", t);
  std::vector<uint8_t> buf;
  serialization::SerializeMemcpyableVectorLike<int64_t>(std::vector<int64_t>(a, 1), buf);
  serialization::SerializeMemcpyableVectorLike<double>(std::vector<double>(b, 2.0), buf);
  const int t2 = mc::throws([&] { (void)DijkstrasResult::Deserialize(buf, 0); });
  MC_CHECK((t2 == 0) == (a == b), "deserializing ", a, " indices and ", b, " distances threw ", t2);
}
}  // namespace
void mc::run()
{
  scenario("ctor", ctor);
  scenario("large", large, 2);
  scenario("all1", [] { all(1, {1}); });
  scenario("all2", [] { all(2, {0, 1, 2.5, INF, 1e300}); });
  scenario("all3", [] { all(3, {0, 1, 2, 5, INF}); }, 3);
  scenario("multi", multi, 3);
  scenario("layered", layered, 4);
  scenario("all4", [] { all(4, thorough() ? std::vector<double>{1, 3} : std::vector<double>{1}); }, 4);
}
