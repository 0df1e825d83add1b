// D06: pruning a graph yields exactly the induced subgraph.
#include "mc.hpp"
#include <limits>
#include <map>
#include <common_robotics_utilities/simple_graph.hpp>
#include <omp.h>
MC_HARNESS("D06", "every simple digraph up to the size bound x every set of nodes to prune, in both edge insertion orders, from a graph and from an overlay, "
                  "serial and parallel; a state is a distinct pruned graph")
using namespace common_robotics_utilities;
using namespace common_robotics_utilities::simple_graph;
using parallelism::DegreeOfParallelism;
namespace
{
using G = Graph<int>;
using Ov = NonOwningGraphOverlay<int, G>;
struct E { int64_t f, t; double w; uint64_t s; bool operator==(const E& o) const { return f == o.f && t == o.t && w == o.w && s == o.s; } };
struct N { int v; std::vector<E> in, out; bool operator==(const N& o) const { return v == o.v && in == o.in && out == o.out; } };
using Model = std::vector<N>;
std::vector<E> conv(const std::vector<GraphEdge>& v)
{ std::vector<E> r; for (auto& e : v) r.push_back({e.GetFromIndex(), e.GetToIndex(), e.GetWeight(), e.GetScratchpad()}); return r; }
template<typename Gr> Model model(const Gr& g)
{ Model m; for (int64_t i = 0; i < g.Size(); i++) { auto& n = g.GetNodeImmutable(i); m.push_back({n.GetValueImmutable(), conv(n.GetInEdgesImmutable()), conv(n.GetOutEdgesImmutable())}); } return m; }
std::string ms(const Model& m)
{
  std::string r;
  for (auto& n : m) { r += mc::str("{", n.v, " in"); for (auto& e : n.in) r += mc::str("(", e.f, "->", e.t, ":", e.w, "#", e.s, ")"); r += " out"; for (auto& e : n.out) r += mc::str("(", e.f, "->", e.t, ":", e.w, "#", e.s, ")"); r += "}"; }
  return r;
}
Model induced_set(const Model& m, const std::unordered_set<int64_t>& gone)
{
  std::vector<int64_t> to(m.size(), -1); Model r; int64_t k = 0;
  for (size_t i = 0; i < m.size(); i++) if (!gone.count(static_cast<int64_t>(i))) to[i] = k++;
  for (size_t i = 0; i < m.size(); i++) if (to[i] >= 0)
  {
    N n{m[i].v, {}, {}};
    for (E e : m[i].in) if (to[e.f] >= 0) { e.f = to[e.f]; e.t = to[e.t]; n.in.push_back(e); }
    for (E e : m[i].out) if (to[e.t] >= 0) { e.f = to[e.f]; e.t = to[e.t]; n.out.push_back(e); }
    r.push_back(n);
  }
  return r;
}
Model induced(const Model& m, int mask)
{
  std::unordered_set<int64_t> gone;
  for (size_t i = 0; i < m.size(); i++) if (mask >> i & 1) gone.insert(static_cast<int64_t>(i));
  return induced_set(m, gone);
}
G make(int n, long bits, bool reverse)
{
  G g; for (int i = 0; i < n; i++) g.AddNode(10 + i);
  const int pairs = n * (n - 1);
  for (int q = 0; q < pairs; q++)
  {
    const int k = reverse ? pairs - 1 - q : q;
    if (!(bits >> k & 1)) continue;
    const int a = k / (n - 1); int b = k % (n - 1); if (b >= a) b++;
    // one edge weight is infinity (an invalid edge)
    g.AddEdgeBetweenNodes(a, b, k == 1 ? std::numeric_limits<double>::infinity() : 1.5 + k);
    g.GetNodeMutable(a).GetOutEdgesMutable().back().SetScratchpad(100 + k);
    g.GetNodeMutable(b).GetInEdgesMutable().back().SetScratchpad(200 + k);
  }
  return g;
}
void one(const G& g, int n, int mask, bool overlay, bool parallel)
{
  std::unordered_set<int64_t> prune;
  for (int i = n - 1; i >= 0; i--) if (mask >> i & 1) prune.insert(i);
  const Model before = model(g);
  const Model want = induced(before, mask);
  const auto par = parallel ? DegreeOfParallelism(2) : DegreeOfParallelism::None();
  const G r = overlay ? PruneGraph<Ov, G>(Ov(g), prune, par) : g.MakePrunedCopy(prune, par);
  const Model got = model(r);
  MC_CHECK(got == want, ms(before), " without nodes in mask ", mask, overlay ? " (overlay)" : "", parallel ? " (parallel)" : "", " gives ", ms(got), " expected ", ms(want));
  MC_CHECK(model(g) == before, "the source graph changed");
  MC_CHECK(r.CheckGraphLinkage(), "the pruned graph is not consistently linked");
  mc::transition();
  mc::Hash h; for (auto& q : got) { h.add(q.v); for (auto& e : q.out) h.add(e.f).add(e.t).add(e.w); }
  mc::state(h.h);
}
void body(int n, bool par)
{
  const int pairs = n * (n - 1);
  long bits = 0;
  if (n < 5) bits = mc::choose(1 << pairs);
  else { bits = mc::choose(1 << 10); bits |= long(mc::choose(1 << 10)) << 10; }
  const G g0 = make(n, bits, false), g1 = make(n, bits, true);
  for (int mask = 0; mask < 1 << n; mask++)
  {
    one(g0, n, mask, false, false);
    one(g1, n, mask, true, false);
    if (par) { one(g0, n, mask, false, true); one(g1, n, mask, true, true); }
  }
  if (mc::want_note()) mc::note(mc::str("graph ", ms(model(g0)), ", all ", 1 << n, " node sets"));
}
/// Chains of prunings, and more nodes than a digraph enumeration can afford (ring with chords), parallel with many threads.
void chain()
{
  const int n = 7;
  G g; for (int i = 0; i < n; i++) g.AddNode(10 + i);
  int k = 0;
  for (int a = 0; a < n; a++) for (int d : {1, 2, 4, 6}) g.AddEdgeBetweenNodes(a, (a + d) % n, ++k);
  const int m1 = mc::choose(1 << n);
  std::unordered_set<int64_t> p; for (int i = 0; i < n; i++) if (m1 >> i & 1) p.insert(i);
  const int threads = mc::choose(3) == 0 ? 1 : mc::choose(2) ? 3 : 8;
  const Model want = induced(model(g), m1);
  const G r = g.MakePrunedCopy(p, DegreeOfParallelism(threads));
  MC_CHECK(model(r) == want, "7-node graph without mask ", m1, " with ", threads, " threads gives ", ms(model(r)), " expected ", ms(want));
  const int left = static_cast<int>(r.Size());
  if (!left) return;
  const int x = mc::choose(left);
  const G r2 = r.MakePrunedCopy({x}, DegreeOfParallelism::None());
  MC_CHECK(model(r2) == induced(want, 1 << x), "second pruning of node ", x, " gives ", ms(model(r2)));
  mc::transition(2);
}
/// Members of the set that are no nodes change nothing.
void foreign()
{
  const int n = mc::choose(4), mask = mc::choose(1 << n); const long bits = mc::choose(1 << (n * (n - 1)));
  const std::vector<int64_t> others{-1, -2, -100, n, n + 1, 1000000, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()};
  const G g = make(n, bits, false); std::unordered_set<int64_t> prune; for (int i = 0; i < n; i++) { if (mask >> i & 1) { prune.insert(i); } }
  const int how = mc::choose(static_cast<int>(others.size()) + 1); if (how == static_cast<int>(others.size())) { prune.insert(others.begin(), others.end()); } else { prune.insert(others[static_cast<size_t>(how)]); }
  const bool overlay = mc::flip(); const auto par = mc::flip() ? DegreeOfParallelism(2) : DegreeOfParallelism::None();
  G r; std::string error; const int t = mc::throws([&] { r = overlay ? PruneGraph<Ov, G>(Ov(g), prune, par) : g.MakePrunedCopy(prune, par); }, &error);
  MC_CHECK(t == 0, "graph ", ms(model(g)), " without mask ", mask, " and ", how, ": threw ", error);
  MC_CHECK(model(r) == induced(model(g), mask) && r.CheckGraphLinkage(), "graph ", ms(model(g)), " without mask ", mask, " and ", how, " (no node) gives ", ms(model(r)));
  mc::transition(); mc::state(mc::Hash().add(n).add(bits).add(mask).add(how).h);
}
/// Many nodes: every pattern of a period, runs at both ends, all but a few.
void large()
{
  const int n = mc::pick(std::vector<int>{33, 150, 300});
  G g; for (int i = 0; i < n; i++) g.AddNode(1000 + i);
  int k = 0;
  for (int i = 0; i < n; i++) for (int d : {1, 2, 9, n - 4}) g.AddEdgeBetweenNodes(i, (i + d) % n, ++k);
  for (int i = 1; i < n; i++) g.AddEdgesBetweenNodes(0, i, 0.5 + i);
  const int form = mc::choose(4), p = mc::choose(7) + 1, ph = mc::choose(3);
  std::unordered_set<int64_t> gone;
  for (int i = 0; i < n; i++)
  {
    const bool drop = form == 0 ? i % (p + 1) == ph : form == 1 ? i % (p + 1) != ph : form == 2 ? i < p * 4 + ph : i >= n - p * 4 - ph;
    if (drop) gone.insert(i);
  }
  const int threads = mc::pick(std::vector<int>{1, 2, 5, 16});
  const bool overlay = mc::flip();
  const Model before = model(g), want = induced_set(before, gone);
  const G r = overlay ? PruneGraph<Ov, G>(Ov(g), gone, DegreeOfParallelism(threads)) : g.MakePrunedCopy(gone, DegreeOfParallelism(threads));
  MC_CHECK(model(r) == want, n, "-node graph, pattern ", form, "/", p, "/", ph, " with ", threads, " threads", overlay ? " (overlay)" : "", ": not the induced subgraph");
  MC_CHECK(model(g) == before && r.CheckGraphLinkage(), "source changed or result not linked");
  mc::state(mc::Hash().add(n).add(form).add(p).add(ph).h); mc::transition();
}
/// More nodes than 16 bits count, a few of them pruned.
void very_large()
{
  const int n = mc::pick(std::vector<int>{33000, 66000}); static std::map<int, std::pair<G, Model>> made;
  auto& [g, before] = made[n];
  if (before.empty())
  {
    g = G(static_cast<size_t>(n)); for (int i = 0; i < n; i++) { g.AddNode(7 * i); }
    for (int i = 0; i < n; i++) { g.AddEdgeBetweenNodes(i, (i + 1) % n, i); if (i % 3 == 0) { g.AddEdgesBetweenNodes(i, (i + n / 2 + 1) % n, i + 0.5); } }
    for (int i = 1; i < 600; i++) { g.AddEdgeBetweenNodes(n - 1, i * (n / 601), 1.0); g.AddEdgeBetweenNodes(i * (n / 601), n - 1, 1.0); }
    before = model(g);
  }
  const std::vector<std::vector<int64_t>> sets{{}, {0}, {n - 1}, {32767}, {32768, 32769}, {0, 256, 65535 % n, n - 2}, {1, 2, 3, n / 2, n / 2 + 1, n - 3, n - 5}};
  const size_t which = static_cast<size_t>(mc::choose(static_cast<int>(sets.size()) + 1)); std::unordered_set<int64_t> gone;
  if (which < sets.size()) { gone.insert(sets[which].begin(), sets[which].end()); } else { for (int i = 0; i < 300; i++) { gone.insert(i * 109 + i % 2); } }
  const int threads = mc::pick(std::vector<int>{1, 5}); const Model want = induced_set(before, gone);
  const G r = g.MakePrunedCopy(gone, DegreeOfParallelism(threads)); const Model got = model(r);
  MC_CHECK(got.size() == want.size(), n, "-node graph without set ", which, ": ", got.size(), " nodes");
  for (size_t i = 0; i < got.size(); i++) { MC_CHECK(got[i] == want[i], n, "-node graph without set ", which, ", ", threads, " threads: node ", i, " is ", ms({got[i]}), " expected ", ms({want[i]})); }
  MC_CHECK(r.CheckGraphLinkage(), "result not linked"); mc::state(mc::Hash().add(n).add(which).h); mc::transition();
}
}  // namespace
void mc::run()
{
  omp_set_dynamic(0);
  for (int n = 1; n <= 3; n++) scenario(mc::str("digraphs", n), [n] { body(n, true); });
  scenario("digraphs4", [] { body(4, thorough()); }, 1);
  scenario("chain", chain);
  scenario("no nodes", foreign);
  scenario("large", large, 2);
  scenario("very large", very_large, 2);
  if (thorough()) scenario("digraphs5", [] { body(5, false); }, 2);
}
