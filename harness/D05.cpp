// D05: a graph overlay acts like a modified copy without touching its base.
#include "mc.hpp"
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
MC_HARNESS("D05", "every base digraph up to the size bound (weights distinct) and every operation sequence up to the depth bound, applied to a full copy and to an "
                  "owning and a non-owning overlay; a state is a distinct modified graph");
using namespace common_robotics_utilities;
using namespace common_robotics_utilities::simple_graph;
namespace
{
using G = Graph<int>;
using NOv = NonOwningGraphOverlay<int, G>;
using OOv = OwningGraphOverlay<int, G>;
template<typename Gr> std::string dump(const Gr& g)
{
  std::string r = mc::str("n=", g.Size(), " ");
  for (int64_t i = 0; i < g.Size(); i++)
  {
    const auto& n = g.GetNodeImmutable(i);
    r += mc::str("{", n.GetValueImmutable());
    for (auto& e : n.GetInEdgesImmutable()) r += mc::str(" in(", e.GetFromIndex(), ">", e.GetToIndex(), ":", e.GetWeight(), "#", e.GetScratchpad(), ")");
    for (auto& e : n.GetOutEdgesImmutable()) r += mc::str(" out(", e.GetFromIndex(), ">", e.GetToIndex(), ":", e.GetWeight(), "#", e.GetScratchpad(), ")");
    r += "}";
  }
  return r;
}
template<typename Gr> void compare(const G& copy, const Gr& ov, const std::string& trace)
{
  MC_CHECK(dump(ov) == dump(copy), trace, ": overlay ", dump(ov), " copy ", dump(copy));
  MC_CHECK(ov.CheckGraphLinkage() == copy.CheckGraphLinkage(), trace, ": linkage check differs");
  for (int64_t i = -1; i <= copy.Size(); i++) MC_CHECK(ov.IndexInRange(i) == copy.IndexInRange(i), trace, ": IndexInRange ", i);
  const int64_t n = copy.Size();
  MC_CHECK(mc::throws([&] { (void)ov.GetNodeImmutable(n); }) == 1, trace, ": node past the end");
  MC_CHECK(mc::throws([&] { (void)ov.GetNodeImmutable(-1); }) == 1, trace, ": node -1");
}
template<typename Gr> void searches(const G& copy, const Gr& ov, const std::string& trace)
{
  using simple_graph_search::PerformDijkstrasAlgorithm;
  for (int64_t s = 0; s < copy.Size(); s++)
  {
    const auto a = PerformDijkstrasAlgorithm<G>(copy, s);
    const auto b = PerformDijkstrasAlgorithm<Gr>(ov, s);
    for (int64_t i = 0; i < copy.Size(); i++)
      MC_CHECK(a.GetNodeDistance(i) == b.GetNodeDistance(i) && a.GetPreviousIndex(i) == b.GetPreviousIndex(i), trace, ": shortest distances differ from start ", s, " at ", i);
    for (int64_t t = 0; t < copy.Size(); t++)
    {
      const auto heur = [](const int&, const int&) { return 0.0; };
      const auto pa = simple_graph_search::PerformAstarSearch<int, G>(copy, {s}, {t}, heur, true);
      const auto pb = simple_graph_search::PerformAstarSearch<int, Gr>(ov, {s}, {t}, heur, true);
      MC_CHECK(pa.PathCost() == pb.PathCost() && pa.Path() == pb.Path(), trace, ": A* differs from ", s, " to ", t);
    }
  }
}
struct Op { int kind; int64_t a, b; double w; };
Op draw(int64_t n, int s, int64_t maxn)
{
  Op o{mc::choose(s == 0 ? 7 : 6), 0, 0, s + 20.5};
  if (o.kind <= 1 || o.kind == 6) { if (n >= maxn) throw mc::Skip(); }
  else if (o.kind <= 3)
  {
    // every ordered pair in range, and each kind of out-of-range index in each place
    const int c = mc::choose(int(n * n) + 4);
    if (c < n * n) { o.a = c / n; o.b = c % n; }
    else { const int k = int(c - n * n); o.a = k & 1 ? 0 : (k & 2 ? n : -1); o.b = k & 1 ? (k & 2 ? n : -1) : 0; }
  }
  else o.a = mc::choose(int(n) + 2) - 1;
  return o;
}
template<typename Gr> int apply(Gr& g, const Op& o, int64_t* ret)
{
  *ret = -7;
  return mc::throws([&]
  {
    switch (o.kind)
    {
      case 0: *ret = g.AddNode(int(o.w * 10)); break;
      case 1: *ret = g.AddNode(typename Gr::NodeType(int(o.w * 100))); break;
      case 2: g.AddEdgeBetweenNodes(o.a, o.b, o.w); break;
      case 3: g.AddEdgesBetweenNodes(o.a, o.b, o.w); break;
      case 6: *ret = g.AddNode(typename Gr::NodeType(int(o.w * 100), {GraphEdge(0, g.Size(), o.w, 3)}, {GraphEdge(g.Size(), 0, o.w + 1, 4)})); break;
      case 4: g.GetNodeMutable(o.a).GetValueMutable() += 1000; break;
      case 5:
        // change a weight through both ends
        {
          auto& n = g.GetNodeMutable(o.a);
          for (auto& e : n.GetOutEdgesMutable()) { e.SetWeight(e.GetWeight() + 64); e.SetScratchpad(e.GetScratchpad() + 1); for (auto& i : g.GetNodeMutable(e.GetToIndex()).GetInEdgesMutable()) if (i.GetFromIndex() == o.a) { i.SetWeight(e.GetWeight()); i.SetScratchpad(e.GetScratchpad()); } }
        }
    }
  });
}
G base_graph(int n, int bits)
{
  G g; for (int i = 0; i < n; i++) g.AddNode(i + 1);
  int k = 0;
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b) { if (bits >> k & 1) g.AddEdgeBetweenNodes(a, b, 1 + k); k++; }
  return g;
}
void body(int n, int depth, bool owning_too)
{
  const G base = base_graph(n, mc::choose(1 << (n * (n - 1))));
  const std::string base_dump = dump(base);
  G copy = base;
  NOv ov(base);
  OOv oo(std::make_shared<const G>(base));
  std::string trace = base_dump + " ops";
  compare(copy, ov, trace);
  std::string kept_dump; std::unique_ptr<NOv> kept;
  for (int s = 0; s < depth; s++)
  {
    const Op o = draw(copy.Size(), s, n + 2);
    trace += mc::str(" ", o.kind, ":", o.a, ",", o.b);
    if (s == 1) { kept.reset(new NOv(ov)); kept_dump = dump(copy); }
    int64_t r1, r2, r3;
    const int t1 = apply(copy, o, &r1), t2 = apply(ov, o, &r2);
    MC_CHECK(t1 == t2 && r1 == r2, trace, ": copy threw ", t1, " returned ", r1, ", overlay threw ", t2, " returned ", r2);
    compare(copy, ov, trace);
    if (owning_too)
    {
      const int t3 = apply(oo, o, &r3);
      MC_CHECK(t1 == t3 && r1 == r3, trace, ": owning overlay threw ", t3, " returned ", r3);
      compare(copy, oo, trace + " (owning overlay)");
    }
    MC_CHECK(dump(base) == base_dump, trace, ": base graph changed to ", dump(base));
    if (kept) MC_CHECK(dump(*kept) == kept_dump, trace, ": a copy of the overlay changed with it");
    mc::state(mc::Hash().add(dump(copy)).h); mc::transition();
  }
  searches(copy, ov, trace);
  mc::note(trace);
}
// A base of many nodes: the overlay of every few of them.
void large()
{
  const int n = mc::pick(std::vector<int>{40, 200});
  G base; for (int i = 0; i < n; i++) base.AddNode(i + 1);
  for (int i = 0; i < n; i++) for (int d : {1, 7, 20}) base.AddEdgeBetweenNodes(i, (i + d) % n, i + d * 0.5);
  const std::string base_dump = dump(base);
  G copy = base; NOv ov(base);
  const int step = mc::pick(std::vector<int>{1, 2, 5, 13});
  const int kinds = mc::choose(3);
  int64_t r1, r2;
  for (int i = 0; i < 60; i++)
  {
    const int64_t sz = copy.Size();
    const int64_t a = (i * step) % sz, b = kinds == 2 ? sz - 1 - (i % 3) : (i * 17 + 3) % sz;
    Op o{i % 6 == 5 ? 5 : kinds == 0 ? 2 + i % 2 : i % 5, a, b, 500.0 + i};
    const int t1 = apply(copy, o, &r1), t2 = apply(ov, o, &r2);
    MC_CHECK(t1 == t2 && r1 == r2, "large base, step ", i, ": copy threw ", t1, " returned ", r1, ", overlay threw ", t2, " returned ", r2);
    if (i % 6 == 0 || i == 59) compare(copy, ov, mc::str("large base, step ", i));
    mc::transition();
  }
  MC_CHECK(dump(base) == base_dump, "a large base changed");
  const NOv other(ov);
  compare(copy, other, "copy of an overlay of a large base");
  mc::state(mc::Hash().add(dump(copy)).h);
}
// A base of more nodes than 16 bits count, changed at a few of them.
void very_large()
{
  const int n = 66000; static G base; if (base.Size() == 0) { for (int i = 0; i < n; i++) { base.AddNode(i); } for (int i = 0; i < n; i++) { base.AddEdgeBetweenNodes(i, (i + 1) % n, i + 0.5); } }
  const std::vector<int64_t> at{0, 1, 255, 256, 32768, 65535, 65536, 65792, n - 1}; G copy = base; NOv ov(base); std::string trace = "very large base:"; int64_t r1, r2;
  const int form = mc::choose(3); const size_t first = static_cast<size_t>(mc::choose(static_cast<int>(at.size())));
  for (size_t k = 0; k < 4; k++)
  {
    const int64_t a = at[(first + k) % at.size()], b = at[(first + 2 * k + 4) % at.size()]; const Op o{form == 0 ? 2 : form == 1 ? static_cast<int>(k) + 2 : static_cast<int>(k % 2), a, b, 500.0 + static_cast<double>(k)}; trace += mc::str(" ", o.kind, ":", a, ",", b);
    const int t1 = apply(copy, o, &r1), t2 = apply(ov, o, &r2); MC_CHECK(t1 == t2 && r1 == r2, trace, ": copy threw ", t1, " returned ", r1, ", overlay threw ", t2, " returned ", r2);
  }
  MC_CHECK(ov.Size() == copy.Size(), trace, ": size ", ov.Size());
  const auto same = [](const std::vector<GraphEdge>& x, const std::vector<GraphEdge>& y) { if (x.size() != y.size()) { return false; } for (size_t i = 0; i < x.size(); i++) { if (x[i].GetFromIndex() != y[i].GetFromIndex() || x[i].GetToIndex() != y[i].GetToIndex() || x[i].GetWeight() != y[i].GetWeight() || x[i].GetScratchpad() != y[i].GetScratchpad()) { return false; } } return true; };
  for (int64_t i = 0; i < copy.Size(); i++)
  {
    const auto& x = copy.GetNodeImmutable(i); const auto& y = ov.GetNodeImmutable(i);
    MC_CHECK(x.GetValueImmutable() == y.GetValueImmutable() && same(x.GetInEdgesImmutable(), y.GetInEdgesImmutable()) && same(x.GetOutEdgesImmutable(), y.GetOutEdgesImmutable()), trace, ": node ", i, " of the overlay differs from the copy's");
    if (i < n) { MC_CHECK(base.GetNodeImmutable(i).GetValueImmutable() == i && base.GetNodeImmutable(i).GetOutEdgesImmutable().size() == 1, trace, ": node ", i, " of the base changed"); }
  }
  mc::state(mc::Hash().add(trace).h); mc::transition(4); mc::note(trace);
}
void misc()
{
  MC_CHECK(mc::throws([] { NOv o(static_cast<const G*>(nullptr)); }) == 1, "overlay of a null graph was made");
  MC_CHECK(mc::throws([] { OOv o(std::shared_ptr<const G>{}); }) == 1, "owning overlay of a null graph was made");
  // an owning overlay (and its copies) keeps its base alive
  const int bits = mc::choose(64);
  auto src = std::make_shared<const G>(base_graph(3, bits));
  const std::string before = dump(*src);
  auto first = std::make_unique<OOv>(src);
  OOv oo(*first);
  const int64_t from = mc::choose(3);
  first->AddNode(7); first->GetNodeMutable(0).GetValueMutable() = -5;
  MC_CHECK(dump(*src) == before, "base changed");
  first.reset(); src.reset();
  MC_CHECK(dump(oo) == before, "owning overlay followed another one: ", dump(oo));
  oo.AddEdgeBetweenNodes(from, oo.AddNode(5), 3.0);
  G copy = base_graph(3, bits); copy.AddEdgeBetweenNodes(from, copy.AddNode(5), 3.0);
  compare(copy, oo, "owning overlay after its source is gone");
  searches(copy, oo, "owning overlay");
}
// Overlays assigned to each other (and to themselves), and an overlay of an overlay: each is a copy of its own.
void assigned()
{
  const G one = base_graph(2, mc::choose(4)), two = base_graph(3, mc::choose(2) * 43); const bool nested = mc::flip();
  G c1 = one, c2 = two; NOv o1(one), o2(two); std::string trace = dump(one) + " and " + dump(two) + (nested ? " nested ops" : " ops"); int64_t r1, r2;
  auto step = [&](G& c, auto& o, int s) { const Op op = draw(c.Size(), s, 5); trace += mc::str(" ", op.kind, ":", op.a, ",", op.b); const int t1 = apply(c, op, &r1), t2 = apply(o, op, &r2); MC_CHECK(t1 == t2 && r1 == r2, trace, ": copy and overlay differ"); compare(c, o, trace); mc::transition(); };
  step(c1, o1, 0);
  if (nested)
  {
    G c3 = c1; using Ov2 = NonOwningGraphOverlay<int, NOv>; Ov2 o3(o1); compare(c3, o3, trace + " (overlay of an overlay)"); step(c3, o3, 1); compare(c1, o1, trace + " (the overlay below)");
    const std::string d = dump(one); MC_CHECK(d == dump(G(one)), "base"); searches(c3, o3, trace); mc::state(mc::Hash().add(dump(c3)).h); mc::note(trace); return;
  }
  switch (mc::choose(4))
  {
    case 0: o2 = o1; c2 = c1; trace += " ="; break;
    case 1: { NOv& self = o1; o1 = self; trace += " self="; break; }
    case 2: { NOv moved(std::move(o1)); o2 = std::move(moved); c2 = c1; o1 = o2; trace += " moved"; break; }
    default: std::swap(o1, o2); std::swap(c1, c2); trace += " swap";
  }
  compare(c1, o1, trace); compare(c2, o2, trace); step(c2, o2, 1); compare(c1, o1, trace);
  o1.GetNodeMutable(0).GetValueMutable() += 5; c1.GetNodeMutable(0).GetValueMutable() += 5; o1.AddEdgeBetweenNodes(0, o1.AddNode(77), 3.5); c1.AddEdgeBetweenNodes(0, c1.AddNode(77), 3.5); compare(c1, o1, trace + " more"); compare(c2, o2, trace);
  mc::state(mc::Hash().add(dump(c1)).add(dump(c2)).h); mc::note(trace);
}
// Nodes and values of the overlay or its base given to the overlay, with a reference to a node held meanwhile.
void own_parts()
{
  using T = Graph<std::string>; T base; const int n = mc::pick(std::vector<int>{1, 2, 5, 12, 13, 30}); auto text = [](int i) { return std::string(30, char('a' + i % 26)) + std::to_string(i); };
  std::vector<std::string> m; for (int i = 0; i < n; i++) { base.AddNode(text(i)); m.push_back(text(i)); }
  NonOwningGraphOverlay<std::string, T> ov(base); const int hold = mc::choose(2) * (n - 1); std::string& held = ov.GetNodeMutable(hold).GetValueMutable();
  std::string trace = mc::str(n, " held ", hold, ":");
  for (int s = 0; s < 3; s++)
  {
    const int op = mc::choose(3), at = std::vector<int>{0, static_cast<int>(m.size()) / 2, static_cast<int>(m.size()) - 1}[static_cast<size_t>(mc::choose(3))]; const size_t ua = static_cast<size_t>(at); trace += mc::str(" ", op, ",", at); int64_t got = -1;
    if (op == 0) got = ov.AddNode(ov.GetNodeImmutable(at).GetValueImmutable()); else if (op == 1) got = ov.AddNode(ov.GetNodeImmutable(at));
    else { for (int i = 0; i < n; i++) ov.GetNodeMutable(i).GetValueMutable() += ""; got = ov.AddNode(std::string(m[ua])); }
    m.push_back(m[ua]); MC_CHECK(got == static_cast<int64_t>(m.size()) - 1, trace, ": index ", got);
    held += "+"; m[static_cast<size_t>(hold)] += "+";
    for (size_t k = 0; k < m.size(); k++) MC_CHECK(ov.GetNodeImmutable(static_cast<int64_t>(k)).GetValueImmutable() == m[k], trace, ": node ", k, " has the value '", ov.GetNodeImmutable(static_cast<int64_t>(k)).GetValueImmutable(), "'");
    mc::transition();
  }
  for (int i = 0; i < n; i++) MC_CHECK(base.GetNodeImmutable(i).GetValueImmutable() == text(i), trace, ": base changed");
  mc::state(mc::Hash().add(trace).h); mc::note(trace);
}
}  // namespace
void mc::run()
{
  scenario("assigned and nested", assigned, 4);
  scenario("own parts", own_parts, 3);
  scenario("base1", [] { body(1, by_tier(3, 5), true); });
  scenario("base2", [] { body(2, by_tier(3, 4), true); }, 3);
  scenario("base3", [] { body(3, by_tier(2, 3), true); }, 2);
  scenario("misc", misc);
  scenario("large", large);
  scenario("very large", very_large);
}
