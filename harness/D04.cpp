// D04: graphs stay consistently linked and reject malformed node sets.
#include "mc.hpp"
#include <cmath>
#include <cstring>
#include <limits>
#include <common_robotics_utilities/simple_graph.hpp>
MC_HARNESS("D04", "every sequence of node/edge additions (valid, self-loop and out-of-range ones), copies and serialized round trips up to the "
                  "depth bound against a plain edge list; every digraph up to the size bound with every single (thorough: also double) corruption of its edge records "
                  "against a direct reading of the acceptance rule; a state is a distinct graph content")
using namespace common_robotics_utilities;
using namespace common_robotics_utilities::simple_graph;
namespace
{
using G = Graph<int>;
using Node = G::NodeType;
using NodeVec = std::vector<Node, GraphNodeAllocator<int>>;
struct E { int64_t f, t; double w; uint64_t s = 0; bool operator==(const E& o) const { return f == o.f && t == o.t && !std::memcmp(&w, &o.w, sizeof w) && s == o.s; } };
struct N { int v; std::vector<E> in, out; };
using Model = std::vector<N>;
const auto kSer = serialization::SerializeMemcpyable<int>;
const auto kDes = serialization::DeserializeMemcpyable<int>;

std::vector<E> conv(const std::vector<GraphEdge>& v)
{ std::vector<E> r; for (auto& e : v) r.push_back({e.GetFromIndex(), e.GetToIndex(), e.GetWeight(), e.GetScratchpad()}); return r; }
std::string es(const std::vector<E>& v) { std::string r; for (auto& e : v) r += mc::str("(", e.f, "->", e.t, ":", e.w, ")"); return r; }
std::string ms(const Model& m) { std::string r; for (auto& n : m) r += mc::str("{", n.v, " in", es(n.in), " out", es(n.out), "}"); return r; }
uint64_t hm(const Model& m)
{ mc::Hash h; for (auto& n : m) { h.add(n.v); for (auto& e : n.in) h.add(e.f).add(e.t).add(e.w).add(e.s); h.add('|'); for (auto& e : n.out) h.add(e.f).add(e.t).add(e.w).add(e.s); } return h.h; }

/// The acceptance rule, read directly.
bool rule(const Model& m)
{
  const int64_t n = static_cast<int64_t>(m.size());
  for (int64_t i = 0; i < n; i++)
  {
    for (const E& e : m[i].in)
    {
      if (e.t != i || e.f < 0 || e.f >= n || e.f == i) return false;
      bool ok = false; for (const E& o : m[e.f].out) ok |= o.t == i;
      if (!ok) return false;
    }
    for (const E& e : m[i].out)
    {
      if (e.f != i || e.t < 0 || e.t >= n || e.t == i) return false;
      bool ok = false; for (const E& o : m[e.t].in) ok |= o.f == i;
      if (!ok) return false;
    }
  }
  return true;
}

template<typename Gr> void same(const Gr& g, const Model& m, const char* when)
{
  MC_CHECK(g.Size() == static_cast<int64_t>(m.size()), when, ": size ", g.Size(), " expected ", m.size());
  for (int64_t i = -1; i <= g.Size(); i++)
  {
    const bool in = i >= 0 && i < g.Size();
    MC_CHECK(g.IndexInRange(i) == in, when, ": IndexInRange(", i, ")");
    const int t = mc::throws([&] { (void)g.GetNodeImmutable(i); });
    MC_CHECK((t == 0) == in, when, ": GetNodeImmutable(", i, ") threw ", t);
  }
  for (size_t i = 0; i < m.size(); i++)
  {
    const auto& n = g.GetNodeImmutable(static_cast<int64_t>(i));
    MC_CHECK(n.GetValueImmutable() == m[i].v, when, ": node ", i, " value ", n.GetValueImmutable());
    MC_CHECK(conv(n.GetInEdgesImmutable()) == m[i].in, when, ": node ", i, " in ", es(conv(n.GetInEdgesImmutable())), " expected ", es(m[i].in));
    MC_CHECK(conv(n.GetOutEdgesImmutable()) == m[i].out, when, ": node ", i, " out ", es(conv(n.GetOutEdgesImmutable())), " expected ", es(m[i].out));
  }
}
NodeVec build(const Model& m)
{
  auto c = [](const std::vector<E>& v) { std::vector<GraphEdge> r; for (auto& e : v) r.emplace_back(e.f, e.t, e.w, e.s); return r; };
  NodeVec nv; for (auto& n : m) nv.emplace_back(n.v, c(n.in), c(n.out)); return nv;
}

void ops()
{
  const int depth = mc::by_tier(5, 6);
  const int maxn = 3;
  G g; Model m;
  const int ctor = mc::thorough() ? mc::choose(2) : 0;
  if (ctor == 1) g = G(8);
  std::string trace;
  G kept; Model kept_m;    // an earlier copy: must stay what it was
  for (int s = 0; s < depth; s++)
  {
    const int n = static_cast<int>(m.size());
    const double w = s + 0.5;
    const int op = mc::choose(8);
    if (op == 0)
    {
      if (n >= maxn) throw mc::Skip();
      MC_CHECK(g.AddNode(10 * s) == n, "AddNode returned a wrong index after ", trace);
      m.push_back({10 * s, {}, {}}); trace += "V ";
    }
    else if (op == 1)
    {
      if (n >= maxn) throw mc::Skip();
      MC_CHECK(g.AddNode(Node(10 * s + 1)) == n, "AddNode(node) returned a wrong index after ", trace);
      m.push_back({10 * s + 1, {}, {}}); trace += "N ";
    }
    else if (op <= 3)
    {
      // indices: -1 .. n (out of range ones included)
      int64_t a, b;
      const int c = mc::choose(n * n + 4);
      if (c < n * n) { a = c / n; b = c % n; }
      else { const int k = c - n * n; a = k & 1 ? 0 : (k & 2 ? n : -1); b = k & 1 ? (k & 2 ? n : -1) : 0; }
      const bool ok = a >= 0 && b >= 0 && a < n && b < n && a != b;
      const int t = mc::throws([&] { if (op == 2) g.AddEdgeBetweenNodes(a, b, w); else g.AddEdgesBetweenNodes(a, b, w); });
      trace += mc::str(op == 2 ? "E" : "EE", a, ",", b, " ");
      MC_CHECK((t == 0) == ok, trace, ": adding the edge threw ", t);
      if (ok)
      {
        m[a].out.push_back({a, b, w}); m[b].in.push_back({a, b, w});
        if (op == 3) { m[b].out.push_back({b, a, w}); m[a].in.push_back({b, a, w}); }
      }
    }
    else if (op == 4)
    {
      if (kept_m.size() || !n) throw mc::Skip();
      kept = g; kept_m = m; trace += "copy ";
    }
    else if (op == 5)
    {
      std::vector<uint8_t> buf(3, 0xAB);
      const uint64_t wr = g.SerializeSelf(buf, kSer);
      const uint64_t wr2 = buf.size() - 3;
      MC_CHECK(wr == wr2, "reported ", wr, " bytes, wrote ", wr2);
      buf.push_back(0xCD);
      const auto d = G::Deserialize(buf, 3, kDes);
      MC_CHECK(d.BytesRead() == wr, "read ", d.BytesRead(), " of ", wr);
      g = d.Value(); trace += "ser ";
      if (s + 1 < depth && s > 2) throw mc::Skip();
    }
    else if (op == 6)
    {
      g = G(g.GetNodesImmutable()); trace += "rebuild ";
      if (s + 1 < depth && s > 2) throw mc::Skip();
    }
    else
    {
      // change of value, weight and scratch through the mutable accessors (both ends)
      if (!n || m[0].out.empty()) throw mc::Skip();
      const E e = m[0].out[0];
      const double nw = 100 + s; const uint64_t ns = 7u + s;
      g.GetNodeMutable(0).GetValueMutable() = 1000 + s; m[0].v = 1000 + s;
      auto& oe = g.GetNodeMutable(0).GetOutEdgesMutable().at(0); oe.SetWeight(nw); oe.SetScratchpad(ns);
      auto& ie = g.GetNodesMutable().at(static_cast<size_t>(e.t)).GetInEdgesMutable();
      for (size_t k = 0; k < ie.size(); k++) if (m[e.t].in[k] == e) { ie[k].SetWeight(nw); ie[k].SetScratchpad(ns); m[e.t].in[k].w = nw; m[e.t].in[k].s = ns; break; }
      m[0].out[0].w = nw; m[0].out[0].s = ns; trace += "mut ";
    }
    same(g, m, trace.c_str());
    MC_CHECK(g.CheckGraphLinkage(), "graph not consistently linked after ", trace);
    if (kept_m.size()) same(kept, kept_m, "earlier copy");
    mc::state(hm(m)); mc::transition();
  }
  mc::note(trace);
  // a neighbour adapter over the whole graph and over each prefix
  for (int64_t k = -1; k <= g.Size() + 1; k++)
  {
    const bool ok = k >= 0 && k <= g.Size();
    const int t = mc::throws([&]
    {
      const GraphKNNAdapter<G> a(g, k);
      MC_CHECK(a.size() == static_cast<size_t>(k), "adapter size ", a.size());
      for (int64_t i = 0; i < k; i++) MC_CHECK(&a[static_cast<size_t>(i)] == &g.GetNodeImmutable(i), "adapter item ", i);
    });
    MC_CHECK((t == 0) == ok, "adapter of size ", k, " over ", g.Size(), " nodes threw ", t);
  }
  MC_CHECK(GraphKNNAdapter<G>(g).size() == static_cast<size_t>(g.Size()), "adapter size");
}

Model digraph(int n, int bits)
{
  Model m(static_cast<size_t>(n));
  int k = 0;
  for (int a = 0; a < n; a++) m[a].v = a + 1;
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b)
  {
    if (bits >> k & 1) { m[a].out.push_back({a, b, 1.0 + k}); m[b].in.push_back({a, b, 1.0 + k}); }
    k++;
  }
  return m;
}
void corrupt(Model& m, std::string& what)
{
  const int n = static_cast<int>(m.size());
  struct Ref { int node; bool in; int k; };
  std::vector<Ref> refs;
  for (int i = 0; i < n; i++) { for (size_t k = 0; k < m[i].in.size(); k++) refs.push_back({i, true, int(k)}); for (size_t k = 0; k < m[i].out.size(); k++) refs.push_back({i, false, int(k)}); }
  const int form = mc::choose(6);
  if (form == 0) { what += "none "; return; }
  if (form == 1)
  {
    // a stray record at any node
    const int i = mc::choose(n); const bool in = mc::flip();
    const int64_t a = mc::choose(n + 2) - 1, b = mc::choose(n + 2) - 1;
    (in ? m[i].in : m[i].out).push_back({a, b, 9.0}); what += mc::str("stray ", in ? "in" : "out", " record ", a, "->", b, " at ", i, " "); return;
  }
  if (refs.empty()) throw mc::Skip();
  const Ref r = mc::pick(refs);
  auto& v = r.in ? m[r.node].in : m[r.node].out;
  what += mc::str(r.in ? "in" : "out", " record ", r.k, " of node ", r.node);
  const std::vector<int64_t> bad = {-1, n, INT64_MAX, INT64_MIN};
  if (form == 2) { v.erase(v.begin() + r.k); what += " dropped "; }
  else if (form == 3) { const int c = mc::choose(n + 4); v[r.k].f = c < n ? c : bad[c - n]; what += mc::str(" from=", v[r.k].f, " "); }
  else if (form == 4) { const int c = mc::choose(n + 4); v[r.k].t = c < n ? c : bad[c - n]; what += mc::str(" to=", v[r.k].t, " "); }
  else { v.push_back(v[r.k]); what += " doubled "; }
}
void malformed(int n, int corruptions)
{
  const int pairs = n * (n - 1);
  Model m = digraph(n, mc::choose(1 << pairs));
  std::string what;
  for (int c = 0; c < corruptions; c++) corrupt(m, what);
  const bool want = rule(m);
  const NodeVec nv = build(m);
  std::string msg;
  bool made = false;
  const int t = mc::throws([&] { G g(nv); made = true; same(g, m, "accepted node set"); MC_CHECK(g.CheckGraphLinkage(), "accepted graph fails its own check"); }, &msg);
  MC_CHECK(t <= 1, "non-standard exception");
  MC_CHECK(made == want, "node set ", ms(m), " (", what, ") ", made ? "accepted" : "refused");
  // the same through the public check, an overlay, and a serialized copy
  G raw; raw.GetNodesMutable() = nv;
  MC_CHECK(CheckGraphLinkage(raw) == want, "CheckGraphLinkage of ", ms(m), " (", what, ")");
  MC_CHECK((NonOwningGraphOverlay<int, G>(raw).CheckGraphLinkage()) == want, "overlay CheckGraphLinkage of ", ms(m), " (", what, ")");
  std::vector<uint8_t> buf; const uint64_t wr = raw.SerializeSelf(buf, kSer);
  const Model before = digraph(2, 1);
  G target(build(before));
  const int t2 = mc::throws([&] { MC_CHECK(target.DeserializeSelf(buf, 0, kDes) == wr, "bytes read"); });
  MC_CHECK((t2 == 0) == want, "deserializing ", ms(m), " (", what, ") threw ", t2);
  same(target, want ? m : before, "after deserializing");
  mc::state(hm(m)); mc::note(what);
}
// Edges are equal exactly if all they hold is.
void edges()
{
  using L = std::numeric_limits<double>;
  const std::vector<int64_t> is{0, 1, -1, 1ll << 31, 1ll << 32, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()};
  const std::vector<double> ws{0.0, 1.0, std::nextafter(1.0, 2.0), -1.0, L::infinity(), L::denorm_min(), 1e300};
  const std::vector<uint64_t> ss{0, 1, 1ull << 32, std::numeric_limits<uint64_t>::max()};
  const int part = mc::choose(5);
  E a{mc::pick(is), mc::pick(is), 1.0, 0}, b = a;
  if (part == 0) { b.f = mc::pick(is); } else if (part == 1) { b.t = mc::pick(is); } else if (part == 2) { a.w = mc::pick(ws); b.w = mc::pick(ws); } else if (part == 3) { a.s = mc::pick(ss); b.s = mc::pick(ss); } else { a.w = b.w = mc::pick(ws); a.s = b.s = mc::pick(ss); b.f = mc::pick(is); b.t = mc::pick(is); }
  const GraphEdge x(a.f, a.t, a.w, a.s), y(b.f, b.t, b.w, b.s); const bool same = a.f == b.f && a.t == b.t && a.w == b.w && a.s == b.s;
  MC_CHECK((x == y) == same && (y == x) == same, "edges ", es({a}), "#", a.s, " and ", es({b}), "#", b.s, same ? " differ" : " are equal");
  GraphEdge z; z = x; z.SetFromIndex(b.f); z.SetToIndex(b.t); z.SetWeight(b.w); z.SetScratchpad(b.s); MC_CHECK(z == y && conv({z})[0] == b, "edge ", es({a}), " set to ", es({b}), " is ", es(conv({z})));
  std::vector<uint8_t> buf; const uint64_t wr = GraphEdge::Serialize(x, buf); const auto d = GraphEdge::Deserialize(buf, 0); MC_CHECK(d.BytesRead() == wr && conv({d.Value()})[0] == a, "edge ", es({a}), " after a round trip is ", es(conv({d.Value()})));
  mc::transition(); mc::state(mc::Hash().add(a.f).add(a.t).add(a.w).add(a.s).add(b.f).add(b.t).add(b.w).add(b.s).h);
}
// Weights and scratch values of every kind.
void weights()
{
  using L = std::numeric_limits<double>;
  const std::vector<double> ws{-1.0, 0.0, -0.0, L::infinity(), -L::infinity(), L::denorm_min(), L::max(), L::quiet_NaN(), 1e-300, 16777217.0};
  const std::vector<uint64_t> ss{0, 1, 0xffffffffull, 1ull << 40, std::numeric_limits<uint64_t>::max()};
  G g; Model m; for (int i = 0; i < 3; i++) { g.AddNode(i); m.push_back({i, {}, {}}); }
  std::string trace;
  for (int s = 0; s < 2; s++)
  {
    const bool both = mc::flip(); const double w = mc::pick(ws); const uint64_t p = mc::pick(ss); const int64_t a = s, b = s == 0 ? 1 : 2;
    const auto add = [&](int64_t x, int64_t y) { m[static_cast<size_t>(x)].out.push_back({x, y, w, p}); m[static_cast<size_t>(y)].in.push_back({x, y, w, p}); };
    const auto mark = [&](int64_t x, int64_t y) { g.GetNodeMutable(x).GetOutEdgesMutable().back().SetScratchpad(p); g.GetNodeMutable(y).GetInEdgesMutable().back().SetScratchpad(p); add(x, y); };
    if (both) { g.AddEdgesBetweenNodes(a, b, w); mark(a, b); mark(b, a); } else { g.AddEdgeBetweenNodes(a, b, w); mark(a, b); }
    trace += mc::str(both ? " EE" : " E", w, "#", p); same(g, m, trace.c_str());
  }
  MC_CHECK(g.CheckGraphLinkage(), trace, ": not consistently linked");
  std::vector<uint8_t> buf; const uint64_t wr = g.SerializeSelf(buf, kSer); const auto d = G::Deserialize(buf, 0, kDes);
  MC_CHECK(d.BytesRead() == wr && wr == buf.size(), trace, ": read ", d.BytesRead(), " of ", wr); same(d.Value(), m, (trace + " after a round trip").c_str());
  G h(build(m)); same(h, m, (trace + " as node set").c_str()); h.GetNodeMutable(2).GetValueMutable() = 9; same(g, m, (trace + " after a copy changed").c_str());
  mc::state(hm(m)); mc::transition(2);
}
// More nodes than 16 bits count.
void very_large()
{
  const int n = mc::pick(std::vector<int>{33000, 66000}), shape = mc::choose(2);
  Model m(static_cast<size_t>(n)); G g; if (shape == 1) { g = G(static_cast<size_t>(n)); }
  for (int i = 0; i < n; i++) { m[static_cast<size_t>(i)].v = i * 3; MC_CHECK(g.AddNode(i * 3) == i, "node index"); }
  const auto add = [&](int64_t a, int64_t b, double w) { g.AddEdgeBetweenNodes(a, b, w); m[static_cast<size_t>(a)].out.push_back({a, b, w}); m[static_cast<size_t>(b)].in.push_back({a, b, w}); };
  for (int i = 0; i < n; i++) { if (shape == 0) { add(i, (i + 1) % n, i + 0.5); } else if (i != n - 2) { add(n - 2, i, i + 0.5); add(i, n - 2, i + 0.75); } }
  same(g, m, "very large graph"); if (shape == 0) { MC_CHECK(g.CheckGraphLinkage(), "very large graph not consistently linked"); }
  std::vector<uint8_t> buf; const uint64_t wr = g.SerializeSelf(buf, kSer);
  if (shape == 0)
  {
    const auto d = G::Deserialize(buf, 0, kDes); MC_CHECK(d.BytesRead() == wr && wr == buf.size(), "very large graph: read ", d.BytesRead(), " of ", wr); same(d.Value(), m, "very large graph after a round trip");
    const int how = mc::choose(5); auto& e = m[static_cast<size_t>(std::vector<int>{0, 5, 32768, n - 1, n - 1}[static_cast<size_t>(how)])].out[0]; (how % 2 ? e.f : e.t) += std::vector<int>{65536, 65536, 1, -65536, -32768}[static_cast<size_t>(how)]; MC_CHECK(mc::throws([&] { G wrong(build(m)); }) == 1, "very large graph with the wrong record ", e.f, "->", e.t, " accepted");
  }
  mc::state(mc::Hash().add(n).add(shape).h); mc::transition(n);
}
// Graphs with many nodes and with nodes of many edges: contents, round trips and detection of a single wrong record anywhere.
void large()
{
  const int n = mc::pick(std::vector<int>{17, 64, 300});
  const int shape = mc::choose(3);   // ring with chords, star, doubled ring
  Model m(static_cast<size_t>(n)); G g;
  for (int i = 0; i < n; i++) { m[static_cast<size_t>(i)].v = i * 3; MC_CHECK(g.AddNode(i * 3) == i, "node index"); }
  auto add = [&](int64_t a, int64_t b, double w)
  { g.AddEdgeBetweenNodes(a, b, w); m[static_cast<size_t>(a)].out.push_back({a, b, w}); m[static_cast<size_t>(b)].in.push_back({a, b, w}); };
  for (int i = 0; i < n; i++)
  {
    if (shape == 0) for (int d : {1, 3, 8}) add(i, (i + d) % n, i + d * 0.25);
    else if (shape == 1) { if (i != n / 2) { add(n / 2, i, i + 0.5); add(i, n / 2, i + 0.75); } }
    else { add(i, (i + 1) % n, 1.0); add(i, (i + 1) % n, 2.0); }
  }
  same(g, m, "large graph");
  MC_CHECK(g.CheckGraphLinkage(), "large graph not consistently linked");
  std::vector<uint8_t> buf; const uint64_t wr = g.SerializeSelf(buf, kSer);
  const auto d = G::Deserialize(buf, 0, kDes);
  MC_CHECK(d.BytesRead() == wr && wr == buf.size(), "large graph: read ", d.BytesRead(), " of ", wr);
  same(d.Value(), m, "large graph after a round trip");
  // one wrong record
  const int at = mc::pick(std::vector<int>{0, 1, n / 2, n - 2, n - 1});
  const bool in = mc::flip();
  auto& v = in ? m[static_cast<size_t>(at)].in : m[static_cast<size_t>(at)].out;
  const int which = mc::choose(3);
  const size_t k = which == 0 ? 0 : which == 1 ? v.size() / 2 : v.size() - 1;
  const int form = mc::choose(6);
  if (form == 0) v.erase(v.begin() + static_cast<long>(k));
  else if (form == 1) v[k].f = n;
  else if (form == 2) v[k].t = -1;
  else if (form == 3) (in ? v[k].f : v[k].t) = (at + 2) % n;
  else if (form == 4) v.push_back(v[k]);
  else v[k].f = v[k].t;
  const bool want = rule(m);
  const int t = mc::throws([&] { G made(build(m)); });
  MC_CHECK((t == 0) == want, "graph of ", n, " nodes (shape ", shape, ") with wrong record form ", form, " at ", in ? "in" : "out", " edge ", k, " of node ", at, t ? " refused" : " accepted");
  mc::state(mc::Hash().add(n).add(shape).add(at).add(in).add(which).add(form).h); mc::transition(3);
}
// Nodes, values and edges of the graph itself given back to it: they must be taken before anything moves.
void own_parts()
{
  using T = Graph<std::string>; T g; std::vector<std::string> m; std::vector<std::pair<int, int>> edges;
  const int n = mc::pick(std::vector<int>{1, 2, 3, 4, 7, 8, 9, 16, 17}); const bool tight = mc::flip();
  auto text = [](int i) { return std::string(30, char('a' + i % 26)) + std::to_string(i); };
  for (int i = 0; i < n; i++) { g.AddNode(text(i)); m.push_back(text(i)); if (tight) g.ShrinkToFit(); }
  std::string trace = mc::str(n, tight ? " tight" : "", ":");
  for (int s = 0; s < mc::by_tier(3, 4); s++)
  {
    const int op = mc::choose(3); const size_t at = static_cast<size_t>(std::vector<int>{0, static_cast<int>(m.size()) / 2, static_cast<int>(m.size()) - 1}[static_cast<size_t>(mc::choose(3))]);
    const int64_t i = static_cast<int64_t>(at); trace += mc::str(" ", op, ",", at); int64_t got = -1;
    if (op == 0) { got = g.AddNode(g.GetNodeImmutable(i).GetValueImmutable()); m.push_back(m[at]); }
    else if (op == 1)
    {
      if (!g.GetNodeImmutable(i).GetInEdgesImmutable().empty() || !g.GetNodeImmutable(i).GetOutEdgesImmutable().empty()) throw mc::Skip();
      got = g.AddNode(g.GetNodeImmutable(i)); m.push_back(m[at]);
    }
    else
    {   // an edge of a node added to the node again, and to its other end
      const int64_t to = (i + 1) % g.Size(); if (to == i) throw mc::Skip();
      g.AddEdgeBetweenNodes(i, to, 1.5 + s);
      for (int k = 0; k < 3; k++)
      {
        auto& a = g.GetNodeMutable(i); auto& b = g.GetNodeMutable(to);
        a.AddOutEdge(a.GetOutEdgesImmutable().back()); b.AddInEdge(b.GetInEdgesImmutable().back());
        const auto& oa = a.GetOutEdgesImmutable(); const auto& ib = b.GetInEdgesImmutable();
        for (const auto& e : {oa.back(), oa[oa.size() - 2], ib.back(), ib[ib.size() - 2]}) MC_CHECK(e.GetFromIndex() == i && e.GetToIndex() == to && e.GetWeight() == 1.5 + s, trace, ": edge added again is ", e.Print());
      }
      got = g.Size() - 1;
    }
    MC_CHECK(got == static_cast<int64_t>(m.size()) - 1 && g.Size() == static_cast<int64_t>(m.size()), trace, ": node index ", got, " of ", g.Size());
    for (size_t k = 0; k < m.size(); k++) MC_CHECK(g.GetNodeImmutable(static_cast<int64_t>(k)).GetValueImmutable() == m[k], trace, ": node ", k, " has the value '", g.GetNodeImmutable(static_cast<int64_t>(k)).GetValueImmutable(), "'");
    MC_CHECK(g.CheckGraphLinkage(), trace, ": not consistently linked"); mc::transition();
  }
  mc::state(mc::Hash().add(trace).h); mc::note(trace);
}
}  // namespace
void mc::run()
{
  scenario("own parts", own_parts, 3);
  scenario("large", large, 3);
  scenario("weights", weights, 2);
  scenario("edges", edges, 2);
  scenario("very large", very_large, 2);
  scenario("ops", ops, 3);
  scenario("malformed1", [] { malformed(1, 1); });
  scenario("malformed2", [] { malformed(2, 2); });
  scenario("malformed3", [] { malformed(3, 1); });
  if (thorough()) { scenario("malformed3x2", [] { malformed(3, 2); }); }
}
