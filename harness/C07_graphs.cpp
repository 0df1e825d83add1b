// C07: graphs, searches and roadmaps.
#include "C07.hpp"
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <common_robotics_utilities/simple_prm_planner.hpp>
using namespace together; using namespace common_robotics_utilities;
namespace sg = simple_graph; namespace gs = simple_graph_search; namespace prm = simple_prm_planner; namespace s = serialization;
namespace
{
using S = std::string; using G = sg::Graph<int>; using Overlay = sg::NonOwningGraphOverlay<int, G>; using parallelism::DegreeOfParallelism;
G graph() { G g; for (int v : {4, 9 + level(), 1, 16, 11}) { g.AddNode(v); } for (int a = 0; a < 5; a++) { for (int b = 0; b < 5; b++) { if (a != b && (a * 2 + b) % 3 != 0) { g.AddEdgeBetweenNodes(a, b, 1.0 + a + b * (1 + level())); } } } return g; }
template<typename Gr> S describe(const Gr& g)
{
  Text t; for (int64_t i = 0; i < g.Size(); i++) { const auto& n = g.GetNodeImmutable(i); t << n.GetValueImmutable(); between(); for (const auto& e : n.GetInEdgesImmutable()) { t << e.GetFromIndex() << e.GetWeight(); } for (const auto& e : n.GetOutEdgesImmutable()) { t << e.GetToIndex() << e.GetScratchpad(); } }
  return t << g.CheckGraphLinkage();
}
S reading(const G& g) { return describe(g) + S(Text() << g.IndexInRange(3) << g.IndexInRange(9) << g.GetNodesImmutable().size()); }
S saving(const G& g) { std::vector<uint8_t> b; G::Serialize(g, b, [](const int& v, std::vector<uint8_t>& o) { between(); return s::SerializeMemcpyable<int>(v, o); }); const auto r = G::Deserialize(b, 0, [](const std::vector<uint8_t>& i, const uint64_t at) { between(); return s::DeserializeMemcpyable<int>(i, at); }); return Text() << b << r.BytesRead() << describe(r.Value()); }
S changing(const G& g)
{
  G copy = g; between(); copy.AddNode(77); copy.AddEdgesBetweenNodes(5, 0, 2.5); copy.GetNodeMutable(1).GetOutEdgesMutable().at(0).SetScratchpad(3); const G pruned = copy.MakePrunedCopy({1, 3}, DegreeOfParallelism::None()); return describe(copy) + describe(pruned);
}
S covering(const G& g)
{
  Overlay o(g); between(); o.AddNode(88); o.AddEdgesBetweenNodes(5, 2, 1.5); o.GetNodeMutable(0).GetValueMutable() = 40; between(); const Overlay copy = o; const G pruned = sg::PruneGraph<Overlay, G>(copy, {2}, DegreeOfParallelism::None()); return describe(copy) + describe(g) + describe(pruned);
}
double apart(const int& a, const int& b) { between(); return std::abs(a - b); }
S searching(const G& g)
{
  const auto d = gs::PerformDijkstrasAlgorithm<G>(g, 0); Text t; for (int64_t i = 0; i < d.Size(); i++) { t << d.GetPreviousIndex(i) << d.GetNodeDistance(i); } std::vector<uint8_t> b; gs::DijkstrasResult::Serialize(d, b); t << b; between();
  for (bool limit : {true, false}) { const auto r = gs::PerformAstarSearch<int, G>(g, {0, 1}, {3, 4}, [](const int&, const int&) { between(); return 0.0; }, limit); t << r.Path() << r.PathCost(); }
  const Overlay o(g); const auto e = gs::PerformDijkstrasAlgorithm<Overlay>(o, 1); for (int64_t i = 0; i < e.Size(); i++) { t << e.GetNodeDistance(i); } return t;
}
using Starts = simple_astar_search::StatesWithCosts<int>; using Kids = Starts;
Starts starts() { return {simple_astar_search::StateWithCost<int>(3 + level(), 1.5), simple_astar_search::StateWithCost<int>(1, 2)}; }
S states(const Starts& from)
{
  Text t; const std::function<bool(const int&)> goal = [](const int& v) { between(); return v > 20; }; const std::function<Kids(const int&)> kids = [](const int& v) { between(); return Kids{simple_astar_search::StateWithCost<int>(2 * v, 3), simple_astar_search::StateWithCost<int>(v + 1, 1)}; };
  const std::function<std::vector<int>(const int&)> more = [](const int& v) { return v > 99 ? std::vector<int>() : std::vector<int>{v + 2, 3 * v}; }; const std::function<bool(const int&, const int&)> clear = [](const int& a, const int& b) { between(); return (a + b) % 5 != 0; };
  const std::function<double(const int&, const int&)> far = [](const int& a, const int& b) { return double(b - a); }; const std::function<double(const int&)> none = [](const int&) { return 0.0; }, near = [](const int& v) { return v < 21 ? 21.0 - v : 0.0; };
  for (bool limit : {true, false}) { const auto r = simple_astar_search::PerformAstarSearch<int>(from, goal, kids, none, limit); t << r.Path() << r.PathCost(); }
  const auto r = simple_astar_search::PerformAstarSearch<int>(from, goal, more, clear, far, near); return t << r.Path() << r.PathCost();
}
using Provider = prm::LinearGraphKNNProvider<int, G>;
struct Map { G g = graph(); Provider provider{[](const int& a, const int& b) { return apart(a, b); }, DegreeOfParallelism::None()}; };
Map map() { return {}; }
const std::function<bool(const int32_t, const int&, const int&)> kValid = [](const int32_t, const int& a, const int& b) { between(); return (a + b) % 4 != 0; };
S queries(const Map& m)
{
  Text t; const std::function<double(const int&, const int&)> d = apart; const std::vector<int> from{0, 5}, to{20, 33};
  for (int i = 0; i < 4; i++) { const auto r = (i < 2 ? prm::LazyQueryPath<int, std::vector<int>, G, Provider> : prm::QueryPath<int, std::vector<int>, G, Provider>)(from, to, m.g, m.provider, d, kValid, 3, DegreeOfParallelism::None(), true, false, true, i % 2 == 1); t << r.Path() << r.PathCost(); }
  return t << describe(m.g);
}
S building(const Map& m)
{
  const std::function<double(const int&, const int&)> d = apart; int next = 3; const std::function<int(const int32_t)> sample = [&](const int32_t) { between(); return next = next * 7 % 41; }; const std::function<bool(const int32_t, const int&)> valid = [](const int32_t, const int& v) { return v % 5 != 0; };
  const G g = prm::BuildRoadMap<int, G>(6, sample, m.provider, d, valid, kValid, 2, 9, DegreeOfParallelism::None(), false, true, false); G copy = m.g; prm::UpdateRoadMapEdges<int, G>(copy, kValid, d, DegreeOfParallelism::None()); return describe(g) + describe(copy);
}
}
void together::register_graphs()
{
  op<G, graph, reading>("reading a graph"); op<G, graph, saving>("saving a graph"); op<G, graph, changing>("changing a copy of a graph"); op<G, graph, covering>("changing an overlay"); op<G, graph, searching>("searching a graph"); op<Starts, starts, states>("searching states"); op<Map, map, queries>("querying a roadmap"); op<Map, map, building>("building a roadmap");
}
