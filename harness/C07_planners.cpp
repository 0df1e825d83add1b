// C07: planners, path processing, clustering and distances.
#include "C07.hpp"
#include <numeric>
#include <common_robotics_utilities/path_processing.hpp>
#include <common_robotics_utilities/simple_dtw.hpp>
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
#include <common_robotics_utilities/simple_task_planner.hpp>
using namespace together; using namespace common_robotics_utilities;
namespace rrt = simple_rrt_planner; namespace stp = simple_task_planner;
namespace
{
using S = std::string; using V = std::vector<double>; using parallelism::DegreeOfParallelism; const auto kSerial = [] { return DegreeOfParallelism::None(); };
V data() { return level() ? V{9, 1.5, 3, 4, 0.5} : V{0.5, 7, 2, 9.5, 2.25, 8, 0.25}; }
double apart(const double& a, const double& b) { between(); return std::abs(a - b); }
double blend(const double& a, const double& b, const double r) { between(); return a + (b - a) * r; }
const std::function<double(const double&, const double&)> kApart = apart; const std::function<double(const double&, const double&, const double)> kBetween = blend;
S nearest(const V& v) { Text t; for (double x : {1.0, 9.0}) { for (const auto& n : simple_knearest_neighbors::GetKNearestNeighbors<double, double>(v, x, kApart, 3, kSerial())) { t << n.Index() << n.Distance(); } } return t; }
S distances(const V& v)
{
  const V other{1, 3, 8}; const int n = int(v.size()); Eigen::MatrixXd m(n, 3); for (int i = 0; i < n; i++) { for (int j = 0; j < 3; j++) { m(i, j) = std::abs(v[size_t(i)] - other[size_t(j)]); } }
  return Text() << simple_dtw::EvaluateWarpingCost<double, double>(v, other, kApart) << simple_hausdorff_distance::ComputeDistance<double, double>(v, other, kApart, kSerial()) << simple_hausdorff_distance::ComputeDistance<double, double>(v, other, m, kSerial()) << math::BuildPairwiseDistanceMatrix<double, double>(v, other, kApart, kSerial());
}
S clusters(const V& v)
{
  const std::function<double(const V&)> mean = [](const V& m) { between(); return std::accumulate(m.begin(), m.end(), 0.0) / double(m.size()); };
  Text t; for (int64_t seed : {1, 42}) { t << simple_kmeans_clustering::Cluster<double>(v, kApart, mean, 3, seed, seed == 1, kSerial()); }
  for (auto s : {simple_hierarchical_clustering::ClusterStrategy::SINGLE_LINK, simple_hierarchical_clustering::ClusterStrategy::COMPLETE_LINK}) { const auto r = simple_hierarchical_clustering::IndexCluster<double>(v, kApart, 1.5, s, kSerial()); t << r.Clusters() << r.FinalClosestDistance(); const auto e = simple_hierarchical_clustering::Cluster<double>(v, kApart, 3, s, kSerial()); t << e.Clusters(); } return t;
}
S paths(const V& v)
{
  int at = 0; const utility::UniformUnitRealFunction draw = [&] { between(); return (at++ * 7 % 10) / 10.0; }; const std::function<bool(const double&, const double&)> clear = [](const double& a, const double& b) { between(); return std::abs(a - b) < 6; };
  return Text() << path_processing::ShortcutSmoothPath<double>(v, 5, 4, 2, 1.0, 0.5, true, clear, kApart, kBetween, draw) << path_processing::ResamplePath<double>(v, 0.75, kApart, kBetween) << path_processing::ComputePercentCollisionFree<double>(v, clear);
}
using Tree = rrt::SimpleRRTPlannerTree<double>;
/// The functions that the library makes for planners, shared between plans.
struct Kit
{
  std::function<bool(const double&, const double&)> clear = [](const double& a, const double& b) { between(); return std::abs(a - b) < 4; };
  rrt::RRTNearestNeighborFunction<double, Tree, double> near = rrt::MakeKinematicLinearRRTNearestNeighborsFunction<double>(kApart, DegreeOfParallelism::None());
  rrt::BiRRTNearestNeighborFunction<double, Tree> bi_near = rrt::MakeKinematicLinearBiRRTNearestNeighborsFunction<double>(kApart, DegreeOfParallelism::None());
  rrt::RRTForwardPropagationFunction<double, double> extend = rrt::MakeKinematicRRTExtendPropagationFunction<double>(kApart, kBetween, clear, 1.0 + 0.5 * level()), connect = rrt::MakeKinematicRRTConnectPropagationFunction<double>(kApart, kBetween, clear, 1.0 + 0.5 * level());
  rrt::BiRRTPropagationFunction<double> bi_connect = rrt::MakeKinematicBiRRTConnectPropagationFunction<double>(kApart, kBetween, clear, 1.0 + 0.5 * level());
};
Kit kit() { return {}; }
S growing(const Kit& k)
{
  Text t;
  for (bool connect : {false, true})
  {
    Tree tree; tree.AddNode(0); int n = 0; const rrt::SamplingFunction<double> sample = [&] { between(); return 3.0 * (++n % 4); };
    const auto r = rrt::RRTPlanSinglePath<double, Tree>(tree, sample, k.near, connect ? k.connect : k.extend, {}, [](const double& v) { return v > 4.9; }, {}, [](const int64_t size) { return size > 9; });
    t << r.Path() << tree.Size() << Tree::CheckNodeLinkage(tree.GetNodesImmutable());
  }
  return t;
}
S growing_two(const Kit& k)
{
  Tree a, b; a.AddNode(0); b.AddNode(8); int n = 0, m = 0;
  const auto r = rrt::BiRRTPlanSinglePath<double, Tree>(a, b, [&](const Tree&, const Tree&, const rrt::BiRRTActiveTreeType) { return ++m % 2 ? rrt::BiRRTSampleType::TREE_SAMPLE : rrt::BiRRTSampleType::STATE_SAMPLE; }, [&] { between(); return 3.0 * (++n % 4); }, [](const Tree& t, const rrt::BiRRTActiveTreeType) { return t.Size() / 2; },
      k.bi_near, k.bi_connect, {}, [](const double& x, const double& y, const rrt::BiRRTActiveTreeType) { return std::abs(x - y) < 0.5; }, {}, [](const Tree&, const Tree&, const rrt::BiRRTActiveTreeType t) { return t == rrt::BiRRTActiveTreeType::START_TREE ? rrt::BiRRTActiveTreeType::GOAL_TREE : rrt::BiRRTActiveTreeType::START_TREE; }, [](const int64_t x, const int64_t y) { return x + y > 14; });
  return Text() << r.Path() << a.Size() << b.Size();
}
using Skills = stp::ActionPrimitiveCollection<int>;
Skills skills()
{
  Skills c; for (int by : {1, 3 - level()}) { c.RegisterPrimitive(std::make_shared<stp::ActionPrimitiveWrapper<int>>([by](const int& s) { between(); return s + by < 9; }, [by](const int& s) { between(); return stp::OutcomesWithCosts<int>{simple_astar_search::StateWithCost<int>(s + by, by), simple_astar_search::StateWithCost<int>(s, 1)}; }, [by](const int& s) { between(); return std::vector<int>{s + by}; }, "by " + std::to_string(by))); }
  return c;
}
S tasks(const Skills& c)
{
  const auto done = [](const int& s) { between(); return s == 7; }; const auto r = stp::PlanTaskStateSequence<int>(c, done, std::vector<int>{0, 2}, [](const int& s) { return (7.0 - s) * (s < 8); }); Text t; t << r.PathCost(); for (const auto& e : r.Path()) { t << e.Outcome() << e.PrimitiveIndex(); }
  return t << stp::PerformSingleTaskExecution<int>(c, done, std::vector<int>{0, 2}, 9);
}
}
void together::register_planners()
{
  op<V, data, nearest>("nearest neighbors"); op<V, data, distances>("distances"); op<V, data, clusters>("clustering"); op<V, data, paths>("path processing"); op<Kit, kit, growing>("planning with a tree"); op<Kit, kit, growing_two>("planning with two trees"); op<Skills, skills, tasks>("task planning");
}
