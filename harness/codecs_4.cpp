#include "codecs.hpp"
#include <common_robotics_utilities/voxel_grid.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_graph_search.hpp>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
namespace codecs
{
std::vector<std::pair<std::string, std::function<Codec(size_t)>>>& large4()
{
  static std::vector<std::pair<std::string, std::function<Codec(size_t)>>> v; return v;
}
std::vector<Codec>& part4(std::vector<Codec>& c)
{
  auto& big = large4();
  const Serializer<int32_t> si = SerializeMemcpyable<int32_t>; const Deserializer<int32_t> di = DeserializeMemcpyable<int32_t>;
  const Serializer<int32_t> ni = SerializeNetworkMemcpyable<int32_t>; const Deserializer<int32_t> dni = DeserializeNetworkMemcpyable<int32_t>;
  const Serializer<std::string> ss = SerializeString<char>; const Deserializer<std::string> ds = DeserializeString<char>;
  const Serializer<std::string> ns = SerializeNetworkString<char>; const Deserializer<std::string> dns = DeserializeNetworkString<char>;
  {
    using namespace Eigen;
    const double nan = std::numeric_limits<double>::quiet_NaN();
    c.push_back(make("Vector2d", std::vector<Vector2d>{{0, 0}, {-1.5, nan}}, SerializeVector2d, DeserializeVector2d, [](const Vector2d& v) { return dcanon(v.data(), 2); }));
    c.push_back(make("Vector3d", std::vector<Vector3d>{{1, 2, 3}}, SerializeVector3d, DeserializeVector3d, [](const Vector3d& v) { return dcanon(v.data(), 3); }));
    c.push_back(make("Vector4d", std::vector<Vector4d>{{1, 2, 3, 4}}, SerializeVector4d, DeserializeVector4d, [](const Vector4d& v) { return dcanon(v.data(), 4); }));
    c.push_back(make("VectorXd", std::vector<VectorXd>{VectorXd(), VectorXd::LinSpaced(1, 5, 5), VectorXd::LinSpaced(7, -1, 1)}, SerializeVectorXd, DeserializeVectorXd, [](const VectorXd& v) { return dcanon(v.data(), size_t(v.size())); }));
    const auto mc_ = [](const MatrixXd& m) { return raw<int64_t>(m.rows()) + raw<int64_t>(m.cols()) + dcanon(m.data(), size_t(m.size())); };
    MatrixXd m23(2, 3); m23 << 1, 2, 3, 4, 5, 6;
    c.push_back(make("MatrixXd", std::vector<MatrixXd>{MatrixXd(), MatrixXd(0, 3), MatrixXd(3, 0), m23, m23.transpose()}, SerializeMatrixXd, DeserializeMatrixXd, mc_));
    big.emplace_back("VectorXd", [](size_t n) { return make("", std::vector<VectorXd>{VectorXd::LinSpaced(static_cast<Eigen::Index>(n), -1, 1)}, SerializeVectorXd, DeserializeVectorXd, [](const VectorXd& v) { return dcanon(v.data(), size_t(v.size())); }); });
    for (int shape = 0; shape < 4; shape++)
      big.emplace_back(mc::str("MatrixXd of shape ", shape), [mc_, shape](size_t n_)
      {
        const auto n = static_cast<Eigen::Index>(n_); MatrixXd m(shape == 0 ? 1 : shape == 1 ? n : shape == 2 ? 128 : n / 128 + 1, shape == 0 ? n : shape == 1 ? 1 : shape == 2 ? n / 128 + 1 : 128);
        for (Eigen::Index i = 0; i < m.size(); i++) m.data()[i] = static_cast<double>(i * 7 - 3);
        return make("", std::vector<MatrixXd>{m}, SerializeMatrixXd, DeserializeMatrixXd, mc_);
      });
    c.push_back(make("Quaterniond", std::vector<Quaterniond>{Quaterniond(1, 2, 3, 4), Quaterniond(1, 0, 0, 0)}, SerializeQuaterniond, DeserializeQuaterniond, [](const Quaterniond& q) { return dcanon(q.coeffs().data(), 4); }));
    c.push_back(make("Isometry3d", std::vector<Isometry3d>{Isometry3d::Identity(), Translation3d(1, 2, 3) * AngleAxisd(0.7, Vector3d(1, 2, 2) / 3)}, SerializeIsometry3d, DeserializeIsometry3d, [](const Isometry3d& q) { return dcanon(q.matrix().data(), 16); }));
  }
  {
    using namespace simple_graph;
    using G = Graph<int32_t>;
    const auto node = [](const GraphNode<int32_t>& n)
    {
      std::string r = raw(n.GetValueImmutable());
      for (auto* l : {&n.GetInEdgesImmutable(), &n.GetOutEdgesImmutable()}) { r += raw<uint64_t>(l->size()); for (auto& e : *l) r += raw(e.GetFromIndex()) + raw(e.GetToIndex()) + raw(e.GetWeight()) + raw(e.GetScratchpad()); }
      return r;
    };
    const auto canon = [node](const G& g) { std::string r; for (int64_t i = 0; i < g.Size(); i++) r += raws(node(g.GetNodeImmutable(i))); return r; };
    G g; for (int i = 0; i < 3; i++) g.AddNode(7 + i); g.AddEdgeBetweenNodes(0, 1, 2.5); g.AddEdgesBetweenNodes(1, 2, std::numeric_limits<double>::infinity()); g.GetNodeMutable(0).GetOutEdgesMutable()[0].SetScratchpad(9);
    G one; one.AddNode(1);
    c.push_back(make("graph", std::vector<G>{G(), one, g}, [=](const G& x, Buffer& b) { return G::Serialize(x, b, si); }, [=](const Buffer& b, uint64_t o) { return G::Deserialize(b, o, di); }, canon, [=](G& x, const Buffer& b, uint64_t o) { return x.DeserializeSelf(b, o, di); }));
    c.push_back(make("graph node", std::vector<GraphNode<int32_t>>{g.GetNodeImmutable(1), one.GetNodeImmutable(0), g.GetNodeImmutable(0)}, [=](const GraphNode<int32_t>& x, Buffer& b) { return GraphNode<int32_t>::Serialize(x, b, si); }, [=](const Buffer& b, uint64_t o) { return GraphNode<int32_t>::Deserialize(b, o, di); }, node, [=](GraphNode<int32_t>& x, const Buffer& b, uint64_t o) { return x.DeserializeSelf(b, o, di); }));
    big.emplace_back("graph: every node to the next", [=](size_t n)
    {
      G chain; for (size_t i = 0; i < n; i++) chain.AddNode(static_cast<int32_t>(i * 3)); for (size_t i = 0; i + 1 < n; i++) chain.AddEdgeBetweenNodes(static_cast<int64_t>(i), static_cast<int64_t>(i + 1), 0.5 * static_cast<double>(i));
      return make("", std::vector<G>{chain}, [=](const G& x, Buffer& b) { return G::Serialize(x, b, si); }, [=](const Buffer& b, uint64_t o) { return G::Deserialize(b, o, di); }, canon);
    });
    big.emplace_back("graph: one node with every edge", [=](size_t n)
    {
      if (n > 4097) throw mc::Skip();   // the edge list of a node is searched for every edge
      G star; for (size_t i = 0; i < n; i++) star.AddNode(static_cast<int32_t>(i * 3));
      for (size_t i = 1; i < n; i++) star.AddEdgeBetweenNodes(i % 2 ? 0 : static_cast<int64_t>(i), i % 2 ? static_cast<int64_t>(i) : 0, 0.25 * static_cast<double>(i));
      return make("", std::vector<G>{star}, [=](const G& x, Buffer& b) { return G::Serialize(x, b, si); }, [=](const Buffer& b, uint64_t o) { return G::Deserialize(b, o, di); }, canon);
    });
    c.push_back(make("graph edge", std::vector<GraphEdge>{GraphEdge(-3, 4, 0.5, 77), GraphEdge(1, 1, -0.0), GraphEdge(0, 2, -std::numeric_limits<double>::infinity(), ~uint64_t(0))}, GraphEdge::Serialize, GraphEdge::Deserialize, [](const GraphEdge& e) { return raw(e.GetFromIndex()) + raw(e.GetToIndex()) + raw(e.GetWeight()) + raw(e.GetScratchpad()); }, [=](GraphEdge& x, const Buffer& b, uint64_t o) { return x.DeserializeSelf(b, o); }));
    using R = simple_graph_search::DijkstrasResult;
    const auto rcanon = [](const R& r) { std::string s; for (int64_t i = 0; i < r.Size(); i++) s += raw(r.GetPreviousIndex(i)) + raw(r.GetNodeDistance(i)); return s; };
    big.emplace_back("search result", [=](size_t n)
    {
      std::vector<int64_t> previous(n); std::vector<double> dist(n); for (size_t i = 0; i < n; i++) { previous[i] = static_cast<int64_t>(i * 5); dist[i] = static_cast<double>(i) * 0.25; }
      const R r(previous, dist);
      return make("", std::vector<R>{r}, R::Serialize, R::Deserialize, rcanon);
    });
    c.push_back(make("search result", std::vector<R>{R(), simple_graph_search::PerformDijkstrasAlgorithm(one, 0), simple_graph_search::PerformDijkstrasAlgorithm(g, 2)}, R::Serialize, R::Deserialize,
                     rcanon, [=](R& x, const Buffer& b, uint64_t o) { return x.DeserializeSelf(b, o); }));
  }
  {
    using T = simple_rrt_planner::SimpleRRTPlannerTree<std::string>; using N = simple_rrt_planner::SimpleRRTPlannerState<std::string>;
    const auto node = [](const N& n) { std::string r = raws(n.GetValueImmutable()) + raw(n.GetParentIndex()); for (auto k : n.GetChildIndices()) r += raw(k); return r; };
    simple_rrt_planner::SimpleRRTPlannerStateVector<std::string> v;
    v.emplace_back("root", -1, std::vector<int64_t>{1, 2}); v.emplace_back("", 0, std::vector<int64_t>{}); v.emplace_back("kid", 0, std::vector<int64_t>{3}); v.emplace_back("leaf", 2, std::vector<int64_t>{});
    c.push_back(make("tree", std::vector<T>{T(), T(v)}, [=](const T& t, Buffer& b) { return T::Serialize(t, b, ss); }, [=](const Buffer& b, uint64_t o) { return T::Deserialize(b, o, ds); },
                     [node](const T& t) { std::string r; for (int64_t i = 0; i < t.Size(); i++) r += raws(node(t.GetNodeImmutable(i))); return r; }));
    for (int shape = 0; shape < 2; shape++)
      big.emplace_back(shape ? "tree: a chain" : "tree: one parent", [=](size_t n)
      {
        simple_rrt_planner::SimpleRRTPlannerStateVector<std::string> t; std::vector<int64_t> kids; for (size_t i = 1; i < n; i++) kids.push_back(static_cast<int64_t>(i));
        for (size_t i = 0; i < n; i++)
          t.emplace_back(std::string(i % 4, 'n'), shape ? static_cast<int64_t>(i) - 1 : (i ? 0 : -1), shape ? (i + 1 < n ? std::vector<int64_t>{static_cast<int64_t>(i + 1)} : std::vector<int64_t>{}) : (i ? std::vector<int64_t>{} : kids));
        return make("", std::vector<T>{T(t)}, [=](const T& x, Buffer& b) { return T::Serialize(x, b, ss); }, [=](const Buffer& b, uint64_t o) { return T::Deserialize(b, o, ds); },
                    [node](const T& x) { std::string r; for (int64_t i = 0; i < x.Size(); i++) r += raws(node(x.GetNodeImmutable(i))); return r; });
      });
    c.push_back(make("tree node", std::vector<N>{v[0], v[3]}, [=](const N& t, Buffer& b) { return N::Serialize(t, b, ss); }, [=](const Buffer& b, uint64_t o) { return N::Deserialize(b, o, ds); }, node));
  }
  {
    using namespace voxel_grid;
    using V = VoxelGrid<int32_t>;
    const auto sizes = [](const GridSizes& s) { return raw(s.CellXSize()) + raw(s.CellYSize()) + raw(s.CellZSize()) + raw(s.NumXCells()) + raw(s.NumYCells()) + raw(s.NumZCells()) + raw(s.Valid()) + raw(s.UniformCellSize()) + raw(s.TotalCells()) + raw(s.XSize()) + raw(s.YSize()) + raw(s.ZSize()) + raw(s.Stride1()) + raw(s.Stride2()); };
    c.push_back(make("grid sizes", std::vector<GridSizes>{GridSizes(), GridSizes(0.1, int64_t(1), int64_t(1), int64_t(7)), GridSizes(0.3, 0.9, 0.4, 2.0), GridSizes(0.5, 1.0, 2.0, int64_t(3), int64_t(4), int64_t(5))}, [](const GridSizes& g, Buffer& b) { return g.SerializeSelf(b); }, GridSizes::Deserialize, sizes, [=](GridSizes& x, const Buffer& b, uint64_t o) { return x.DeserializeSelf(b, o); }));
    const auto canon = [sizes](const V& g)
    { std::string r = raw(g.IsInitialized()) + sizes(g.GetGridSizes()); if (g.IsInitialized()) { r += dcanon(g.GetOriginTransform().matrix().data(), 16) + raw(g.GetDefaultValue()) + raw(g.GetOOBValue()); for (auto x : g.GetImmutableRawData()) r += raw(x);
          r += dcanon(g.GetInverseOriginTransform().matrix().data(), 16);
          for (int x = -1; x <= g.GetNumXCells(); x++) for (int y = -1; y <= g.GetNumYCells(); y++) for (int z = -1; z <= g.GetNumZCells(); z++)
          {
            const auto q = g.GetIndexImmutable(x, y, z); r += raw(bool(q)); if (q) r += raw(q.Value());
            const Eigen::Vector4d w = g.GridIndexToLocation(x, y, z); r += dcanon(w.data(), 4);
            const auto l = g.GetLocationImmutable4d(w); r += raw(bool(l)); if (l) r += raw(l.Value());
          } }
      return r; };
    V g(Eigen::Translation3d(1, 2, 3) * Eigen::Quaterniond::Identity(), GridSizes(0.5, 1.0, 2.0, int64_t(2), int64_t(1), int64_t(3)), 4, -4);
    g.SetIndex(1, 0, 2, 77);
    V turned(Eigen::Translation3d(-3, 0.5, 7) * Eigen::Quaterniond(Eigen::AngleAxisd(0.7, Eigen::Vector3d(1, 2, 2) / 3)), GridSizes(0.25, 0.3, 1.5, int64_t(3), int64_t(2), int64_t(2)), 1, 2);
    for (int64_t i = 0; i < turned.GetTotalCells(); i++) turned.GetDataIndexMutable(i) = static_cast<int32_t>(100 + i);
    c.push_back(make("voxel grid", std::vector<V>{V(), VoxelGrid<int32_t>(GridSizes(2.0, int64_t(1), int64_t(1), int64_t(1)), 9, 8), turned, g}, [=](const V& x, Buffer& b) { return V::Serialize(x, b, si); }, [=](const Buffer& b, uint64_t o) { return V::Deserialize(b, o, di); }, canon, [=](V& x, const Buffer& b, uint64_t o) { return x.DeserializeSelf(b, o, di); }));
    big.emplace_back("voxel grid", [=](size_t n)
    {
      V g(GridSizes(0.5, 1.0, 2.0, static_cast<int64_t>(n / 8 + 1), int64_t(2), int64_t(4)), 4, -4); for (int64_t i = 0; i < g.GetTotalCells(); i++) g.GetDataIndexMutable(i) = static_cast<int32_t>(i * 3);
      return make("", std::vector<V>{g}, [=](const V& x, Buffer& b) { return V::Serialize(x, b, si); }, [=](const Buffer& b, uint64_t o) { return V::Deserialize(b, o, di); }, canon);
    });
    using D = DynamicSpatialHashedVoxelGrid<int32_t>;
    const auto dc = [sizes](const D& d)
    {
      std::string r = raw(d.IsInitialized()) + sizes(d.GetChunkGridSizes()); if (!d.IsInitialized()) return r;
      r += dcanon(d.GetOriginTransform().matrix().data(), 16) + raw(d.GetDefaultValue());
      std::map<std::vector<double>, std::string> m;
      for (auto& k : d.GetImmutableInternalChunks())
      {
        const auto& base = k.first.Base(); std::string s;
        const auto& cs = d.GetChunkGridSizes();
        for (int x = 0; x < cs.NumXCells(); x++) for (int y = 0; y < cs.NumYCells(); y++) for (int z = 0; z < cs.NumZCells(); z++)
        { if (k.second.FillStatus() == DSHVGFillStatus::CHUNK_FILLED && x + y + z > 0) continue; const auto q = k.second.GetIndexImmutable(GridIndex(x, y, z)); s += raw(q.FoundStatus()); if (q) s += raw(q.Value()); }
        m[{base(0), base(1), base(2)}] = s;
      }
      for (auto& x : m) r += dcanon(x.first.data(), 3) + raws(x.second);
      r += dcanon(d.GetInverseOriginTransform().matrix().data(), 16);
      for (double x : {-3.3, 0.1, 0.6, 4.0}) for (double y : {-2.2, 0.1, 0.4}) for (double z : {0.1, 0.6, 9.1})
      { const auto q = d.GetLocationImmutable(x, y, z); r += raw(q.FoundStatus()); if (q) r += raw(q.Value()); }
      return r;
    };
    D d(GridSizes(0.5, int64_t(2), int64_t(1), int64_t(2)), 5, 2);
    d.SetLocation(0.1, 0.1, 0.1, DSHVGSetType::SET_CELL, 11); d.SetLocation(-3.3, 0.1, 9.1, DSHVGSetType::SET_CHUNK, 12);
    D unused(GridSizes(1.0, 2.0, 3.0, int64_t(1), int64_t(2), int64_t(1)), -8, 4);
    D turned_sparse(Eigen::Translation3d(-3, 0.5, 7) * Eigen::Quaterniond(Eigen::AngleAxisd(0.7, Eigen::Vector3d(1, 2, 2) / 3)), GridSizes(0.5, 0.25, 0.5, int64_t(2), int64_t(2), int64_t(1)), 3, 2);
    for (int i = 0; i < 6; i++) turned_sparse.SetLocation(-3.3 + i * 0.7, 0.1, 0.1 + i * 1.8, i % 3 ? DSHVGSetType::SET_CELL : DSHVGSetType::SET_CHUNK, 20 + i);
    c.push_back(make("sparse voxel grid", std::vector<D>{D(), unused, turned_sparse, d}, [=](const D& x, Buffer& b) { return D::Serialize(x, b, si); }, [=](const Buffer& b, uint64_t o) { return D::Deserialize(b, o, di); }, dc, [=](D& x, const Buffer& b, uint64_t o) { return x.DeserializeSelf(b, o, di); }));
    for (int shape = 0; shape < 2; shape++)
      big.emplace_back(shape ? "sparse voxel grid: one chunk" : "sparse voxel grid: many chunks", [=](size_t n)
      {
        D many(GridSizes(0.5, shape ? static_cast<int64_t>(n / 2 + 1) : int64_t(1), int64_t(1), int64_t(2)), 5, shape ? 1 : n);
        for (size_t i = 0; i < n; i++) many.SetLocation(0.25 + 0.5 * static_cast<double>(shape ? i / 2 : i), 0.25, 0.25 + 0.5 * static_cast<double>(i % 2), i % 3 || shape ? DSHVGSetType::SET_CELL : DSHVGSetType::SET_CHUNK, static_cast<int32_t>(i));
        return make("", std::vector<D>{many}, [=](const D& x, Buffer& b) { return D::Serialize(x, b, si); }, [=](const Buffer& b, uint64_t o) { return D::Deserialize(b, o, di); }, dc);
      });
    using K = DynamicSpatialHashedVoxelGridChunk<int32_t>;
    const auto kc = [](const K& k)
    {
      std::string r = raw(k.FillStatus()); const Eigen::Vector4d mid = k.GetChunkCenterInGridFrame(), low = k.GetCellLocationInGridFrame(GridIndex(0, 0, 0)), next = k.GetCellLocationInGridFrame(GridIndex(1, 1, 1));
      r += dcanon(mid.data(), 4) + dcanon(low.data(), 4) + dcanon(next.data(), 4);
      for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) for (int z = 0; z < 2; z++)
      { try { const auto q = k.GetIndexImmutable(GridIndex(x, y, z)); r += raw(q.FoundStatus()); if (q) r += raw(q.Value()); } catch (const std::exception&) { r += "x"; } }
      return r;
    };
    const GridSizes ks(0.5, 0.25, 1.0, int64_t(2), int64_t(2), int64_t(1));
    K cells(ChunkRegion(1, -2, 3), ks, DSHVGFillType::FILL_CELL, 6); cells.GetIndexMutable(GridIndex(1, 0, 0)).Value() = 61;
    c.push_back(make("sparse grid chunk", std::vector<K>{K(), K(ChunkRegion(-1, 0, 0), ks, DSHVGFillType::FILL_CHUNK, 5), cells}, [=](const K& x, Buffer& b) { return K::Serialize(x, b, si); },
                     [=](const Buffer& b, uint64_t o) { return K::Deserialize(b, o, di); }, kc, [=](K& x, const Buffer& b, uint64_t o) { return x.DeserializeSelf(b, o, di); }));
    c.push_back(make("chunk region", std::vector<ChunkRegion>{ChunkRegion(1, -2, 3)}, ChunkRegion::Serialize, ChunkRegion::Deserialize, [](const ChunkRegion& r) { return dcanon(r.Base().data(), 4); }));
  }
  return c;
}
}  // namespace codecs
