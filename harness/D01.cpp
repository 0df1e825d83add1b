// D01: a dense voxel grid is an exact bounded map.
#include "mc.hpp"
#include <common_robotics_utilities/voxel_grid.hpp>
#include <common_robotics_utilities/serialization.hpp>
#include <array>
#include <deque>
MC_HARNESS("D01", "every operation sequence up to the depth bound over every small grid shape, cell size and origin; a "
                  "state is a distinct (shape, contents, defaults) reached; every cell and border is compared after every operation")
using namespace common_robotics_utilities;
using voxel_grid::AccessStatus;
using voxel_grid::GridIndex;
using voxel_grid::GridSizes;
using Eigen::Isometry3d;
using Eigen::Vector3d;
using Eigen::Vector4d;

namespace
{
template<typename T> struct Val;
template<> struct Val<int32_t>
{
  static int32_t make(int i) { return 100 + i; }
  static uint64_t ser(const int32_t& v, std::vector<uint8_t>& b) { return serialization::SerializeMemcpyable<int32_t>(v, b); }
  static serialization::Deserialized<int32_t> des(const std::vector<uint8_t>& b, uint64_t o) { return serialization::DeserializeMemcpyable<int32_t>(b, o); }
  static uint64_t hash(const int32_t& v) { return static_cast<uint64_t>(v); }
};
template<> struct Val<std::string>
{
  static std::string make(int i) { return std::string(i % 3 == 0 ? 40 : 3, static_cast<char>('a' + i % 26)) + std::to_string(i); }
  static uint64_t ser(const std::string& v, std::vector<uint8_t>& b) { return serialization::SerializeString<char>(v, b); }
  static serialization::Deserialized<std::string> des(const std::vector<uint8_t>& b, uint64_t o) { return serialization::DeserializeString<char>(b, o); }
  static uint64_t hash(const std::string& v) { return std::hash<std::string>()(v); }
};

Isometry3d origin_of(int k)
{
  if (k == 0) return Isometry3d::Identity();
  if (k == 1) return Isometry3d(Eigen::Translation3d(-2.0, 4.0, 0.5));
  if (k == 2) return Eigen::Translation3d(0.3, -1.1, 7.7) * Eigen::AngleAxisd(0.7, Vector3d(1, 2, -1).normalized());
  if (k == 3) return Eigen::Translation3d(1.0, 0.0, -3.0) * Eigen::AngleAxisd(M_PI / 2, Vector3d::UnitZ());
  // origins that agree with one of the others in the position or in the rotation
  if (k == 4) return Isometry3d(Eigen::Translation3d(1.0, 0.0, -3.0));
  if (k == 5) return Eigen::Translation3d(1.0, 0.0, -3.0) * Eigen::AngleAxisd(-M_PI / 2, Vector3d::UnitZ());
  if (k == 6) return Eigen::Translation3d(1.0, 0.0, 3.0) * Eigen::AngleAxisd(M_PI / 2, Vector3d::UnitZ());
  if (k == 7) return Eigen::Translation3d(0.0, 0.0, 0.0) * Eigen::AngleAxisd(M_PI / 2, Vector3d::UnitX());
  if (k == 8) return Isometry3d(Eigen::Translation3d(1.0 + 1e-6, 0.0, -3.0));
  return Eigen::Translation3d(0.3, -1.1, 7.7) * Eigen::AngleAxisd(0.7 + 1e-6, Vector3d(1, 2, -1).normalized());
}
constexpr int kOrigins = 4, kAllOrigins = 10;

struct Shape { int64_t n[3]; double c[3]; };
const std::vector<Shape>& shapes()
{
  static const std::vector<Shape> s = {
    {{1, 1, 1}, {1.0, 1.0, 1.0}}, {{2, 1, 3}, {0.5, 0.25, 2.0}}, {{1, 3, 2}, {1.0, 1.0, 1.0}}, {{3, 2, 1}, {0.1, 0.3, 0.7}},
    {{2, 3, 4}, {0.25, 0.25, 0.25}}, {{4, 2, 3}, {0.1, 0.1, 0.1}}, {{2, 1, 2}, {0.7, 0.6, 0.3}}};
  return s;
}

template<typename T, typename Grid>
struct Model
{
  int64_t n[3]; double c[3]; Isometry3d origin; T def, oob; std::vector<T> cells;
  int64_t at(int64_t x, int64_t y, int64_t z) const { return (x * n[1] + y) * n[2] + z; }
  bool in(int64_t x, int64_t y, int64_t z) const { return x >= 0 && y >= 0 && z >= 0 && x < n[0] && y < n[1] && z < n[2]; }
  int64_t total() const { return n[0] * n[1] * n[2]; }
  Vector3d grid_frame(int64_t x, int64_t y, int64_t z, double f) const { return Vector3d((x + f) * c[0], (y + f) * c[1], (z + f) * c[2]); }

  void compare(const Grid& g, const char* when, double frac = 0.4) const
  {
    MC_CHECK(g.IsInitialized(), when, ": grid reports uninitialized");
    MC_CHECK(g.GetNumXCells() == n[0] && g.GetNumYCells() == n[1] && g.GetNumZCells() == n[2], when, ": cell counts wrong");
    MC_CHECK(g.GetNumCells()(0) == n[0] && g.GetNumCells()(1) == n[1] && g.GetNumCells()(2) == n[2], when, ": GetNumCells wrong");
    MC_CHECK(g.GetTotalCells() == total(), when, ": total cells ", g.GetTotalCells());
    MC_CHECK(g.GetCellSizes()(0) == c[0] && g.GetCellSizes()(1) == c[1] && g.GetCellSizes()(2) == c[2], when, ": cell sizes wrong");
    MC_CHECK(g.HasUniformCellSize() == (c[0] == c[1] && c[1] == c[2]), when, ": HasUniformCellSize wrong");
    const double sz[3] = {g.GetXSize(), g.GetYSize(), g.GetZSize()};
    for (int i = 0; i < 3; i++)
      MC_CHECK(std::abs(sz[i] - n[i] * c[i]) < 1e-9 && g.GetSizes()(i) == sz[i], when, ": size of axis ", i, " is ", sz[i]);
    MC_CHECK(g.GetDefaultValue() == def, when, ": default value differs");
    MC_CHECK(g.GetOOBValue() == oob, when, ": out-of-bounds value differs");
    MC_CHECK(g.GetOriginTransform().matrix() == origin.matrix(), when, ": origin transform differs");
    MC_CHECK((g.GetInverseOriginTransform() * g.GetOriginTransform()).isApprox(Isometry3d::Identity(), 1e-9), when, ": inverse origin transform is not the inverse");
    MC_CHECK(static_cast<int64_t>(g.GetImmutableRawData().size()) == total(), when, ": raw data size");
    for (int64_t x = -1; x <= n[0]; x++) for (int64_t y = -1; y <= n[1]; y++) for (int64_t z = -1; z <= n[2]; z++)
    {
      const bool inside = in(x, y, z);
      const GridIndex idx(x, y, z);
      MC_CHECK(g.IndexInBounds(x, y, z) == inside && g.IndexInBounds(idx) == inside, when, ": IndexInBounds wrong at ", idx);
      const auto q1 = g.GetIndexImmutable(x, y, z);
      const auto q2 = g.GetIndexImmutable(idx);
      MC_CHECK(q1.HasValue() == inside && q2.HasValue() == inside, when, ": presence wrong at ", idx);
      MC_CHECK(static_cast<bool>(q1) == inside, when, ": bool of query");
      MC_CHECK(q1.Status() == (inside ? AccessStatus::SUCCESS : AccessStatus::OUT_OF_BOUNDS) && q2.Status() == q1.Status(), when, ": status wrong at ", idx);
      const Vector3d gf = grid_frame(x, y, z, frac);
      const Vector3d p = origin * gf;
      const Vector4d p4(p.x(), p.y(), p.z(), 1.0);
      MC_CHECK(g.LocationInBounds3d(p) == inside && g.LocationInBounds4d(p4) == inside && g.LocationInBounds(p.x(), p.y(), p.z()) == inside,
               when, ": LocationInBounds wrong at ", idx);
      const auto l3 = g.GetLocationImmutable3d(p);
      const auto l4 = g.GetLocationImmutable4d(p4);
      const auto l = g.GetLocationImmutable(p.x(), p.y(), p.z());
      MC_CHECK(l3.HasValue() == inside && l4.HasValue() == inside && l.HasValue() == inside, when, ": location presence wrong at ", idx);
      if (inside)
      {
        const T& want = cells[static_cast<size_t>(at(x, y, z))];
        MC_CHECK(q1.Value() == want && q2.Value() == want, when, ": value wrong at ", idx, ": ", q1.Value(), " instead of ", want);
        MC_CHECK(l3.Value() == want && l4.Value() == want && l.Value() == want, when, ": value by location wrong at ", idx);
        const int64_t d = g.GridIndexToDataIndex(idx);
        MC_CHECK(d == g.GridIndexToDataIndex(x, y, z), when, ": data index overloads differ");
        MC_CHECK(d >= 0 && d < total(), when, ": data index out of range ", d);
        MC_CHECK(g.GetDataIndexImmutable(d) == want && g.GetImmutableRawData()[static_cast<size_t>(d)] == want, when, ": value by data index wrong at ", idx);
        MC_CHECK(&g.GetDataIndexImmutable(d) == &q1.Value() && &q2.Value() == &q1.Value() && &l3.Value() == &q1.Value()
                     && &l4.Value() == &q1.Value() && &l.Value() == &q1.Value(), when, ": accessors refer to different cells at ", idx);
        MC_CHECK(g.DataIndexToGridIndex(d) == idx, when, ": data index ", d, " maps back to ", g.DataIndexToGridIndex(d), " not ", idx);
      }
    }
    for (const int64_t d : {int64_t{-1}, total(), total() + 5, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()})
      MC_CHECK(mc::throws([&] { (void)g.GetDataIndexImmutable(d); }) == 1, when, ": data index ", d, " accepted");
    mc::transition();
  }

  void remember() const
  {
    mc::Hash h; h.add(n[0]).add(n[1]).add(n[2]).add(Val<T>::hash(def)).add(Val<T>::hash(oob)).add(origin.translation().x());
    for (const T& v : cells) h.add(Val<T>::hash(v));
    mc::state(h.h);
  }
};

/// Position number k relative to the shape: inside, corners and just outside.
GridIndex place(const Shape& s, int k)
{
  switch (k)
  {
    case 0: return GridIndex(0, 0, 0);
    case 1: return GridIndex(s.n[0] - 1, s.n[1] - 1, s.n[2] - 1);
    case 2: return GridIndex(s.n[0] - 1, 0, s.n[2] / 2);
    case 3: return GridIndex(0, s.n[1], 0);
    case 4: return GridIndex(0, 0, -1);
    default: return GridIndex(s.n[0], s.n[1] - 1, 0);
  }
}
constexpr int kPlaces = 6;

template<typename T>
void sequences(Shape s, int origin, int depth)
{
  using Grid = voxel_grid::VoxelGrid<T>;
  using M = Model<T, Grid>;
  int serial = 0;
  auto val = [&] { return Val<T>::make(serial++); };
  M m; for (int i = 0; i < 3; i++) { m.n[i] = s.n[i]; m.c[i] = s.c[i]; }
  m.origin = origin_of(origin); m.def = val(); m.oob = val();
  m.cells.assign(static_cast<size_t>(m.total()), m.def);
  const GridSizes sizes(s.c[0], s.c[1], s.c[2], s.n[0], s.n[1], s.n[2]);
  Grid g(m.origin, sizes, m.def, m.oob);
  m.compare(g, "after construction");
  for (int step = 0; step < depth; step++)
  {
    const int op = mc::choose(11);
    if (op == 0)
    {
      const GridIndex i = place(s, mc::choose(kPlaces));
      const int how = mc::choose(10);
      const T v = val();
      const bool inside = m.in(i.X(), i.Y(), i.Z());
      const Vector3d p = m.origin * m.grid_frame(i.X(), i.Y(), i.Z(), step % 2 ? 0.1 : 0.9);
      const Vector4d p4(p.x(), p.y(), p.z(), 1.0);
      AccessStatus st;
      T tmp = v;
      switch (how)
      {
        case 0: st = g.SetIndex(i, v); break;
        case 1: st = g.SetIndex(i, std::move(tmp)); break;
        case 2: st = g.SetIndex(i.X(), i.Y(), i.Z(), v); break;
        case 3: st = g.SetIndex(i.X(), i.Y(), i.Z(), std::move(tmp)); break;
        case 4: st = g.SetLocation3d(p, v); break;
        case 5: st = g.SetLocation3d(p, std::move(tmp)); break;
        case 6: st = g.SetLocation4d(p4, v); break;
        case 7: st = g.SetLocation4d(p4, std::move(tmp)); break;
        case 8: st = g.SetLocation(p.x(), p.y(), p.z(), v); break;
        default: st = g.SetLocation(p.x(), p.y(), p.z(), std::move(tmp)); break;
      }
      MC_CHECK(st == (inside ? AccessStatus::SUCCESS : AccessStatus::OUT_OF_BOUNDS), "set form ", how, " at ", i, " returned status ", static_cast<int>(st));
      if (inside) m.cells[static_cast<size_t>(m.at(i.X(), i.Y(), i.Z()))] = v;
      mc::note(mc::str("set form ", how, " at ", i));
    }
    else if (op == 1)
    {
      const GridIndex i = place(s, mc::choose(kPlaces));
      const int how = mc::choose(5);
      const bool inside = m.in(i.X(), i.Y(), i.Z());
      const Vector3d p = m.origin * m.grid_frame(i.X(), i.Y(), i.Z(), 0.7);
      const Vector4d p4(p.x(), p.y(), p.z(), 1.0);
      auto q = how == 0 ? g.GetIndexMutable(i) : how == 1 ? g.GetIndexMutable(i.X(), i.Y(), i.Z()) : how == 2 ? g.GetLocationMutable3d(p)
             : how == 3 ? g.GetLocationMutable4d(p4) : g.GetLocationMutable(p.x(), p.y(), p.z());
      MC_CHECK(q.HasValue() == inside, "mutable access form ", how, " presence wrong at ", i);
      MC_CHECK(q.Status() == (inside ? AccessStatus::SUCCESS : AccessStatus::OUT_OF_BOUNDS), "mutable access form ", how, " status wrong at ", i);
      if (inside) { const T v = val(); q.Value() = v; m.cells[static_cast<size_t>(m.at(i.X(), i.Y(), i.Z()))] = v; }
      else MC_CHECK(mc::throws([&] { (void)q.Value(); }) == 1, "value of an absent query accepted");
      mc::note(mc::str("mutable access ", how, " at ", i));
    }
    else if (op == 2)
    {
      const int64_t d = mc::choose(4) * (m.total() - 1) / 2 - (mc::choose(2) ? 1 : 0);
      const bool inside = d >= 0 && d < m.total();
      const int how = mc::choose(3);
      const T v = val();
      T tmp = v;
      const int t = mc::throws([&] { if (how == 0) g.SetDataIndex(d, v); else if (how == 1) g.SetDataIndex(d, std::move(tmp)); else g.GetDataIndexMutable(d) = v; });
      MC_CHECK((t == 0) == inside, "data index ", d, " accepted=", t == 0);
      if (inside)
      {
        const GridIndex i = g.DataIndexToGridIndex(d);
        MC_CHECK(m.in(i.X(), i.Y(), i.Z()), "data index ", d, " maps to ", i);
        m.cells[static_cast<size_t>(m.at(i.X(), i.Y(), i.Z()))] = v;
      }
      mc::note(mc::str("data index ", d));
    }
    else if (op == 3)
    {
      const int how = mc::choose(5);
      const T v = val();
      if (how == 0) { g.ResetWithDefault(); std::fill(m.cells.begin(), m.cells.end(), m.def); }
      else if (how == 1) { g.ResetWithNewValue(v); std::fill(m.cells.begin(), m.cells.end(), v); }
      else if (how == 2) { g.ResetWithNewDefault(v); m.def = v; std::fill(m.cells.begin(), m.cells.end(), v); }
      else if (how == 3) { g.SetDefaultValue(v); m.def = v; }
      else { g.SetOOBValue(v); m.oob = v; }
      mc::note(mc::str("reset/default form ", how));
    }
    else if (op == 4)
    {
      // whole storage: right size, one short, one long, or in place
      const int how = mc::choose(4);
      std::vector<T> data(g.GetImmutableRawData());
      MC_CHECK(static_cast<int64_t>(data.size()) == m.total(), "raw data size");
      M n = m;
      for (size_t i = 0; i < data.size(); i++)
      {
        const GridIndex gi = g.DataIndexToGridIndex(static_cast<int64_t>(i));
        data[i] = val();
        n.cells[static_cast<size_t>(m.at(gi.X(), gi.Y(), gi.Z()))] = data[i];
      }
      if (how == 0) { g.SetRawData(data); m = n; }
      else if (how == 1) { data.pop_back(); MC_CHECK(mc::throws([&] { g.SetRawData(data); }) == 1, "short raw data accepted"); }
      else if (how == 2) { data.push_back(val()); MC_CHECK(mc::throws([&] { g.SetRawData(data); }) == 1, "long raw data accepted"); }
      else { auto& raw = g.GetMutableRawData(); for (size_t i = 0; i < data.size(); i++) raw[i] = data[i]; m = n; }
      mc::note(mc::str("raw data form ", how));
    }
    else if (op == 5)
    {
      // copy, then change one of the two
      const int how = mc::choose(4);
      const GridIndex i = place(s, mc::choose(2));
      const T v = val();
      if (how == 0) { Grid copy(g); copy.SetIndex(i, v); m.compare(g, "after changing a copy"); M n = m; n.cells[static_cast<size_t>(m.at(i.X(), i.Y(), i.Z()))] = v; n.compare(copy, "changed copy"); }
      else if (how == 1) { Grid copy(g); g.SetIndex(i, v); m.compare(copy, "copy after changing the original"); m.cells[static_cast<size_t>(m.at(i.X(), i.Y(), i.Z()))] = v; }
      else if (how == 2)
      {
        auto clone = g.Clone();
        clone->SetIndex(i, v); clone->SetOOBValue(v); clone->UpdateOriginTransform(origin_of(1));
        m.compare(g, "after changing a clone");
        M n = m; n.cells[static_cast<size_t>(m.at(i.X(), i.Y(), i.Z()))] = v; n.oob = v; n.origin = origin_of(1);
        MC_CHECK(dynamic_cast<Grid*>(clone.get()) != nullptr, "clone has another type");
        n.compare(*dynamic_cast<Grid*>(clone.get()), "changed clone");
      }
      else { Grid other(GridSizes(1.0, int64_t{1}, int64_t{1}, int64_t{1}), v); other = g; g.SetIndex(i, v); m.compare(other, "assigned grid"); g = other; }
      mc::note(mc::str("copy form ", how));
    }
    else if (op == 6)
    {
      const uint64_t lead = static_cast<uint64_t>(mc::choose(3)) * 3;
      const uint64_t tail = static_cast<uint64_t>(mc::choose(2)) * 5;
      std::vector<uint8_t> buf(lead, 0xAB);
      const uint64_t wrote = Grid::Serialize(g, buf, Val<T>::ser);
      MC_CHECK(buf.size() == lead + wrote, "serialize reported ", wrote, " bytes but wrote ", buf.size() - lead);
      for (uint64_t k = 0; k < lead; k++) MC_CHECK(buf[k] == 0xAB, "serialize changed earlier bytes");
      buf.insert(buf.end(), tail, 0xCD);
      if (mc::flip())
      {
        auto d = Grid::Deserialize(buf, lead, Val<T>::des);
        MC_CHECK(d.BytesRead() == wrote, "deserialize read ", d.BytesRead(), " bytes of ", wrote);
        g = d.Value();
      }
      else
      {
        Grid other(GridSizes(2.0, int64_t{2}, int64_t{2}, int64_t{2}), val());
        MC_CHECK(other.DeserializeSelf(buf, lead, Val<T>::des) == wrote, "DeserializeSelf byte count");
        g = other;
      }
      mc::note("serialize round trip");
    }
    else if (op == 7)
    {
      m.origin = origin_of(mc::choose(kOrigins));
      g.UpdateOriginTransform(m.origin);
      mc::note("update origin");
    }
    else if (op == 8)
    {
      const Shape ns = shapes()[static_cast<size_t>(mc::choose(3))];
      s = ns;
      const T d = val(), o = val();
      const GridSizes sz(ns.c[0], ns.c[1], ns.c[2], ns.n[0], ns.n[1], ns.n[2]);
      for (int i = 0; i < 3; i++) { m.n[i] = ns.n[i]; m.c[i] = ns.c[i]; }
      m.def = d; m.oob = o; m.cells.assign(static_cast<size_t>(m.total()), d);
      if (mc::flip()) { m.origin = origin_of(1); g.Initialize(m.origin, sz, d, o); }
      else
      {
        m.origin = Isometry3d(Eigen::Translation3d(-sz.XSize() * 0.5, -sz.YSize() * 0.5, -sz.ZSize() * 0.5));
        g.Initialize(sz, d, o);
      }
      mc::note("initialize again");
    }
    else if (op == 9)
    {
      const T v = val();
      MC_CHECK(mc::throws([&] { g.Initialize(GridSizes(), v, v); }) == 1, "initializing with invalid sizes accepted");
      mc::note("invalid initialize");
    }
    else
    {
      // location with a homogeneous coordinate other than 1 is malformed
      const T v = val();
      MC_CHECK(mc::throws([&] { (void)g.GetLocationImmutable4d(Vector4d(0, 0, 0, mc::flip() ? 0.0 : 2.0)); }) == 1, "4d location with w != 1 accepted");
      MC_CHECK(mc::throws([&] { (void)g.SetLocation4d(Vector4d(0, 0, 0, 0.5), v); }) == 1, "4d write with w != 1 accepted");
    }
    m.compare(g, mc::str("after step ", step, " (op ", op, ")").c_str(), step % 2 ? 0.02 : 0.98);
    m.remember();
  }
}

// The origin is moved again and again, through pairs of origins that agree in the position or in the rotation.
void moves()
{
  using Grid = voxel_grid::VoxelGrid<int32_t>;
  Model<int32_t, Grid> m; const Shape s = shapes()[1]; for (int i = 0; i < 3; i++) { m.n[i] = s.n[i]; m.c[i] = s.c[i]; }
  m.origin = origin_of(mc::choose(kAllOrigins)); m.def = 1; m.oob = 2; m.cells.assign(static_cast<size_t>(m.total()), 1);
  const GridSizes sizes(s.c[0], s.c[1], s.c[2], s.n[0], s.n[1], s.n[2]);
  Grid g(m.origin, sizes, 1, 2);
  for (int step = 0; step < mc::by_tier(2, 3); step++)
  {
    m.origin = origin_of(mc::choose(kAllOrigins)); const int how = mc::choose(3);
    if (how == 0) { g.UpdateOriginTransform(m.origin); }
    else if (how == 1) { g.Initialize(m.origin, sizes, 1, 2); m.cells.assign(m.cells.size(), 1); }
    else { const Grid other(m.origin, sizes, 3, 4); g = other; m.cells.assign(m.cells.size(), 3); g.SetDefaultValue(1); g.SetOOBValue(2); }
    MC_CHECK((g.GetInverseOriginTransform() * m.origin).isApprox(Isometry3d::Identity(), 1e-12), "moved origin: inverse origin transform is not the inverse");
    const Vector3d p = m.origin * m.grid_frame(1, 0, 2, 0.5); g.SetLocation3d(p, 10 + step); m.cells[static_cast<size_t>(m.at(1, 0, 2))] = 10 + step;
    for (int64_t x = 0; x < s.n[0]; x++) { MC_CHECK((g.GridIndexToLocation(x, 0, 0).head<3>() - m.origin * m.grid_frame(x, 0, 0, 0.5)).norm() < 1e-12, "moved origin: cell centre"); }
    m.compare(g, "moved origin"); m.remember();
  }
}

void conversions()
{
  const Shape s = mc::pick(shapes());
  const int o = mc::choose(kOrigins + 1);
  using Grid = voxel_grid::VoxelGrid<int32_t>;
  const GridSizes sizes = (s.c[0] == s.c[1] && s.c[1] == s.c[2] && mc::flip()) ? GridSizes(s.c[0], s.n[0], s.n[1], s.n[2])
                                                                            : GridSizes(s.c[0], s.c[1], s.c[2], s.n[0], s.n[1], s.n[2]);
  MC_CHECK(sizes.Valid(), "sizes invalid");
  for (int i = 0; i < 3; i++)
  {
    const double inv[3] = {sizes.InvCellXSize(), sizes.InvCellYSize(), sizes.InvCellZSize()};
    const double cs[3] = {sizes.CellXSize(), sizes.CellYSize(), sizes.CellZSize()};
    const double tot[3] = {sizes.XSize(), sizes.YSize(), sizes.ZSize()};
    MC_CHECK(cs[i] == s.c[i] && std::abs(inv[i] * s.c[i] - 1.0) < 1e-12 && std::abs(tot[i] - s.c[i] * s.n[i]) < 1e-9, "GridSizes axis ", i);
    MC_CHECK(sizes.CellSizes()(i) == cs[i] && sizes.Sizes()(i) == tot[i] && sizes.NumCells()(i) == s.n[i], "GridSizes vectors axis ", i);
  }
  MC_CHECK(sizes == sizes && !(sizes != sizes), "GridSizes equality");
  for (int i = 0; i < 3; i++)
  {
    Shape t = s; t.n[i]++; MC_CHECK(GridSizes(t.c[0], t.c[1], t.c[2], t.n[0], t.n[1], t.n[2]) != sizes, "GridSizes differing in count ", i, " equal");
    t = s; t.c[i] *= 2; MC_CHECK(GridSizes(t.c[0], t.c[1], t.c[2], t.n[0], t.n[1], t.n[2]) != sizes, "GridSizes differing in cell size ", i, " equal");
  }
  const Isometry3d origin = o < kOrigins ? origin_of(o) : Isometry3d(Eigen::Translation3d(-sizes.XSize() * 0.5, -sizes.YSize() * 0.5, -sizes.ZSize() * 0.5));
  Grid g = o < kOrigins ? Grid(origin, sizes, 1, 2) : Grid(sizes, 1, 2);
  Model<int32_t, Grid> m; for (int i = 0; i < 3; i++) { m.n[i] = s.n[i]; m.c[i] = s.c[i]; }
  m.origin = origin; m.def = 1; m.oob = 2; m.cells.assign(static_cast<size_t>(m.total()), 1);
  m.compare(g, "constructed");
  const bool exact = (o < 2) && s.c[0] != 0.1 && s.c[0] != 0.7;   // dyadic origin and sizes: boundaries are exact
  const double fr[] = {0.0, 1e-6, 0.25, 0.5, 0.75, 1.0 - 1e-6};
  for (int64_t x = -3; x <= s.n[0] + 2; x++) for (int64_t y = -3; y <= s.n[1] + 2; y++) for (int64_t z = -3; z <= s.n[2] + 2; z++)
  {
    const GridIndex idx(x, y, z);
    const Vector4d cf = g.GridIndexToLocationInGridFrame(idx);
    MC_CHECK(cf == g.GridIndexToLocationInGridFrame(x, y, z) && cf(3) == 1.0, "cell centre overloads differ");
    MC_CHECK(cf == sizes.IndexToLocationInGridFrame(idx) && cf == sizes.IndexToLocationInGridFrame(x, y, z), "GridSizes cell centre differs");
    MC_CHECK((cf.head<3>() - m.grid_frame(x, y, z, 0.5)).norm() < 1e-9, "cell centre of ", idx, " is ", cf.transpose());
    const Vector4d c = g.GridIndexToLocation(idx);
    MC_CHECK(c == g.GridIndexToLocation(x, y, z), "cell centre overloads differ");
    MC_CHECK((c.head<3>() - origin * m.grid_frame(x, y, z, 0.5)).norm() < 1e-9 && std::abs(c(3) - 1.0) < 1e-12, "cell centre (world) of ", idx, " is ", c.transpose());
    for (const double fx : fr) for (const double fy : fr) for (const double fz : {0.0, 0.5, 1.0 - 1e-6})
    {
      if (!exact && (fx == 0.0 || fy == 0.0 || fz == 0.0)) continue;
      const Vector3d gf((x + fx) * s.c[0], (y + fy) * s.c[1], (z + fz) * s.c[2]);
      const GridIndex f1 = g.LocationInGridFrameToGridIndex3d(gf);
      const GridIndex f2 = g.LocationInGridFrameToGridIndex4d(Vector4d(gf.x(), gf.y(), gf.z(), 1.0));
      const GridIndex f3 = g.LocationInGridFrameToGridIndex(gf.x(), gf.y(), gf.z());
      MC_CHECK(f1 == idx && f2 == idx && f3 == idx, "grid-frame point ", gf.transpose(), " in ", f1, "/", f2, "/", f3, " not ", idx);
      const Vector3d w = origin * gf;
      const GridIndex w1 = g.LocationToGridIndex3d(w);
      const GridIndex w2 = g.LocationToGridIndex4d(Vector4d(w.x(), w.y(), w.z(), 1.0));
      const GridIndex w3 = g.LocationToGridIndex(w.x(), w.y(), w.z());
      MC_CHECK(w1 == idx && w2 == idx && w3 == idx, "point ", w.transpose(), " in ", w1, "/", w2, "/", w3, " not ", idx);
      MC_CHECK(g.GetLocationImmutable3d(w).HasValue() == m.in(x, y, z), "presence at ", w.transpose());
      mc::transition();
    }
  }
  std::vector<int> owner(static_cast<size_t>(m.total()), 0);
  for (int64_t x = 0; x < s.n[0]; x++) for (int64_t y = 0; y < s.n[1]; y++) for (int64_t z = 0; z < s.n[2]; z++)
  {
    const int64_t d = sizes.GetDataIndex(x, y, z);
    MC_CHECK(d == sizes.GetDataIndex(GridIndex(x, y, z)) && d >= 0 && d < m.total(), "data index of cell");
    MC_CHECK(owner[static_cast<size_t>(d)]++ == 0, "two cells own data index ", d);
    MC_CHECK(sizes.GetGridIndexFromDataIndex(d) == GridIndex(x, y, z), "data index does not map back");
    MC_CHECK(g.HashDataIndex(x, y, z) == g.HashDataIndex(GridIndex(x, y, z)), "hash overloads");
    MC_CHECK(sizes.TotalCells() == m.total(), "TotalCells");
  }
  std::vector<uint8_t> b(3, 7);
  const uint64_t w = GridSizes::Serialize(sizes, b);
  const auto r = GridSizes::Deserialize(b, 3);
  MC_CHECK(r.BytesRead() == w && b.size() == 3 + w && r.Value() == sizes && r.Value().Valid() && r.Value().XSize() == sizes.XSize()
           && r.Value().GetDataIndex(1, 1, 1) == sizes.GetDataIndex(1, 1, 1), "GridSizes round trip");
  mc::state(mc::Hash().add(s.n[0]).add(s.n[1]).add(s.n[2]).add(s.c[0]).add(o).h);
  mc::note(mc::str("shape ", s.n[0], "x", s.n[1], "x", s.n[2], " origin ", o));
}

// Grid sizes given as lengths: enough cells to cover the length, never one too many.
void lengths()
{
  const double cell = mc::pick(std::vector<double>{1.0, 0.5, 0.25, 0.1, 0.3});
  const double lx = mc::pick(std::vector<double>{0.05, 0.25, 0.5, 1.0, 1.25, 2.75});
  const double ly = mc::pick(std::vector<double>{0.5, 1.3});
  const double lz = mc::pick(std::vector<double>{0.25, 2.0});
  const GridSizes a(cell, lx, ly, lz);
  const GridSizes b(cell, cell, cell, lx, ly, lz);
  MC_CHECK(a == b, "uniform and general constructors differ");
  const double l[3] = {lx, ly, lz};
  const int64_t n[3] = {a.NumXCells(), a.NumYCells(), a.NumZCells()};
  for (int i = 0; i < 3; i++)
  {
    MC_CHECK(n[i] * cell >= l[i] - 1e-9, "cells do not cover length ", l[i]);
    MC_CHECK((n[i] - 1) * cell < l[i] + 1e-9, "too many cells for length ", l[i]);
  }
  MC_CHECK(std::abs(a.XSize() - n[0] * cell) < 1e-9, "size is not the covered length");
  mc::state(mc::Hash().add(cell).add(lx).add(ly).add(lz).h);
  mc::transition();
}

void bad_sizes()
{
  const double badv[] = {0.0, -1.0, std::numeric_limits<double>::infinity(), std::nan("")};
  const int where = mc::choose(6);
  const double bad = badv[mc::choose(4)];
  if (where >= 3)
    for (const double big : {1e19, 1e30, 1e300})
    {
      double u[6] = {1, 1, 1, 2, 2, 2}; u[where] = big;
      MC_CHECK(mc::throws([&] { GridSizes(u[0], u[1], u[2], u[3], u[4], u[5]); }) == 1, "a length of ", big, " in unit cells accepted");
    }
  double v[6] = {1, 1, 1, 2, 2, 2};
  v[where] = bad;
  MC_CHECK(mc::throws([&] { GridSizes(v[0], v[1], v[2], v[3], v[4], v[5]); }) == 1, "invalid size ", bad, " at ", where, " accepted");
  if (where < 3) MC_CHECK(mc::throws([&] { GridSizes(v[0], v[1], v[2], int64_t{1}, int64_t{1}, int64_t{1}); }) == 1, "invalid cell size ", bad, " accepted");
  else
    for (int64_t k : {int64_t{0}, int64_t{-1}})
    {
      int64_t n[3] = {1, 1, 1}; n[where - 3] = k;
      MC_CHECK(mc::throws([&] { GridSizes(1.0, 1.0, 1.0, n[0], n[1], n[2]); }) == 1, "invalid cell count accepted");
      MC_CHECK(mc::throws([&] { GridSizes(1.0, n[0], n[1], n[2]); }) == 1, "invalid cell count accepted");
    }
  MC_CHECK(!GridSizes().Valid(), "default sizes valid");
  voxel_grid::VoxelGrid<int32_t> g;
  MC_CHECK(!g.IsInitialized() && g.GetTotalCells() == 0, "default grid initialized");
  MC_CHECK(!g.GetIndexImmutable(0, 0, 0).HasValue() && !g.GetLocationImmutable(0, 0, 0).HasValue() && g.SetIndex(0, 0, 0, 1) == AccessStatus::OUT_OF_BOUNDS,
           "default grid has cells");
  // Cells of an uninitialized grid survive a round trip as none.
  g.SetDefaultValue(4); g.SetOOBValue(5);
  std::vector<uint8_t> b;
  const uint64_t w = voxel_grid::VoxelGrid<int32_t>::Serialize(g, b, Val<int32_t>::ser);
  const auto d = voxel_grid::VoxelGrid<int32_t>::Deserialize(b, 0, Val<int32_t>::des);
  MC_CHECK(d.BytesRead() == w && !d.Value().IsInitialized() && d.Value().GetDefaultValue() == 4 && d.Value().GetOOBValue() == 5, "default grid round trip");
  mc::state(mc::Hash().add(where).add(bad).h);
  mc::transition();
}

// Index arithmetic of grids with far more cells than the exhaustive shapes, up to the representable limit.
void large_sizes()
{
  const std::vector<int64_t> axis = {1, 2, 3, 255, 256, 65535, 65537, (int64_t{1} << 31) - 1, (int64_t{1} << 31) + 5, int64_t{1} << 32,
                                     (int64_t{1} << 62) - 1, int64_t{1} << 62, std::numeric_limits<int64_t>::max()};
  const int64_t n[3] = {mc::pick(axis), mc::pick(axis), mc::pick(axis)};
  const double cell = mc::flip() ? 0.25 : 1.0;
  const __int128 cells12 = static_cast<__int128>(n[0]) * n[1];
  const bool fits = cells12 <= std::numeric_limits<int64_t>::max() && cells12 * n[2] <= std::numeric_limits<int64_t>::max();
  mc::state(mc::Hash().add(n[0]).add(n[1]).add(n[2]).add(cell).h);
  mc::transition();
  if (!fits)
  {
    MC_CHECK(mc::throws([&] { GridSizes(cell, n[0], n[1], n[2]); }) == 1, "a grid of ", n[0], "x", n[1], "x", n[2], " cells has more cells than can be counted but is accepted");
    return;
  }
  const GridSizes s(cell, n[0], n[1], n[2]);
  MC_CHECK(s.Valid() && s.NumXCells() == n[0] && s.NumYCells() == n[1] && s.NumZCells() == n[2], "counts of a large grid");
  MC_CHECK(s.TotalCells() == n[0] * n[1] * n[2], "total of a large grid is ", s.TotalCells());
  auto points = [](int64_t k) { std::vector<int64_t> v{-1, 0, 1, k / 2, k - 2, k - 1, k}; return v; };
  for (int64_t x : points(n[0])) for (int64_t y : points(n[1])) for (int64_t z : points(n[2]))
  {
    const bool in = x >= 0 && y >= 0 && z >= 0 && x < n[0] && y < n[1] && z < n[2];
    const GridIndex idx(x, y, z);
    MC_CHECK(s.IndexInBounds(idx) == in && s.IndexInBounds(x, y, z) == in, "bounds of ", idx, " in a large grid");
    if (!in) continue;
    const int64_t d = s.GetDataIndex(idx);
    MC_CHECK(d == s.GetDataIndex(x, y, z) && d >= 0 && d < s.TotalCells(), "data index of ", idx, " in a grid of ", n[0], "x", n[1], "x", n[2], " is ", d);
    MC_CHECK(s.GetGridIndexFromDataIndex(d) == idx, "data index of ", idx, " in a grid of ", n[0], "x", n[1], "x", n[2], " maps back to ", s.GetGridIndexFromDataIndex(d));
    if (x > (int64_t{1} << 40) || y > (int64_t{1} << 40) || z > (int64_t{1} << 40)) continue;   // centres no longer exact
    const Vector4d c = s.IndexToLocationInGridFrame(idx);
    MC_CHECK(c(0) == (static_cast<double>(x) + 0.5) * cell && c(1) == (static_cast<double>(y) + 0.5) * cell && c(2) == (static_cast<double>(z) + 0.5) * cell, "centre of ", idx, " is ", c.transpose());
  }
}

// Locations far outside, beyond what an index can count, are out of bounds like any other.
void far_locations()
{
  const std::vector<double> far = {1e10, 1e19, 1e30, 1e300, std::numeric_limits<double>::infinity(), std::nan("")};
  const Shape s = mc::pick(shapes());
  const int o = mc::choose(kOrigins);
  voxel_grid::VoxelGrid<int32_t> g(origin_of(o), GridSizes(s.c[0], s.c[1], s.c[2], s.n[0], s.n[1], s.n[2]), 1, 2);
  const Vector3d inside = origin_of(o) * Vector3d(s.c[0] * 0.5, s.c[1] * 0.5, s.c[2] * 0.5);
  const int where = mc::choose(7) + 1;
  const double v = mc::pick(far) * (mc::flip() ? -1.0 : 1.0);
  Vector3d p = inside;
  for (int i = 0; i < 3; i++) if (where & (1 << i)) p(i) = v;
  const Vector4d p4(p.x(), p.y(), p.z(), 1.0);
  MC_CHECK(!g.LocationInBounds3d(p) && !g.LocationInBounds4d(p4) && !g.LocationInBounds(p.x(), p.y(), p.z()), "location ", p.transpose(), " is in bounds");
  MC_CHECK(!g.GetLocationImmutable3d(p).HasValue() && !g.GetLocationImmutable4d(p4).HasValue() && !g.GetLocationMutable3d(p).HasValue(), "location ", p.transpose(), " has a cell");
  MC_CHECK(g.SetLocation3d(p, 9) == AccessStatus::OUT_OF_BOUNDS && g.SetLocation4d(p4, 9) == AccessStatus::OUT_OF_BOUNDS, "location ", p.transpose(), " can be set");
  for (const int32_t x : g.GetImmutableRawData()) MC_CHECK(x == 1, "a cell changed by setting ", p.transpose());
  mc::state(mc::Hash().add(where).add(v).add(o).add(s.n[0]).add(s.n[2]).h);
  mc::transition();
}

// Real grids with more cells than the exhaustive shapes: every cell keeps its own value.
void large_grid()
{
  const std::vector<std::array<int64_t, 3>> shapes = {{{40, 50, 60}}, {{300, 1, 300}}, {{1, 70000, 1}}, {{1, 1, 70000}}, {{70000, 1, 1}}, {{257, 17, 9}}};
  const auto n = mc::pick(shapes);
  const int o = mc::choose(2);
  const GridSizes s = mc::flip() ? GridSizes(0.5, n[0], n[1], n[2]) : GridSizes(0.3, 0.7, 0.6, n[0], n[1], n[2]);
  voxel_grid::VoxelGrid<int32_t> g(origin_of(o), s, -1, -2);
  int32_t v = 0;
  for (int64_t x = 0; x < n[0]; x++) for (int64_t y = 0; y < n[1]; y++) for (int64_t z = 0; z < n[2]; z++)
    MC_CHECK(g.SetIndex(x, y, z, v++) == AccessStatus::SUCCESS, "cell ", x, ",", y, ",", z, " cannot be set");
  MC_CHECK(g.GetTotalCells() == v, "total cells ", g.GetTotalCells());
  std::vector<uint8_t> b;
  const uint64_t w = voxel_grid::VoxelGrid<int32_t>::Serialize(g, b, Val<int32_t>::ser);
  const auto r = voxel_grid::VoxelGrid<int32_t>::Deserialize(b, 0, Val<int32_t>::des);
  MC_CHECK(r.BytesRead() == w && w == b.size(), "large grid round trip reads ", r.BytesRead(), " of ", w);
  v = 0;
  for (int64_t x = 0; x < n[0]; x++) for (int64_t y = 0; y < n[1]; y++) for (int64_t z = 0; z < n[2]; z++, v++)
  {
    MC_CHECK(g.GetIndexImmutable(x, y, z).Value() == v, "cell ", x, ",", y, ",", z, " of a large grid holds ", g.GetIndexImmutable(x, y, z).Value());
    MC_CHECK(r.Value().GetIndexImmutable(x, y, z).Value() == v, "cell ", x, ",", y, ",", z, " of a large grid holds ", r.Value().GetIndexImmutable(x, y, z).Value(), " after a round trip");
    const Vector4d c = g.GridIndexToLocation(x, y, z);
    MC_CHECK(g.LocationToGridIndex4d(c) == GridIndex(x, y, z) && g.GetLocationImmutable4d(c).Value() == v, "centre of cell ", x, ",", y, ",", z);
    for (const double f : {0.001, 0.999})
    {
      const Vector3d p = origin_of(o) * Vector3d((x + f) * s.CellXSize(), (y + f) * s.CellYSize(), (z + f) * s.CellZSize());
      MC_CHECK(g.LocationToGridIndex3d(p) == GridIndex(x, y, z) && g.GetLocationImmutable3d(p).Value() == v, "location ", p.transpose(), " near a corner of cell ", x, ",", y, ",", z);
    }
  }
  mc::state(mc::Hash().add(n[0]).add(n[1]).add(n[2]).add(o).h);
  mc::transition();
}

// Values that the grid itself holds, handed back to it by reference: the grid behaves as if given a copy.
template<typename T> void own_values()
{
  using Grid = voxel_grid::VoxelGrid<T>;
  const Shape s = shapes()[static_cast<size_t>(mc::pick(std::vector<int>{0, 1, 2}))];
  Model<T, Grid> m; for (int i = 0; i < 3; i++) { m.n[i] = s.n[i]; m.c[i] = s.c[i]; }
  m.origin = origin_of(1); m.def = Val<T>::make(0); m.oob = Val<T>::make(3);
  const GridSizes sizes(s.c[0], s.c[1], s.c[2], s.n[0], s.n[1], s.n[2]);
  Grid g(m.origin, sizes, m.def, m.oob);
  for (int64_t x = 0, k = 2; x < m.n[0]; x++) for (int64_t y = 0; y < m.n[1]; y++) for (int64_t z = 0; z < m.n[2]; z++, k++)
  { const T v = Val<T>::make(static_cast<int>(3 * k)); g.SetIndex(x, y, z, v); m.cells.push_back(v); }
  auto source = [&](int k) -> const T& { return k == 0 ? g.GetDefaultValue() : k == 1 ? g.GetOOBValue() : g.GetIndexImmutable(place(s, k - 2)).Value(); };
  for (int step = 0; step < mc::by_tier(2, 3); step++)
  {
    const int from = mc::choose(5), op = mc::choose(9);
    const T& v = source(from); const T copy = v;
    const GridIndex i = place(s, mc::pick(std::vector<int>{1, 2})); const size_t at = static_cast<size_t>(m.at(i.X(), i.Y(), i.Z()));
    const Vector3d p = m.origin * m.grid_frame(i.X(), i.Y(), i.Z(), 0.4);
    switch (op)
    {
      case 0: g.SetIndex(i, v); m.cells[at] = copy; break;
      case 1: g.SetLocation3d(p, v); m.cells[at] = copy; break;
      case 2: g.SetDataIndex(g.GridIndexToDataIndex(i), v); m.cells[at] = copy; break;
      case 3: g.ResetWithNewValue(v); std::fill(m.cells.begin(), m.cells.end(), copy); break;
      case 4: g.ResetWithNewDefault(v); m.def = copy; std::fill(m.cells.begin(), m.cells.end(), copy); break;
      case 5: g.SetDefaultValue(v); m.def = copy; break;
      case 6: g.SetOOBValue(v); m.oob = copy; break;
      case 7:
      {
        const int other = mc::choose(5); const T copy2 = source(other);
        if (step % 2 == 0) g.Initialize(m.origin, sizes, v, source(other)); else { g.Initialize(sizes, v, source(other)); m.origin = g.GetOriginTransform(); }
        m.def = copy; m.oob = copy2; std::fill(m.cells.begin(), m.cells.end(), copy); break;
      }
      default: g = g.GetTotalCells() > 0 ? *&g : Grid(); g.SetRawData(g.GetImmutableRawData()); break;
    }
    mc::note(mc::str("op ", op, " with own value ", from));
    m.compare(g, mc::str("after op ", op, " with the grid's own value ", from).c_str());
    m.remember();
  }
}

void query_type()
{
  int a = 1, b = 2;
  using Q = voxel_grid::GridQuery<int>;
  auto make = [&](int k) { return k == 0 ? Q::Success(a) : k == 1 ? Q::Success(b) : k == 2 ? Q::OutOfBounds() : k == 3 ? Q::MutableAccessProhibited() : k == 4 ? Q::Unknown() : Q(); };
  const AccessStatus st[] = {AccessStatus::SUCCESS, AccessStatus::SUCCESS, AccessStatus::OUT_OF_BOUNDS, AccessStatus::MUTABLE_ACCESS_PROHIBITED, AccessStatus::UNKNOWN, AccessStatus::UNKNOWN};
  const int k = mc::choose(6), l = mc::choose(6);
  Q q = make(k);
  auto same = [&](Q x, int w, const char* when)
  {
    MC_CHECK(x.Status() == st[w] && x.HasValue() == (w < 2) && static_cast<bool>(x) == (w < 2), when, ": query state");
    if (w < 2) MC_CHECK(&x.Value() == (w == 0 ? &a : &b), when, ": query refers to the wrong object");
    else MC_CHECK(mc::throws([&] { (void)x.Value(); }) == 1, when, ": absent value read");
  };
  same(q, k, "made");
  Q c(q); same(c, k, "copied"); same(q, k, "copied from");
  c = make(l); same(c, l, "assigned"); q = c; same(q, l, "copy assigned"); same(c, l, "copy assigned from");
  q.Reset(); same(q, 5, "reset"); same(c, l, "reset of another");
  mc::state(static_cast<uint64_t>(k * 6 + l)); mc::transition();
}
}  // namespace

void mc::run()
{
  scenario("conversions", conversions, 2);
  scenario("lengths", lengths, 2);
  scenario("bad-sizes", bad_sizes, 2);
  scenario("query", query_type, 1);
  scenario("own-values", own_values<std::string>, 2);
  scenario("own-values-int", own_values<int32_t>, 2);
  scenario("moves", moves, 3);
  scenario("large-sizes", large_sizes, 2);
  scenario("far", far_locations, 2);
  scenario("large-grid", large_grid, 1);
  const int depth = by_tier(2, 3);
  scenario("sequences-int", [&]
  {
    const Shape s = thorough() ? mc::pick(shapes()) : shapes()[mc::flip() ? 1 : 3];
    sequences<int32_t>(s, thorough() ? mc::choose(3) : 2, depth);
  }, 3);
  scenario("sequences-string", [&]
  {
    const Shape& s = shapes()[mc::thorough() && mc::flip() ? 1 : 2];
    sequences<std::string>(s, 1, depth);
  }, 3);
}
