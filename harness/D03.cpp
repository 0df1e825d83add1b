// D03: a chunked sparse voxel grid is an exact unbounded map.
#include "mc.hpp"
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <array>
#include <map>
MC_HARNESS("D03", "every operation sequence up to the depth bound over cells in and around neighbouring chunks, and every boundary "
                  "position k*cell -/+ one ulp on every axis for several cell sizes; a state is a distinct grid contents or boundary case")
using namespace common_robotics_utilities;
using namespace common_robotics_utilities::voxel_grid;
using Eigen::Isometry3d;
using Eigen::Vector3d;
using Eigen::Vector4d;
namespace
{
using Grid = DynamicSpatialHashedVoxelGrid<std::string>;
using IGrid = DynamicSpatialHashedVoxelGrid<int>;
using Key = std::array<int64_t, 3>;
int64_t floordiv(int64_t a, int64_t b) { int64_t q = a / b; if (a % b != 0 && (a < 0) != (b < 0)) q--; return q; }

struct Config { double c[3]; int64_t n[3]; Isometry3d o; };
Config config(int k)
{
  if (k == 0) return {{1.0, 1.0, 1.0}, {2, 2, 2}, Isometry3d::Identity()};
  if (k == 1) return {{0.5, 0.25, 2.0}, {2, 1, 3}, Eigen::Translation3d(1.5, -2.0, 3.0) * Eigen::AngleAxisd(0.7, Vector3d(1, -1, 2).normalized())};
  return {{0.1, 0.3, 0.7}, {1, 3, 2}, Isometry3d(Eigen::Translation3d(0.1, 0.2, -0.3))};
}

template<typename T> struct Model
{
  struct Chunk { bool cells; std::map<Key, T> over; T base; };
  Config f; T def; std::map<Key, Chunk> chunks;
  Key chunk_of(const Key& c) const { return {floordiv(c[0], f.n[0]), floordiv(c[1], f.n[1]), floordiv(c[2], f.n[2])}; }
  const T* get(const Key& c, bool* cell) const
  {
    auto it = chunks.find(chunk_of(c));
    if (it == chunks.end()) return nullptr;
    if (cell) *cell = it->second.cells;
    auto jt = it->second.over.find(c);
    return jt == it->second.over.end() ? &it->second.base : &jt->second;
  }
  void set_cell(const Key& c, const T& v)
  {
    auto& ch = chunks.try_emplace(chunk_of(c), Chunk{true, {}, def}).first->second;
    ch.cells = true; ch.over[c] = v;
  }
  void set_chunk(const Key& c, const T& v) { auto& ch = chunks.try_emplace(chunk_of(c), Chunk{false, {}, def}).first->second; ch.cells = false; ch.over.clear(); ch.base = v; }
  Vector3d frame(const Key& c, double fr) const { return Vector3d((c[0] + fr) * f.c[0], (c[1] + fr) * f.c[1], (c[2] + fr) * f.c[2]); }

  template<typename G> void compare(const G& g, const char* when, double fr) const
  {
    MC_CHECK(g.IsInitialized(), when, ": not initialized");
    MC_CHECK(g.GetDefaultValue() == def, when, ": default value");
    MC_CHECK(g.GetOriginTransform().matrix() == f.o.matrix(), when, ": origin transform");
    MC_CHECK((g.GetInverseOriginTransform() * g.GetOriginTransform()).isApprox(Isometry3d::Identity(), 1e-9), when, ": inverse origin transform");
    for (int i = 0; i < 3; i++)
      MC_CHECK(g.GetCellSizes()(i) == f.c[i] && g.GetChunkNumCells()(i) == f.n[i] && std::abs(g.GetChunkSizes()(i) - f.c[i] * f.n[i]) < 1e-9, when, ": sizes of axis ", i);
    MC_CHECK(g.HasUniformCellSize() == (f.c[0] == f.c[1] && f.c[1] == f.c[2]), when, ": HasUniformCellSize");
    MC_CHECK(g.GetImmutableInternalChunks().size() == chunks.size(), when, ": ", g.GetImmutableInternalChunks().size(), " chunks instead of ", chunks.size());
    for (int64_t x = -f.n[0] - 1; x <= f.n[0]; x++) for (int64_t y = -f.n[1] - 1; y <= f.n[1]; y++) for (int64_t z = -f.n[2] - 1; z <= f.n[2]; z++)
    {
      const Key k{x, y, z};
      bool cell = false;
      const T* want = get(k, &cell);
      const Vector3d p = f.o * frame(k, fr);
      const auto a = g.GetLocationImmutable(p.x(), p.y(), p.z());
      const auto b = g.GetLocationImmutable3d(p);
      const auto c = g.GetLocationImmutable4d(Vector4d(p.x(), p.y(), p.z(), 1.0));
      const DSHVGFoundStatus st = want == nullptr ? DSHVGFoundStatus::NOT_FOUND : cell ? DSHVGFoundStatus::FOUND_IN_CELL : DSHVGFoundStatus::FOUND_IN_CHUNK;
      MC_CHECK(a.HasValue() == (want != nullptr) && b.HasValue() == a.HasValue() && c.HasValue() == a.HasValue() && static_cast<bool>(a) == a.HasValue(),
               when, ": presence of cell ", x, ",", y, ",", z, " is ", a.HasValue());
      MC_CHECK(a.FoundStatus() == st && b.FoundStatus() == st && c.FoundStatus() == st, when, ": found status of cell ", x, ",", y, ",", z, " is ", static_cast<int>(a.FoundStatus()));
      if (want) MC_CHECK(a.Value() == *want && b.Value() == *want && c.Value() == *want, when, ": cell ", x, ",", y, ",", z, " holds ", a.Value(), " instead of ", *want);
    }
    // the chunks themselves
    for (const auto& kc : g.GetImmutableInternalChunks())
    {
      const Vector4d base = kc.first.Base();
      Key ck;
      for (int i = 0; i < 3; i++)
      {
        ck[i] = static_cast<int64_t>(std::llround(base(i) / (f.c[i] * f.n[i])));
        MC_CHECK(std::abs(base(i) - ck[i] * f.c[i] * f.n[i]) < 1e-9, when, ": chunk base ", base.transpose(), " is not a multiple of the chunk size");
      }
      auto it = chunks.find(ck);
      MC_CHECK(it != chunks.end(), when, ": unexpected chunk at ", base.transpose());
      const auto& ch = kc.second;
      MC_CHECK(ch.FillStatus() == (it->second.cells ? DSHVGFillStatus::CELL_FILLED : DSHVGFillStatus::CHUNK_FILLED), when, ": fill status of chunk");
      const Vector4d cc = ch.GetChunkCenterInGridFrame();
      for (int i = 0; i < 3; i++) MC_CHECK(std::abs(cc(i) - (ck[i] + 0.5) * f.c[i] * f.n[i]) < 1e-9, when, ": chunk centre ", cc.transpose());
      MC_CHECK(cc(3) == 1.0 && base(3) == 1.0, when, ": homogeneous coordinate");
      for (int64_t x = 0; x < f.n[0]; x++) for (int64_t y = 0; y < f.n[1]; y++) for (int64_t z = 0; z < f.n[2]; z++)
      {
        const Key k{ck[0] * f.n[0] + x, ck[1] * f.n[1] + y, ck[2] * f.n[2] + z};
        const Vector4d l = ch.GetCellLocationInGridFrame(GridIndex(x, y, z));
        MC_CHECK((l.head<3>() - frame(k, 0.5)).norm() < 1e-9 && l(3) == 1.0, when, ": centre of cell ", x, ",", y, ",", z, " of chunk is ", l.transpose());
        if (it->second.cells) MC_CHECK(ch.GetIndexImmutable(GridIndex(x, y, z)).Value() == *get(k, nullptr), when, ": chunk value by index");
        const auto q = g.GetLocationImmutable4d(f.o * l);
        MC_CHECK(q.HasValue() && q.Value() == *get(k, nullptr), when, ": position reported for cell ", x, ",", y, ",", z, " does not serve its value");
      }
      if (!it->second.cells) MC_CHECK(ch.GetIndexImmutable(GridIndex(0, 0, 0)).Value() == it->second.base, when, ": chunk value");
      MC_CHECK(mc::throws([&] { (void)ch.GetIndexImmutable(GridIndex(f.n[0], 0, 0)); }) == 1 && mc::throws([&] { (void)ch.GetIndexImmutable(GridIndex(0, 0, -1)); }) == 1,
               when, ": index outside the chunk accepted");
    }
    mc::transition();
  }
  void remember() const
  {
    mc::Hash h; h.add(f.c[0]);
    for (const auto& c : chunks) { h.add(c.first).add(c.second.cells); for (const auto& o : c.second.over) { h.add(o.first); h.add(std::hash<T>()(o.second)); } h.add(std::hash<T>()(c.second.base)); }
    mc::state(h.h);
  }
};
template<typename T> T make(int i);
template<> int make<int>(int i) { return 100 + i; }
template<> std::string make<std::string>(int i) { return std::string(i % 2 ? 40 : 2, 'x') + std::to_string(i); }
uint64_t ser(const int& v, std::vector<uint8_t>& b) { return serialization::SerializeMemcpyable<int>(v, b); }
uint64_t sers(const std::string& v, std::vector<uint8_t>& b) { return serialization::SerializeString<char>(v, b); }
serialization::Serializer<int> serializer(int) { return ser; }
serialization::Serializer<std::string> serializer(std::string) { return sers; }
serialization::Deserializer<int> deserializer(int) { return serialization::DeserializeMemcpyable<int>; }
serialization::Deserializer<std::string> deserializer(std::string) { return [](const std::vector<uint8_t>& b, uint64_t o) { return serialization::DeserializeString<char>(b, o); }; }

// The origin is moved again and again, through pairs of origins that agree in the position or in the rotation.
Isometry3d place(int k)
{
  const Vector3d p = k < 4 ? Vector3d(1.5, -2.0, 3.0) : k < 6 ? Vector3d(1.5, -2.0, -3.0) : k == 6 ? Vector3d(1.5 + 1e-6, -2.0, 3.0) : Vector3d::Zero();
  const double a = k == 0 || k == 4 || k == 6 ? 0.0 : k == 1 || k == 5 || k == 7 ? M_PI / 2 : k == 2 ? -M_PI / 2 : M_PI / 2 + 1e-6;
  return Eigen::Translation3d(p) * Eigen::AngleAxisd(a, Vector3d::UnitZ());
}
void moves()
{
  using G = DynamicSpatialHashedVoxelGrid<int>;
  Model<int> m; m.f = config(1); m.f.o = place(mc::choose(8)); m.def = 1;
  const GridSizes sizes(m.f.c[0], m.f.c[1], m.f.c[2], m.f.n[0], m.f.n[1], m.f.n[2]);
  G g(m.f.o, sizes, 1, 2); const Key k{1, 0, 2};
  for (int step = 0; step < mc::by_tier(2, 3); step++)
  {
    m.f.o = place(mc::choose(8)); const int how = mc::choose(2);
    if (how == 0) { g.UpdateOriginTransform(m.f.o); }
    else { const G other(m.f.o, sizes, 1, 2); g = other; m.chunks.clear(); }
    MC_CHECK((g.GetInverseOriginTransform() * m.f.o).isApprox(Isometry3d::Identity(), 1e-12), "moved origin: inverse origin transform is not the inverse");
    g.SetLocation3d(m.f.o * m.frame(k, 0.5), DSHVGSetType::SET_CELL, 10 + step); m.set_cell(k, 10 + step);
    m.compare(g, "moved origin", 0.4); m.remember();
  }
}

template<typename T> void sequences(int cfg, int depth)
{
  using G = DynamicSpatialHashedVoxelGrid<T>;
  int serial = 0;
  auto val = [&] { return make<T>(serial++); };
  Model<T> m; m.f = config(cfg); m.def = val();
  const auto& f = m.f;
  const GridSizes sizes(f.c[0], f.c[1], f.c[2], f.n[0], f.n[1], f.n[2]);
  G g = cfg == 0 ? G(sizes, m.def, 2) : G(f.o, sizes, m.def, 2);
  m.compare(g, "after construction", 0.5);
  const std::vector<Key> cells = {{0, 0, 0}, {f.n[0] - 1, f.n[1] - 1, f.n[2] - 1}, {-1, 0, 0}, {0, f.n[1], -1}, {-f.n[0], -1, f.n[2] - 1}};
  for (int s = 0; s < depth; s++)
  {
    const bool wide = s == 0 || mc::thorough();
    const int op = mc::choose(7);
    if (op <= 1)
    {
      const Key k = wide ? mc::pick(cells) : cells[static_cast<size_t>(mc::choose(3))];
      const int how = wide ? mc::choose(6) : s % 6;
      const T v = val(); T tmp = v;
      const Vector3d p = m.f.o * m.frame(k, s % 2 ? 0.03 : 0.97);
      const Vector4d p4(p.x(), p.y(), p.z(), 1.0);
      const DSHVGSetType t = op == 0 ? DSHVGSetType::SET_CELL : DSHVGSetType::SET_CHUNK;
      const DSHVGSetStatus st = how == 0 ? g.SetLocation4d(p4, t, v) : how == 1 ? g.SetLocation3d(p, t, v) : how == 2 ? g.SetLocation(p.x(), p.y(), p.z(), t, v)
          : how == 3 ? g.SetLocation4d(p4, t, std::move(tmp)) : how == 4 ? g.SetLocation3d(p, t, std::move(tmp)) : g.SetLocation(p.x(), p.y(), p.z(), t, std::move(tmp));
      MC_CHECK(st == (op == 0 ? DSHVGSetStatus::SET_CELL : DSHVGSetStatus::SET_CHUNK), "set status ", static_cast<int>(st));
      if (op == 0) m.set_cell(k, v); else m.set_chunk(k, v);
      mc::note(mc::str(op == 0 ? "set cell " : "set chunk of cell ", k[0], ",", k[1], ",", k[2]));
    }
    else if (op == 2)
    {
      const Key k = wide ? mc::pick(cells) : cells[static_cast<size_t>(mc::choose(3))];
      const int how = wide ? mc::choose(3) : s % 3;
      const Vector3d p = m.f.o * m.frame(k, 0.4);
      auto q = how == 0 ? g.GetLocationMutable4d(Vector4d(p.x(), p.y(), p.z(), 1.0)) : how == 1 ? g.GetLocationMutable3d(p) : g.GetLocationMutable(p.x(), p.y(), p.z());
      bool cell = false;
      const T* cur = m.get(k, &cell);
      MC_CHECK(q.HasValue() == (cur != nullptr), "mutable access presence");
      if (cur)
      {
        MC_CHECK(q.Value() == *cur, "mutable access value");
        MC_CHECK(q.FoundStatus() == (cell ? DSHVGFoundStatus::FOUND_IN_CELL : DSHVGFoundStatus::FOUND_IN_CHUNK), "mutable access status");
        const T v = val(); q.Value() = v;
        if (cell) m.set_cell(k, v); else m.set_chunk(k, v);
      }
      mc::note(mc::str("mutable access of cell ", k[0], ",", k[1], ",", k[2]));
    }
    else if (op == 3)
    {
      const int how = mc::choose(3);
      const Key k = cells[static_cast<size_t>(mc::choose(2)) * 2];
      const T v = val();
      const Vector3d p = m.f.o * m.frame(k, 0.5);
      Model<T> n = m; n.set_cell(k, v);
      if (how == 0) { G c(g); c.SetLocation3d(p, DSHVGSetType::SET_CELL, v); m.compare(g, "after changing a copy", 0.5); n.compare(c, "changed copy", 0.5); }
      else if (how == 1) { G c(g); g.SetLocation3d(p, DSHVGSetType::SET_CELL, v); m.compare(c, "copy after changing the original", 0.5); m = n; }
      else
      {
        auto c = g.Clone(); c->SetLocation3d(p, DSHVGSetType::SET_CELL, v);
        m.compare(g, "after changing a clone", 0.5);
        MC_CHECK(dynamic_cast<G*>(c.get()) != nullptr, "clone type");
        n.compare(*dynamic_cast<G*>(c.get()), "changed clone", 0.5);
      }
      mc::note("copy");
    }
    else if (op == 4)
    {
      const uint64_t lead = wide ? static_cast<uint64_t>(mc::choose(2)) * 7 : 3;
      std::vector<uint8_t> b(lead, 9);
      const uint64_t w = G::Serialize(g, b, serializer(T()));
      MC_CHECK(b.size() == lead + w, "serialize byte count");
      b.push_back(1); b.push_back(2);
      if (wide ? mc::flip() : s % 2 == 0) { auto d = G::Deserialize(b, lead, deserializer(T())); MC_CHECK(d.BytesRead() == w, "deserialize byte count ", d.BytesRead(), " of ", w); g = d.Value(); }
      else { G h(GridSizes(1.0, int64_t{1}, int64_t{1}, int64_t{1}), val(), 1); h.SetLocation(100, 100, 100, DSHVGSetType::SET_CHUNK, val()); MC_CHECK(h.DeserializeSelf(b, lead, deserializer(T())) == w, "DeserializeSelf byte count"); g = h; }
      mc::note("round trip");
    }
    else if (op == 5) { m.def = val(); g.SetDefaultValue(m.def); mc::note("set default"); }
    else { m.f.o = config(mc::choose(3)).o; g.UpdateOriginTransform(m.f.o); mc::note("update origin"); }
    m.compare(g, mc::str("after step ", s, " (op ", op, ")").c_str(), s % 2 ? 0.9 : 0.1);
    m.remember();
  }
}

// Positions on and next to cell boundaries must be writable and serve what was written.
void boundary()
{
  const double cell = mc::pick(std::vector<double>{1.0, 0.1, 0.3, 0.7, 1.0 / 3.0, 0.05, 1e-3, 7.1});
  const int64_t n = mc::pick(std::vector<int64_t>{1, 3, 4, 7});
  const int axis = mc::choose(3);
  const int64_t offset = mc::pick(std::vector<int64_t>{0, 1000003, -99999999});
  const GridSizes sizes(cell, cell, cell, axis == 0 ? n : 1, axis == 1 ? n : 1, axis == 2 ? n : 1);
  int64_t written = 0;
  for (int64_t k = -mc::by_tier(20, 60); k <= mc::by_tier(20, 60); k++)
    for (int variant = 0; variant < 9; variant++)
    {
      double x = variant < 5 ? static_cast<double>(offset + k) * cell
                             : std::floor(static_cast<double>(offset + k)) * (static_cast<double>(n) * cell);
      const int ulp = variant % 5 - 2;
      for (int u = 0; u < std::abs(ulp); u++) x = std::nextafter(x, ulp > 0 ? 1e300 : -1e300);
      Vector4d p(0.0, 0.0, 0.0, 1.0);
      for (int i = 0; i < 3; i++) p(i) = i == axis ? x : cell * 0.5;
      for (const bool whole : {false, true})
      {
        IGrid g(sizes, 0, 1);
        auto describe = [&] { return mc::str("cell size ", cell, ", ", n, " cells per chunk, axis ", axis, ", position ", x); };
        std::string what;
        const int t = mc::throws([&] { g.SetLocation4d(p, whole ? DSHVGSetType::SET_CHUNK : DSHVGSetType::SET_CELL, 7); }, &what);
        MC_CHECK(t == 0, "write failed: ", what, " (", describe(), ")");
        MC_CHECK(g.GetImmutableInternalChunks().size() == 1, "a single write made ", g.GetImmutableInternalChunks().size(), " chunks (", describe(), ")");
        const auto q = g.GetLocationImmutable4d(p);
        MC_CHECK(q.HasValue() && q.Value() == 7, "written value not served (", describe(), ")");
        auto mq = g.GetLocationMutable4d(p);
        MC_CHECK(mq.HasValue() && mq.Value() == 7, "written value not served by mutable access (", describe(), ")");
        // exactly one cell holds it, and it is one that touches the position
        const auto& ch = *g.GetImmutableInternalChunks().begin();
        const double slack = 1e-9 * std::max(1.0, std::abs(x) / cell) ;
        MC_CHECK(x / cell >= ch.first.Base()(axis) / cell - slack && x / cell <= ch.first.Base()(axis) / cell + static_cast<double>(n) + slack, "chunk at ", ch.first.Base()(axis), " does not contain the position (", describe(), ")");
        if (!whole)
        {
          int holders = 0;
          for (int64_t i = 0; i < n; i++)
          {
            const GridIndex gi(axis == 0 ? i : 0, axis == 1 ? i : 0, axis == 2 ? i : 0);
            const int v = ch.second.GetIndexImmutable(gi).Value();
            MC_CHECK(v == 0 || v == 7, "cell value");
            if (v == 7)
            {
              holders++;
              const double d = std::abs(ch.second.GetCellLocationInGridFrame(gi)(axis) - x) / cell;
              MC_CHECK(d <= 0.5 + slack, "the value went to a cell ", d, " cells away (", describe(), ")");
            }
          }
          MC_CHECK(holders == 1, holders, " cells changed (", describe(), ")");
        }
        mc::transition();
        written++;
      }
    }
  mc::state(mc::Hash().add(cell).add(n).add(axis).add(offset).h);
  mc::note(mc::str("cell ", cell, " x", n, " axis ", axis, " around ", offset, ": ", written, " writes"));
}

// A region of many chunks around the grid origin and far from it: every cell keeps its own value.
void large()
{
  const std::vector<std::array<int64_t, 3>> chunk_shapes = {{{4, 4, 4}}, {{16, 1, 2}}, {{1, 33, 1}}, {{3, 2, 5}}};
  const auto n = mc::pick(chunk_shapes);
  const double cell = mc::pick(std::vector<double>{0.25, 1.0, 0.1});
  const std::vector<std::array<int64_t, 3>> centres = {{{0, 0, 0}}, {{-700, 1300, 70001}}, {{1 << 20, -(1 << 20), 5}}};
  const auto at = mc::pick(centres);
  const int hint = mc::choose(2) ? 1 : 100000;
  const GridSizes sizes(cell, n[0], n[1], n[2]);
  IGrid g(sizes, -1, static_cast<size_t>(hint));
  const int64_t r = 9;
  auto pos = [&](int64_t x, int64_t y, int64_t z, double f) { return Vector4d((static_cast<double>(x) + f) * cell, (static_cast<double>(y) + f) * cell, (static_cast<double>(z) + f) * cell, 1.0); };
  auto code = [&](int64_t x, int64_t y, int64_t z) { return static_cast<int>((x - at[0] + r) * 10000 + (y - at[1] + r) * 100 + (z - at[2] + r)); };
  auto each = [&](auto f) { for (int64_t x = at[0] - r; x < at[0] + r; x++) for (int64_t y = at[1] - r; y < at[1] + r; y++) for (int64_t z = at[2] - r; z < at[2] + r; z++) f(x, y, z); };
  std::map<Key, int> chunks;
  each([&](int64_t x, int64_t y, int64_t z)
  {
    MC_CHECK(g.SetLocation4d(pos(x, y, z, 0.5), DSHVGSetType::SET_CELL, code(x, y, z)) == DSHVGSetStatus::SET_CELL, "set status");
    chunks[Key{floordiv(x, n[0]), floordiv(y, n[1]), floordiv(z, n[2])}]++;
  });
  auto verify = [&](const IGrid& h, const char* when)
  {
    MC_CHECK(h.GetImmutableInternalChunks().size() == chunks.size(), when, ": ", h.GetImmutableInternalChunks().size(), " chunks instead of ", chunks.size());
    each([&](int64_t x, int64_t y, int64_t z)
    {
      for (const double f : {0.1, 0.9})
      {
        const auto q = h.GetLocationImmutable4d(pos(x, y, z, f));
        MC_CHECK(q.HasValue() && q.Value() == code(x, y, z), when, ": cell ", x, ",", y, ",", z, " holds ", q.HasValue() ? q.Value() : -99, " instead of ", code(x, y, z));
      }
    });
    // cells of the touched chunks that were never set hold the default; everything else is absent
    for (int64_t d = -2 * r - 40; d <= 2 * r + 40; d++) for (int axis = 0; axis < 3; axis++)
    {
      Key k{at[0], at[1], at[2]}; k[static_cast<size_t>(axis)] += d;
      if (d >= -r && d < r) continue;
      const bool touched = chunks.count(Key{floordiv(k[0], n[0]), floordiv(k[1], n[1]), floordiv(k[2], n[2])}) > 0;
      const auto q = h.GetLocationImmutable4d(pos(k[0], k[1], k[2], 0.5));
      MC_CHECK(q.HasValue() == touched && (!touched || q.Value() == -1), when, ": untouched cell ", k[0], ",", k[1], ",", k[2]);
    }
  };
  verify(g, "large region");
  std::vector<uint8_t> b;
  const uint64_t w = IGrid::Serialize(g, b, ser);
  const auto d = IGrid::Deserialize(b, 0, serialization::DeserializeMemcpyable<int>);
  MC_CHECK(d.BytesRead() == w && w == b.size(), "large region round trip reads ", d.BytesRead(), " of ", w);
  verify(d.Value(), "large region after a round trip");
  mc::state(mc::Hash().add(n).add(cell).add(at).add(hint).h);
  mc::transition();
}

// A direct chunk refuses positions that are clearly outside of it; an unfilled chunk refuses use.
void chunks()
{
  const Config f = config(mc::choose(3));
  const bool cells = mc::flip();
  const Vector3d base(1.0, -2.0, 0.5);
  const GridSizes sizes(f.c[0], f.c[1], f.c[2], f.n[0], f.n[1], f.n[2]);
  using Chunk = DynamicSpatialHashedVoxelGridChunk<int>;
  Chunk c(ChunkRegion(base), sizes, cells ? DSHVGFillType::FILL_CELL : DSHVGFillType::FILL_CHUNK, 3);
  const int axis = mc::choose(3), side = mc::choose(2);
  Vector4d p(base.x() + f.c[0] * 0.5, base.y() + f.c[1] * 0.5, base.z() + f.c[2] * 0.5, 1.0);
  MC_CHECK(c.GetLocationImmutable4d(p).Value() == 3 && c.GetLocationMutable4d(p).Value() == 3, "initial value");
  Vector4d out = p;
  out(axis) = base(axis) + (side ? f.c[axis] * (f.n[axis] + 0.01) : -0.01 * f.c[axis]);
  if (cells) MC_CHECK(mc::throws([&] { (void)c.GetLocationImmutable4d(out); }) == 1 && mc::throws([&] { (void)c.GetLocationMutable4d(out); }) == 1, "chunk served a position outside");
  MC_CHECK(mc::throws([&] { Chunk d(c); d.SetCellLocation4d(out, 4); }) == 1, "chunk wrote a position outside");
  MC_CHECK(c.GetIndexMutable(GridIndex(0, 0, 0)).Value() == 3, "chunk value by mutable index");
  MC_CHECK(c.SetCellLocation4d(p, 8) == DSHVGSetStatus::SET_CELL && c.FillStatus() == DSHVGFillStatus::CELL_FILLED, "cell write");
  for (int64_t x = 0; x < f.n[0]; x++) for (int64_t y = 0; y < f.n[1]; y++) for (int64_t z = 0; z < f.n[2]; z++)
    MC_CHECK(c.GetIndexImmutable(GridIndex(x, y, z)).Value() == (x + y + z == 0 ? 8 : 3), "cell write changed other cells");
  MC_CHECK(c.SetChunkValue(9) == DSHVGSetStatus::SET_CHUNK && c.FillStatus() == DSHVGFillStatus::CHUNK_FILLED && c.GetLocationImmutable4d(p).Value() == 9, "chunk write");
  std::vector<uint8_t> b(1);
  const uint64_t w = Chunk::Serialize(c, b, ser);
  const auto d = Chunk::Deserialize(b, 1, serialization::DeserializeMemcpyable<int>);
  MC_CHECK(d.BytesRead() == w && b.size() == w + 1 && d.Value().FillStatus() == c.FillStatus() && d.Value().GetChunkCenterInGridFrame() == c.GetChunkCenterInGridFrame(), "chunk round trip");
  Chunk e;
  MC_CHECK(e.FillStatus() == DSHVGFillStatus::NOT_FILLED && mc::throws([&] { (void)e.GetLocationImmutable4d(p); }) == 1 && mc::throws([&] { e.SetChunkValue(1); }) == 1
           && mc::throws([&] { e.SetCellLocation4d(p, 1); }) == 1 && mc::throws([&] { (void)e.GetIndexImmutable(GridIndex(0, 0, 0)); }) == 1, "unfilled chunk usable");
  MC_CHECK(mc::throws([&] { IGrid g(GridSizes(), 1, 1); }) == 1, "grid with invalid chunk sizes");
  IGrid un;
  MC_CHECK(!un.IsInitialized() && mc::throws([&] { un.SetLocation(0, 0, 0, DSHVGSetType::SET_CELL, 1); }) == 1 && mc::throws([&] { (void)un.GetLocationImmutable(0, 0, 0); }) == 1, "uninitialized grid usable");
  ChunkRegion r(base);
  std::vector<uint8_t> rb;
  ChunkRegion::Serialize(r, rb);
  MC_CHECK(ChunkRegion::Deserialize(rb, 0).Value() == r && ChunkRegion(1.0, -2.0, 0.5) == r && !(ChunkRegion(1.0, -2.0, 0.6) == r), "chunk region");
  MC_CHECK(mc::throws([&] { ChunkRegion(Vector4d(0, 0, 0, 0)); }) == 1, "bad chunk region accepted");
  mc::state(mc::Hash().add(f.c[0]).add(cells).add(axis).add(side).h);
  mc::transition();
}
// Positions that are not finite lie in no chunk; very far ones do.
void edges_of_double()
{
  const double inf = std::numeric_limits<double>::infinity();
  const double x = mc::pick(std::vector<double>{std::nan(""), inf, -inf, 1e15, -1e17, 1e19, -1e19, 1e300, -1e300});
  const bool finite = std::isfinite(x), shifted = mc::flip();
  const int axis = mc::choose(3), before = mc::choose(3), form = mc::choose(6), hint = mc::flip() ? 1 : 64;
  const DSHVGSetType ty = mc::flip() ? DSHVGSetType::SET_CELL : DSHVGSetType::SET_CHUNK;
  const GridSizes sizes(1.0, int64_t(2), int64_t(1), int64_t(2));
  IGrid g = shifted ? IGrid(Isometry3d(Eigen::Translation3d(3.0, -1.0, 0.0)), sizes, -1, static_cast<size_t>(hint)) : IGrid(sizes, -1, static_cast<size_t>(hint));
  const Vector4d near(0.5, 0.5, 0.5, 1.0); Vector4d p = near; p(axis) = x;
  if (before) { g.SetLocation4d(near, before == 1 ? DSHVGSetType::SET_CELL : DSHVGSetType::SET_CHUNK, 5); }
  const std::string what = mc::str("position ", x, " on axis ", axis, ", write form ", form);
  MC_CHECK(!g.GetLocationImmutable4d(p).HasValue() && !g.GetLocationMutable4d(p).HasValue(), what, ": present before it was written");
  int v = 7;
  const int t = mc::throws([&]
  {
    switch (form)
    {
      case 0: g.SetLocation4d(p, ty, v); break;
      case 1: g.SetLocation4d(p, ty, std::move(v)); break;
      case 2: g.SetLocation3d(p.head<3>(), ty, v); break;
      case 3: g.SetLocation3d(p.head<3>(), ty, std::move(v)); break;
      case 4: g.SetLocation(p(0), p(1), p(2), ty, v); break;
      default: g.SetLocation(p(0), p(1), p(2), ty, std::move(v)); break;
    }
  });
  MC_CHECK(t == (finite ? 0 : 1), what, finite ? ": failed" : ": accepted");
  MC_CHECK(g.GetImmutableInternalChunks().size() == (before ? 1U : 0U) + (finite ? 1U : 0U), what, ": ", g.GetImmutableInternalChunks().size(), " chunks");
  const auto q = g.GetLocationImmutable4d(p); MC_CHECK(q.HasValue() == finite && (!finite || q.Value() == 7), what, ": reads wrongly");
  const auto r = g.GetLocationImmutable4d(near); MC_CHECK(r.HasValue() == (before != 0) && (!before || r.Value() == 5), what, ": another position changed");
  mc::state(mc::Hash().add(what).add(before).h); mc::transition();
}
// Values that the grid itself holds, handed back to it by reference: the grid behaves as if given a copy.
template<typename T> void own_values()
{
  using G = DynamicSpatialHashedVoxelGrid<T>;
  Model<T> m; m.f = config(2); m.def = make<T>(1);
  const auto& f = m.f;
  G g(f.o, GridSizes(f.c[0], f.c[1], f.c[2], f.n[0], f.n[1], f.n[2]), m.def, 1);
  auto where = [&](const Key& k) { const Vector3d p = m.f.o * m.frame(k, 0.5); return Vector4d(p.x(), p.y(), p.z(), 1.0); };
  const Key a{0, 0, 0}, b{0, f.n[1] - 1, f.n[2] - 1}, c{-1, 0, 0}, d{0, f.n[1], 0};
  const T va = make<T>(3), vc = make<T>(5);
  if (mc::flip()) { g.SetLocation4d(where(a), DSHVGSetType::SET_CELL, va); m.set_cell(a, va); }
  else { g.SetLocation4d(where(a), DSHVGSetType::SET_CHUNK, va); m.set_chunk(a, va); }
  if (mc::flip()) { g.SetLocation4d(where(c), DSHVGSetType::SET_CHUNK, vc); m.set_chunk(c, vc); }
  for (int step = 0; step < mc::by_tier(2, 3); step++)
  {
    const Key from = mc::pick(std::vector<Key>{a, b, c, d}), to = mc::pick(std::vector<Key>{a, b, c, d});
    const DSHVGSetType t = mc::flip() ? DSHVGSetType::SET_CELL : DSHVGSetType::SET_CHUNK;
    auto q = g.GetLocationMutable4d(where(from));
    const int how = mc::choose(q.HasValue() ? 4 : 1);
    if (how == 0) { const T copy = m.def; g.SetLocation4d(where(to), t, g.GetDefaultValue()); if (t == DSHVGSetType::SET_CELL) m.set_cell(to, copy); else m.set_chunk(to, copy); }
    else if (how == 1) { const T copy = q.Value(); g.SetDefaultValue(q.Value()); m.def = copy; }
    else
    {
      const T copy = q.Value();
      if (how == 2) g.SetLocation4d(where(to), t, g.GetLocationImmutable4d(where(from)).Value());
      else { const auto at = where(to); g.SetLocation(at(0), at(1), at(2), t, q.Value()); }
      if (t == DSHVGSetType::SET_CELL) m.set_cell(to, copy); else m.set_chunk(to, copy);
    }
    mc::note(mc::str("write ", how, " to ", to[0], ",", to[1], ",", to[2], " of the value at ", from[0], ",", from[1], ",", from[2]));
    m.compare(g, mc::str("after writing the grid's own value, form ", how, t == DSHVGSetType::SET_CELL ? " (cell)" : " (chunk)").c_str(), 0.4);
    m.remember();
  }
}
}  // namespace
void mc::run()
{
  scenario("boundary", boundary, 4);
  scenario("chunks", chunks, 2);
  scenario("edges of double", edges_of_double, 3);
  scenario("large", large, 3);
  scenario("moves", moves, 3);
  scenario("own values", own_values<std::string>, 3);
  scenario("own values int", own_values<int>, 3);
  for (int c = 0; c < 3; c++)
    scenario(mc::str("sequences-int-", c), [c] { sequences<int>(c, c == 1 ? 3 : by_tier(2, 3)); }, 3);
  scenario("sequences-string", [&] { sequences<std::string>(2, by_tier(2, 3)); }, 3);
}
