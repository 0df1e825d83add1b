// D02: voxel grids tell the owner exactly which cell is about to change.
#include "mc.hpp"
#include <common_robotics_utilities/voxel_grid.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
MC_HARNESS("D02", "every access form at every cell (and just outside) of small non-cubic grids with both hook answers, "
                  "in sequences of two accesses; a state is a distinct (access form, cell, answer) pair sequence")
using namespace common_robotics_utilities;
using namespace common_robotics_utilities::voxel_grid;
using Eigen::Isometry3d;
using Eigen::Vector3d;
using Eigen::Vector4d;
namespace
{
struct Call { int64_t x, y, z; bool raw; };
struct Log
{
  std::vector<Call> calls; int refuse_at = -1, told = 0; bool allow = true; std::function<void()> at_call;   // refuses call number refuse_at; allow: none was refused
  void expect(int at) { calls.clear(); told = 0; refuse_at = at; allow = true; }
  bool answer() { const bool yes = told++ != refuse_at; allow = allow && yes; return yes; }
};

class Watched : public VoxelGridBase<int>
{
public:
  Log* log = nullptr;
  using VoxelGridBase<int>::VoxelGridBase;
private:
  std::unique_ptr<VoxelGridBase<int>> DoClone() const override { return std::unique_ptr<VoxelGridBase<int>>(new Watched(*this)); }
  uint64_t DerivedSerializeSelf(std::vector<uint8_t>& b, const serialization::Serializer<int>&) const override { return serialization::SerializeMemcpyable<int>(77, b); }
  uint64_t DerivedDeserializeSelf(const std::vector<uint8_t>& b, const uint64_t o, const serialization::Deserializer<int>&) override
  {
    const auto d = serialization::DeserializeMemcpyable<int>(b, o);
    MC_CHECK(d.Value() == 77, "derived class deserialized from the wrong place");
    return d.BytesRead();
  }
  bool OnMutableAccess(const int64_t x, const int64_t y, const int64_t z) override
  { if (log->at_call) log->at_call(); log->calls.push_back({x, y, z, false}); return log->answer(); }
  bool OnMutableRawAccess() override
  { if (log->at_call) log->at_call(); log->calls.push_back({0, 0, 0, true}); return log->answer(); }
};

/// Every index and one outside on both sides; the ends and some in between of long dimensions.
int64_t coordinate(int64_t n)
{
  if (n <= 12) { return mc::choose(static_cast<int>(n) + 2) - 1; }
  return mc::pick(std::vector<int64_t>{-1, 0, 1, n / 3, n / 2, n - 2, n - 1, n});
}
void dense(int64_t nx, int64_t ny, int64_t nz, int steps)
{
  Log log;
  const GridSizes sizes(0.5, 0.25, 2.0, nx, ny, nz);
  const Isometry3d o = Eigen::Translation3d(1.5, -2.0, 3.0) * Eigen::AngleAxisd(M_PI / 2, Vector3d::UnitX());
  Watched g(o, sizes, 5, 6);
  g.log = &log;
  std::vector<int> cells(static_cast<size_t>(nx * ny * nz), 5);
  auto at = [&](int64_t x, int64_t y, int64_t z) -> int& { return cells[static_cast<size_t>((x * ny + y) * nz + z)]; };
  auto unchanged = [&](const char* when)
  {
    for (int64_t x = 0; x < nx; x++) for (int64_t y = 0; y < ny; y++) for (int64_t z = 0; z < nz; z++)
      MC_CHECK(g.GetIndexImmutable(x, y, z).Value() == at(x, y, z), when, ": cell ", x, ",", y, ",", z, " holds ", g.GetIndexImmutable(x, y, z).Value());
  };
  log.at_call = [&] { unchanged("at the time of the hook call"); };
  for (int s = 0; s < steps; s++)
  {
    const int form = mc::choose(22);
    log.expect(steps == 1 ? mc::choose(3) - 1 : mc::choose(2) - 1);
    const int value = (form < 18 && mc::flip()) ? 5 : 100 + s;  // 5: what the cells hold at first
    int tmp = value;
    if (form < 15)
    {
      // 10 setters, 5 mutable getters at a cell
      const int64_t x = coordinate(nx), y = coordinate(ny), z = coordinate(nz);
      const bool inside = x >= 0 && y >= 0 && z >= 0 && x < nx && y < ny && z < nz;
      const GridIndex i(x, y, z);
      const Vector3d p = o * Vector3d((x + 0.3) * 0.5, (y + 0.6) * 0.25, (z + 0.4) * 2.0);
      const Vector4d p4(p.x(), p.y(), p.z(), 1.0);
      AccessStatus st = AccessStatus::UNKNOWN;
      bool have = false;
      switch (form)
      {
        case 0: st = g.SetIndex(i, value); break;
        case 1: st = g.SetIndex(i, std::move(tmp)); break;
        case 2: st = g.SetIndex(x, y, z, value); break;
        case 3: st = g.SetIndex(x, y, z, std::move(tmp)); break;
        case 4: st = g.SetLocation3d(p, value); break;
        case 5: st = g.SetLocation3d(p, std::move(tmp)); break;
        case 6: st = g.SetLocation4d(p4, value); break;
        case 7: st = g.SetLocation4d(p4, std::move(tmp)); break;
        case 8: st = g.SetLocation(p.x(), p.y(), p.z(), value); break;
        case 9: st = g.SetLocation(p.x(), p.y(), p.z(), std::move(tmp)); break;
        default:
        {
          auto q = form == 10 ? g.GetIndexMutable(i) : form == 11 ? g.GetIndexMutable(x, y, z) : form == 12 ? g.GetLocationMutable3d(p)
                 : form == 13 ? g.GetLocationMutable4d(p4) : g.GetLocationMutable(p.x(), p.y(), p.z());
          st = q.Status(); have = q.HasValue();
          if (have) q.Value() = value;
        }
      }
      if (form >= 10) MC_CHECK(have == (inside && log.allow), "access form ", form, " at ", i, " gave a value: ", have);
      const AccessStatus want = !inside ? AccessStatus::OUT_OF_BOUNDS : log.allow ? AccessStatus::SUCCESS : AccessStatus::MUTABLE_ACCESS_PROHIBITED;
      MC_CHECK(st == want, "access form ", form, " at ", i, " status ", static_cast<int>(st));
      if (inside)
      {
        MC_CHECK(!log.calls.empty(), "access form ", form, " at ", i, " did not tell the owner");
        for (const Call& c : log.calls)
          MC_CHECK(!c.raw && c.x == x && c.y == y && c.z == z, "access form ", form, " at ", i, " told the owner about ", c.x, ",", c.y, ",", c.z, c.raw ? " (raw)" : "");
        if (log.allow) at(x, y, z) = value;
      }
      else MC_CHECK(log.calls.empty() || true, "");
      mc::state(mc::Hash().add(form).add(x).add(y).add(z).add(log.allow).add(s).h);
      mc::note(mc::str("form ", form, " at ", i, log.allow ? " allowed" : " refused"));
    }
    else if (form < 20)
    {
      // raw forms
      const int64_t d = coordinate(nx * ny * nz);
      const bool inside = d >= 0 && d < nx * ny * nz;
      std::vector<int> data(cells.size());
      for (size_t k = 0; k < data.size(); k++) data[k] = 1000 * (s + 1) + static_cast<int>(k);
      const bool whole = form >= 18;
      const int t = mc::throws([&]
      {
        if (form == 15) g.SetDataIndex(d, value);
        else if (form == 16) g.SetDataIndex(d, std::move(tmp));
        else if (form == 17) g.GetDataIndexMutable(d) = value;
        else if (form == 18) g.SetRawData(data);
        else { auto& raw = g.GetMutableRawData(); for (size_t k = 0; k < data.size(); k++) raw[k] = data[k]; }
      });
      const bool ok = log.allow && (whole || inside);
      MC_CHECK((t == 0) == ok, "raw access form ", form, " data index ", d, log.allow ? " allowed" : " refused", " threw ", t);
      if (whole || inside)
      {
        MC_CHECK(!log.calls.empty(), "raw access form ", form, " did not tell the owner");
        for (const Call& c : log.calls) MC_CHECK(c.raw, "raw access form ", form, " told the owner of a cell access");
      }
      if (ok)
      {
        if (whole) for (size_t k = 0; k < data.size(); k++) { const GridIndex i = g.DataIndexToGridIndex(static_cast<int64_t>(k)); at(i.X(), i.Y(), i.Z()) = data[k]; }
        else { const GridIndex i = g.DataIndexToGridIndex(d); at(i.X(), i.Y(), i.Z()) = value; }
      }
      mc::state(mc::Hash().add(form).add(d).add(log.allow).add(s).h);
      mc::note(mc::str("raw form ", form, " at ", d, log.allow ? " allowed" : " refused"));
    }
    else if (form == 20)
    {
      // read-only use
      const Watched& c = g;
      for (int64_t x = -1; x <= nx; x++) for (int64_t y = -1; y <= ny; y++) for (int64_t z = -1; z <= nz; z++)
      {
        const Vector4d p = c.GridIndexToLocation(x, y, z);
        (void)c.GetIndexImmutable(x, y, z); (void)c.GetIndexImmutable(GridIndex(x, y, z)); (void)c.GetLocationImmutable4d(p);
        (void)c.GetLocationImmutable3d(p.head<3>()); (void)c.GetLocationImmutable(p(0), p(1), p(2)); (void)c.LocationInBounds4d(p);
        (void)g.GetIndexImmutable(x, y, z); (void)g.GetLocationImmutable4d(p);
      }
      (void)g.GetDataIndexImmutable(0); (void)g.GetImmutableRawData();
      MC_CHECK(log.calls.empty(), "read-only access told the owner of a change");
    }
    else
    {
      // derived data is stored with the grid and found again, clones are watched separately
      std::vector<uint8_t> b(2);
      const uint64_t w = g.SerializeSelf(b, serialization::SerializeMemcpyable<int>);
      MC_CHECK(b.size() == 2 + w, "SerializeSelf byte count");
      b.push_back(1);
      Watched h; h.log = &log;
      MC_CHECK(h.DeserializeSelf(b, 2, serialization::DeserializeMemcpyable<int>) == w, "DeserializeSelf byte count");
      MC_CHECK(h.GetImmutableRawData() == g.GetImmutableRawData(), "round trip of a derived grid");
      MC_CHECK(log.calls.empty(), "serialization told the owner of a change");
      auto clone = g.Clone();
      MC_CHECK(dynamic_cast<Watched*>(clone.get()) != nullptr, "clone lost its type");
      MC_CHECK(clone->GetImmutableRawData() == g.GetImmutableRawData(), "clone contents");
    }
    log.at_call = nullptr;
    unchanged("after the access");
    log.at_call = [&] { unchanged("at the time of the hook call"); };
    mc::transition();
  }
}

struct SparseLog
{
  std::vector<Vector4d> calls; int raw = 0, refuse_at = -1, told = 0; bool allow = true; std::function<void()> at_call;   // refuses call number refuse_at; allow: none was refused
  void expect(int at) { calls.clear(); raw = told = 0; refuse_at = at; allow = true; }
  bool answer() { const bool yes = told++ != refuse_at; allow = allow && yes; return yes; }
};
class WatchedSparse : public DynamicSpatialHashedVoxelGridBase<int>
{
public:
  SparseLog* log = nullptr;
  using DynamicSpatialHashedVoxelGridBase<int>::DynamicSpatialHashedVoxelGridBase;
private:
  std::unique_ptr<DynamicSpatialHashedVoxelGridBase<int>> DoClone() const override { return std::unique_ptr<DynamicSpatialHashedVoxelGridBase<int>>(new WatchedSparse(*this)); }
  uint64_t DerivedSerializeSelf(std::vector<uint8_t>& b, const serialization::Serializer<int>&) const override { return serialization::SerializeMemcpyable<int>(78, b); }
  uint64_t DerivedDeserializeSelf(const std::vector<uint8_t>& b, const uint64_t o, const serialization::Deserializer<int>&) override
  {
    const auto d = serialization::DeserializeMemcpyable<int>(b, o);
    MC_CHECK(d.Value() == 78, "derived class deserialized from the wrong place");
    return d.BytesRead();
  }
  bool OnMutableAccess(const Vector4d& l) override { if (log->at_call) log->at_call(); log->calls.push_back(l); return log->answer(); }
  bool OnMutableRawAccess() override { if (log->at_call) log->at_call(); log->raw++; return log->answer(); }
};

void sparse(int steps)
{
  SparseLog log;
  const double c[3] = {0.5, 0.25, 2.0};
  const int64_t n[3] = {2, 3, 1};
  const GridSizes sizes(c[0], c[1], c[2], n[0], n[1], n[2]);
  const Isometry3d o = Eigen::Translation3d(1.5, -2.0, 3.0) * Eigen::AngleAxisd(M_PI / 2, Vector3d::UnitX());
  WatchedSparse g(o, sizes, 5, 4);
  g.log = &log;
  // cells x in [-2, 3], y in [-3, 2], z = -1, 0: chunks (-1..1, -1..0, -1..0)
  std::vector<Vector3d> centres;
  for (int64_t x = -2; x <= 3; x++) for (int64_t y = -3; y <= 2; y++) for (int64_t z = -1; z <= 0; z++)
    centres.push_back(Vector3d((x + 0.4) * c[0], (y + 0.6) * c[1], (z + 0.3) * c[2]));
  std::vector<int> model(centres.size(), -1);
  auto chunk_of = [&](const Vector3d& p) { return std::array<int64_t, 3>{static_cast<int64_t>(std::floor(p.x() / (c[0] * n[0]))), static_cast<int64_t>(std::floor(p.y() / (c[1] * n[1]))), static_cast<int64_t>(std::floor(p.z() / (c[2] * n[2])))}; };
  std::map<std::array<int64_t, 3>, bool> filled;  // true: cell filled
  auto unchanged = [&](const char* when)
  {
    for (size_t i = 0; i < centres.size(); i++)
    {
      const Vector3d w = o * centres[i];
      auto q = g.GetLocationImmutable3d(w);
      MC_CHECK((q.HasValue() ? q.Value() : -1) == model[i], when, ": cell at ", centres[i].transpose(), " holds ", q.HasValue() ? q.Value() : -1, " not ", model[i]);
    }
    MC_CHECK(g.GetImmutableInternalChunks().size() == filled.size(), when, ": number of chunks ", g.GetImmutableInternalChunks().size());
  };
  const int targets[] = {0, 13, 40, 71, 26, 27};
  for (int s = 0; s < steps; s++)
  {
    const int form = mc::choose(17);
    log.expect(s == 0 ? -1 : mc::choose(3) - 1);
    int tmp = mc::pick(std::vector<int>{100 + s, 5}); const int value = tmp;  // 5: what new cells hold
    bool told_once = false;
    log.at_call = [&] { if (!told_once) { told_once = true; unchanged("at the time of the hook call"); } };
    if (form < 15)
    {
      const size_t i = static_cast<size_t>(targets[mc::choose(6)]);
      const Vector3d w = o * centres[i];
      const Vector4d w4(w.x(), w.y(), w.z(), 1.0);
      const auto ch = chunk_of(centres[i]);
      const bool exists = filled.count(ch) != 0;
      if (form < 12)
      {
        const DSHVGSetType ty = form < 6 ? DSHVGSetType::SET_CELL : DSHVGSetType::SET_CHUNK;
        DSHVGSetStatus st;
        switch (form % 6)
        {
          case 0: st = g.SetLocation4d(w4, ty, value); break;
          case 1: st = g.SetLocation4d(w4, ty, std::move(tmp)); break;
          case 2: st = g.SetLocation3d(w, ty, value); break;
          case 3: st = g.SetLocation3d(w, ty, std::move(tmp)); break;
          case 4: st = g.SetLocation(w.x(), w.y(), w.z(), ty, value); break;
          default: st = g.SetLocation(w.x(), w.y(), w.z(), ty, std::move(tmp)); break;
        }
        MC_CHECK(!log.calls.empty(), "sparse set form ", form, " did not tell the owner");
        MC_CHECK(st == (!log.allow ? DSHVGSetStatus::MUTABLE_ACCESS_PROHIBITED : form < 6 ? DSHVGSetStatus::SET_CELL : DSHVGSetStatus::SET_CHUNK), "sparse set status");
        if (log.allow)
        {
          for (size_t k = 0; k < centres.size(); k++)
            if (chunk_of(centres[k]) == ch)
            { if (!exists && form < 6) model[k] = 5; if (form >= 6) model[k] = value; }
          if (form < 6) model[i] = value;
          filled[ch] = form < 6;
        }
      }
      else
      {
        auto q = form == 12 ? g.GetLocationMutable4d(w4) : form == 13 ? g.GetLocationMutable3d(w) : g.GetLocationMutable(w.x(), w.y(), w.z());
        MC_CHECK(q.HasValue() == (exists && log.allow), "sparse mutable access presence");
        MC_CHECK(q.FoundStatus() == (!exists ? DSHVGFoundStatus::NOT_FOUND : !log.allow ? DSHVGFoundStatus::MUTABLE_ACCESS_PROHIBITED
                 : filled[ch] ? DSHVGFoundStatus::FOUND_IN_CELL : DSHVGFoundStatus::FOUND_IN_CHUNK), "sparse mutable access status");
        if (exists) MC_CHECK(!log.calls.empty(), "sparse mutable access did not tell the owner");
        if (q.HasValue())
        {
          q.Value() = value;
          if (filled[ch]) model[i] = value;
          else for (size_t k = 0; k < centres.size(); k++) if (chunk_of(centres[k]) == ch) model[k] = value;
        }
      }
      for (const Vector4d& l : log.calls)
        MC_CHECK((l.head<3>() - centres[i]).norm() < 1e-9 && l(3) == 1.0, "sparse access at grid-frame ", centres[i].transpose(), " told the owner about ", l.transpose());
      MC_CHECK(log.raw == 0, "cell access reported as raw access");
      mc::state(mc::Hash().add(form).add(i).add(log.allow).add(s).h);
      mc::note(mc::str("sparse form ", form, " at cell ", i, log.allow ? " allowed" : " refused"));
    }
    else if (form == 15)
    {
      for (const Vector3d& p : centres) { const Vector3d w = o * p; (void)g.GetLocationImmutable3d(w); (void)g.GetLocationImmutable(w.x(), w.y(), w.z()); }
      (void)g.GetImmutableInternalChunks();
      std::vector<uint8_t> b(2);
      const uint64_t w = g.SerializeSelf(b, serialization::SerializeMemcpyable<int>);
      MC_CHECK(b.size() == 2 + w, "SerializeSelf byte count");
      WatchedSparse h; h.log = &log;
      MC_CHECK(h.DeserializeSelf(b, 2, serialization::DeserializeMemcpyable<int>) == w, "DeserializeSelf byte count");
      auto clone = g.Clone();
      MC_CHECK(dynamic_cast<WatchedSparse*>(clone.get()) != nullptr, "clone lost its type");
      MC_CHECK(log.calls.empty() && log.raw == 0, "read-only access told the owner of a change");
    }
    else
    {
      const int t = mc::throws([&] { g.GetMutableInternalChunks().clear(); });
      MC_CHECK(log.raw >= 1 && log.calls.empty(), "access to the chunk storage did not tell the owner");
      MC_CHECK((t == 0) == log.allow, "access to the chunk storage, allowed=", log.allow, " threw ", t);
      if (log.allow) { filled.clear(); std::fill(model.begin(), model.end(), -1); }
    }
    log.at_call = nullptr;
    unchanged("after the access");
    mc::transition();
  }
}
/// Large chunks, cells far from the origin; a chunk is there, or not.
void sparse_far()
{
  SparseLog log; const double c[3] = {0.5, 0.25, 2.0}; const int64_t n[3] = {16, 9, 33};
  const Isometry3d o = Eigen::Translation3d(1.5, -2.0, 3.0) * Eigen::AngleAxisd(M_PI / 2, Vector3d::UnitZ());
  WatchedSparse g(o, GridSizes(c[0], c[1], c[2], n[0], n[1], n[2]), 5, 4); g.log = &log;
  const std::vector<int64_t> far{0, 15, 16, -1, -17, 100000, -65537};
  const int64_t cell[3] = {mc::pick(far), mc::pick(far), mc::pick(far)};
  const Vector3d at((cell[0] + 0.4) * c[0], (cell[1] + 0.6) * c[1], (cell[2] + 0.3) * c[2]), beside = at + Vector3d(0, 0, (cell[2] % n[2] + n[2]) % n[2] == 0 ? c[2] : -c[2]);
  const Vector3d w = o * at, w2 = o * beside; const Vector4d w4(w.x(), w.y(), w.z(), 1.0); const int form = mc::choose(9), before = mc::choose(3); const int refuse_at = mc::choose(3) - 1;
  if (before == 1) { g.SetLocation3d(w2, DSHVGSetType::SET_CELL, 9); }
  if (before == 2) { g.SetLocation3d(w2, DSHVGSetType::SET_CHUNK, 9); }
  const auto read = [&](const Vector3d& p) { const auto q = g.GetLocationImmutable3d(p); return q.HasValue() ? q.Value() : -1; };
  const int had = read(w), had2 = read(w2); MC_CHECK(had == (before == 0 ? -1 : before == 1 ? 5 : 9) && had2 == (before == 0 ? -1 : 9), "cells hold ", had, " and ", had2);
  log.expect(refuse_at); bool seen = true; log.at_call = [&] { if (log.told == 0) { seen = read(w) == had && read(w2) == had2; } };
  const DSHVGSetType ty = form < 3 ? DSHVGSetType::SET_CELL : DSHVGSetType::SET_CHUNK; bool got = true;
  switch (form)
  {
    case 0: case 3: g.SetLocation4d(w4, ty, 7); break;
    case 1: case 4: g.SetLocation3d(w, ty, 7); break;
    case 2: case 5: g.SetLocation(w.x(), w.y(), w.z(), ty, 7); break;
    default: { auto q = form == 6 ? g.GetLocationMutable4d(w4) : form == 7 ? g.GetLocationMutable3d(w) : g.GetLocationMutable(w.x(), w.y(), w.z()); got = q.HasValue(); MC_CHECK(got == (log.allow && before != 0), "mutable access gave a value: ", got); if (got) { q.Value() = 7; } }
  }
  log.at_call = nullptr; MC_CHECK(seen, "a cell had changed when the owner was told");
  if (form < 6 || before != 0) { MC_CHECK(!log.calls.empty(), "form ", form, " did not tell the owner"); }
  for (const Vector4d& l : log.calls) { MC_CHECK((l.head<3>() - at).norm() < 1e-6 && l(3) == 1.0, "access at grid-frame ", at.transpose(), " told the owner about ", l.transpose()); }
  const bool allow = log.allow, changed = allow && got; const bool chunk = form >= 3 && (form < 6 || before == 2);
  MC_CHECK(read(w) == (changed ? 7 : had) && read(w2) == (!changed ? had2 : chunk ? 7 : before == 0 ? 5 : had2), "form ", form, " over ", before, allow ? " allowed" : " refused", " left ", read(w), " and ", read(w2));
  mc::transition(); mc::state(mc::Hash().add(form).add(before).add(allow).add(cell[0]).add(cell[1]).add(cell[2]).h);
}
}  // namespace
void mc::run()
{
  scenario("dense-2x3x1", [] { dense(2, 3, 1, 1); }, 2);
  scenario("dense-1x2x3", [] { dense(1, 2, 3, 1); }, 2);
  scenario("dense-3x2x2", [] { dense(3, 2, 2, 1); }, 2);
  scenario("dense-pairs", [] { dense(1, 2, 1, mc::by_tier(2, 2)); }, 3);
  scenario("dense-large", [] { dense(13, 40, 17, 1); }, 3);
  if (thorough()) scenario("dense-larger", [] { dense(70, 14, 300, 1); }, 3);
  if (thorough()) scenario("dense-pairs-2x3x1", [] { dense(2, 3, 1, 2); }, 3);
  scenario("sparse", [] { sparse(mc::by_tier(2, 3)); }, 2);
  scenario("sparse-far", sparse_far, 3);
}
