// C07: values, grids, codecs and numbers.
#include "C07.hpp"
#include <map>
#include <random>
#include <common_robotics_utilities/base64_helpers.hpp>
#include <common_robotics_utilities/color_builder.hpp>
#include <common_robotics_utilities/conversions.hpp>
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <common_robotics_utilities/gaussian_distributions.hpp>
#include <common_robotics_utilities/math.hpp>
#include <common_robotics_utilities/maybe.hpp>
#include <common_robotics_utilities/print.hpp>
#include <common_robotics_utilities/random_rotation_generator.hpp>
#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/simple_prngs.hpp>
#include <common_robotics_utilities/time_optimal_trajectory_parametrization.hpp>
#include <common_robotics_utilities/utility.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>
#include <common_robotics_utilities/zlib_helpers.hpp>
using namespace together; using namespace common_robotics_utilities;
namespace
{
using S = std::string;
using VG = voxel_grid::VoxelGrid<int>; using DG = voxel_grid::DynamicSpatialHashedVoxelGrid<int>;
VG grid() { VG g(Eigen::Isometry3d(Eigen::Translation3d(1, -1, 0.5) * Eigen::AngleAxisd(0.3, Eigen::Vector3d::UnitZ())), voxel_grid::GridSizes(0.5, int64_t(3), int64_t(2), int64_t(2)), 7 + level()); for (int i = 0; i < 3; i++) { g.SetIndex(i, 1, 0, 10 + i + level()); } return g; }
S read_grid(const VG& g)
{
  Text t; for (int x = -1; x <= 3; x++) { for (int y = 0; y < 2; y++) { const auto q = g.GetIndexImmutable(x, y, 0); t << (q ? q.Value() : -1); const auto l = g.GridIndexToLocation(x, y, 0); t << g.LocationToGridIndex4d(l).X(); between(); const auto w = g.GetLocationImmutable4d(l); t << (w ? w.Value() : -2); } }
  return t;
}
S save_grid(const VG& g) { std::vector<uint8_t> b; VG::Serialize(g, b, [](const int& v, std::vector<uint8_t>& o) { between(); return serialization::SerializeMemcpyable<int>(v, o); }); const auto r = VG::Deserialize(b, 0, serialization::DeserializeMemcpyable<int>); const VG copy = g; return Text() << b << r.BytesRead() << copy.GetIndexImmutable(1, 1, 0).Value(); }
DG hashed() { DG g(voxel_grid::GridSizes(1.0, int64_t(2), int64_t(2), int64_t(2)), 5 + level(), 4); for (int i = 0; i < 3; i++) { g.SetLocation(i * 2.0 + 0.5, 0.5, 0.5, voxel_grid::DSHVGSetType::SET_CELL, 20 + i - level()); } return g; }
S read_hashed(const DG& g) { Text t; for (double x : {0.5, 1.5, 2.5, 4.5, 9.0, -1.0, 0.5}) { const auto q = g.GetLocationImmutable(x, 0.5, 0.5); between(); t << (q ? q.Value() : -1) << int(q.FoundStatus()); } return t; }
S save_hashed(const DG& g) { std::vector<uint8_t> b; DG::Serialize(g, b, [](const int& v, std::vector<uint8_t>& o) { between(); return serialization::SerializeMemcpyable<int>(v, o); }); const auto r = DG::Deserialize(b, 0, serialization::DeserializeMemcpyable<int>); const auto& v = r.Value(); const DG copy = g; return Text() << b.size() << r.BytesRead() << v.GetImmutableInternalChunks().size() << copy.GetLocationImmutable(0.5, 0.5, 0.5).Value(); }
S own_grid(const Nothing& n) { DG g = hashed(); g.SetLocation(0.5, 0.5, 0.5, voxel_grid::DSHVGSetType::SET_CELL, n.level); g.SetLocation(8, 8, 8, voxel_grid::DSHVGSetType::SET_CHUNK, 3); VG v = grid(); between(); for (int x = 0; x < 3; x++) { auto q = v.GetIndexMutable(x, 0, 1); q.Value() = x; } return read_hashed(g) + read_grid(v); }
using Bytes = std::vector<uint8_t>;
Bytes bytes() { Bytes b; for (int i = 0; i < 700 + level(); i++) { b.push_back(static_cast<uint8_t>(i * (i + level()) % 251)); } return b; }
S base64(const Bytes& b) { const S e = base64_helpers::Encode(b); between(); return Text() << e << base64_helpers::Decode(e) << base64_helpers::Decode("QUJDRA=="); }
S zlib(const Bytes& b) { const Bytes c = zlib_helpers::CompressBytes(b); between(); return Text() << c << zlib_helpers::DecompressBytes(c); }
using Names = std::map<S, std::vector<S>>;
Names names() { return {{"a", {"x", "yy"}}, {"b", std::vector<S>(size_t(level()))}, {"c", {S(40, 'z')}}}; }
S codecs(const Names& n)
{
  Bytes b; namespace s = serialization; const auto inner = [](const std::vector<S>& v, Bytes& o) { between(); return s::SerializeVectorLike<S>(v, o, [](const S& x, Bytes& p) { return s::SerializeString<char>(x, p); }); };
  const auto back = [](const Bytes& i, const uint64_t at) { return s::DeserializeVectorLike<S>(i, at, [](const Bytes& j, const uint64_t a) { between(); return s::DeserializeString<char>(j, a); }); };
  s::SerializeMapLike<S, std::vector<S>>(n, b, [](const S& x, Bytes& p) { return s::SerializeString<char>(x, p); }, inner); const uint64_t after = b.size(); s::SerializeIsometry3d(Eigen::Isometry3d(Eigen::Translation3d(1, 2, 3)), b); s::SerializeVectorXd(Eigen::Vector2d(4, 5), b); s::SerializeNetworkMemcpyable<uint32_t>(77u, b);
  const auto r = s::DeserializeMapLike<S, std::vector<S>>(b, 0, [](const Bytes& j, const uint64_t a) { return s::DeserializeString<char>(j, a); }, back); return Text() << b << after << r.BytesRead() << (r.Value() == n) << s::DeserializeIsometry3d(b, after).Value().translation().transpose();
}
using Doubles = std::vector<double>;
Doubles doubles() { return {0.3 + level(), -1.2, 2.9, -3.0, 1.1}; }
S numbers(const Doubles& d)
{
  Text t; using namespace math; const Doubles w{1, 2, 0, 1, 0.5}; t << AverageStdVectorDouble(d, w) << AverageContinuousRevolute(d, w) << Interpolate(d, Doubles{1, 2, 3, 4, 5}, 0.25) << Norm(d) << Abs(d) << InterpolateContinuousRevolute(d[2], d[3], 0.5) << CheckInContinuousRevoluteBounds(d[0], d[1], d[4]); between();
  VectorQuaterniond q; VectorVector3d v; VectorIsometry3d i; for (double x : d) { q.push_back(Eigen::Quaterniond(Eigen::AngleAxisd(x, Eigen::Vector3d(1, x, 0.5).normalized()))); v.push_back(Eigen::Vector3d(x, x * x, 1)); i.push_back(Eigen::Translation3d(v.back()) * q.back()); }
  t << AverageEigenQuaterniond(q, w).coeffs().transpose() << AverageEigenVector3d(v, w).transpose() << AverageEigenIsometry3d(i, w).matrix(); between();
  t << Interpolate(i[0], i[1], 0.3).matrix() << TwistBetweenTransforms(i[0], i[1]).transpose() << ExpTwist(TwistBetweenTransforms(i[0], i[1]), 0.5).matrix() << Distance(i[0], i[3], 0.5) << BilinearInterpolate<double>(Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 1), 1.0, 2.0, 3.0, 4.0, Eigen::Vector2d(0.3, 0.4));
  return t;
}
S conversion(const Doubles& d) { Text t; const auto x = conversions::TransformFromRPY(conversions::StdVectorDoubleToEigenVectorXd({d[0], d[1], d[2], 0.1, 0.2, 0.3})); between(); return t << x.matrix() << conversions::TransformToRPY(x).transpose() << conversions::QuaternionFromUrdfRPY(d[0], d[1], d[2]).coeffs().transpose(); }
S printing(const Names& n) { return Text() << print::Print(n, true, "; ") << print::Print(n, false) << print::Print(std::make_pair(3, 4.5)) << print::Print(Eigen::Vector3d(1, 2, 3)); }
S colours(const Nothing& n)
{
  using C = color_builder::RGBAColor;
  Text t; for (uint32_t k : {0u, 3u, 20u, 300u}) { const auto c = color_builder::LookupUniqueColor<C>(k + uint32_t(n.level), 0.5f); t << c.R() << c.G() << c.B(); between(); } for (float x : {0.1f, 0.6f}) { const auto c = color_builder::InterpolateHotToCold<C>(x); t << c.R() << c.G() << c.B(); } return t;
}
S randoms(const Nothing& n)
{
  Text t; simple_prngs::SplitMix64PRNG a(5 + uint64_t(n.level)); simple_prngs::XorShift128PlusPRNG b(6 + uint64_t(n.level)); simple_prngs::XorShift1024StarPRNG c(7 + uint64_t(n.level)); for (int i = 0; i < 4; i++) { t << a() << b() << c(); between(); } a.discard(9); b.discard(9); c.discard(9); t << a() << b() << c();
  gaussian_distributions::TruncatedGaussianDistribution g(1, 2, 0, 4); gaussian_distributions::MultivariteGaussianDistribution m(Eigen::Vector2d(1, 2), Eigen::Matrix2d::Identity()); random_rotation_generator::RandomRotationGenerator r; for (int i = 0; i < 3; i++) { t << g(a) << m(b).transpose() << r.GetQuaternion(c).coeffs().transpose() << r.GetEulerAngles(a).transpose(); between(); }
  t << gaussian_distributions::EvaluateGaussianPDF(0.0, 1.0, 0.5) << gaussian_distributions::IntegrateGaussian(0.0, 1.0, -1.0, 1.0); return t;
}
S helpers(const Doubles& d)
{
  Text t; size_t h = 0; for (double x : d) { utility::hash_combine(h, x); } t << h << utility::ClampValue(d[0], 0.0, 0.1) << utility::GetBit<uint8_t>(5, 2) << utility::SetBit<uint32_t>(0, 3, true) << utility::CheckAllStringsForSubstring({"ab", "cab"}, "ab"); between();
  int called = 0; { const utility::OnScopeExit e([&] { called++; between(); }); } t << called; return t;
}
using Opt = OwningMaybe<std::vector<int>>; Opt maybe() { return Opt(std::vector<int>{1, 2, 3 + level()}); }
S optional(const Opt& o) { const Opt copy = o; Opt other; other = copy; between(); return Text() << o.HasValue() << o.Value() << other.Value(); }
S trajectories(const Nothing& n)
{
  const std::vector<Eigen::VectorXd> path{Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0.5), Eigen::Vector2d(1.5, -1 + n.level)}; const auto tr = time_optimal_trajectory_parametrization::ParametrizePathTOTP(path, Eigen::Vector2d(1, 1), Eigen::Vector2d(2, 2), 0.1, 0.05); between();
  const auto copy = tr->Clone(); Text t; for (double f : {0.0, 0.7, 0.2, 1.0}) { const auto p = tr->GetPositionVelocityTimePoint(f * tr->Duration()), q = copy->GetPositionVelocityTimePoint((1 - f) * copy->Duration()); t << p.Position().transpose() << q.Velocity().transpose(); between(); } return t;
}
}
void together::register_values()
{
  op<VG, grid, read_grid>("reading a grid"); op<VG, grid, save_grid>("saving a grid"); op<DG, hashed, read_hashed>("reading a hashed grid"); op<DG, hashed, save_hashed>("saving a hashed grid"); op<Nothing, nothing, own_grid>("changing grids");
  op<Bytes, bytes, base64>("base64"); op<Bytes, bytes, zlib>("zlib"); op<Names, names, codecs>("serialization"); op<Names, names, printing>("printing"); op<Doubles, doubles, numbers>("mathematics"); op<Doubles, doubles, conversion>("conversions"); op<Doubles, doubles, helpers>("helpers");
  op<Nothing, nothing, colours>("colours"); op<Nothing, nothing, randoms>("random numbers"); op<Opt, maybe, optional>("reading a maybe"); op<Nothing, nothing, trajectories>("trajectories");
}
