// N09: projections, planes and rigid-body algebra against their identities.
#include "mc.hpp"
#include <cmath>
#include <common_robotics_utilities/math.hpp>
namespace m = common_robotics_utilities::math;
MC_HARNESS("N09", "every combination of small vectors, planes, points, transforms and twists from grids, against the defining identities and independent computations (series exponential, exhaustive plane directions); a state is a distinct input")
using mc::str; using mc::choose; using mc::pick;
namespace
{
using V = Eigen::VectorXd; using V3 = Eigen::Vector3d; using Tw = Eigen::Matrix<double, 6, 1>; using T3 = Eigen::Isometry3d; using VD = std::vector<double>;
std::string sh(const V& v) { std::string s = "("; for (ssize_t i = 0; i < v.size(); i++) s += str(i ? "," : "", v[i]); return s + ")"; }
V draw(int n, const VD& g) { V v(n); for (int i = 0; i < n; i++) v[i] = pick(g); return v; }
void seen(const std::string& s) { mc::Hash h; h.add(s); mc::state(h.h); }
#define NEED(c, ...) do { if (!(c)) mc::fail(str(__VA_ARGS__)); } while (0)
// vectors of many elements from simple patterns
V pattern(int n)
{
  const int kind = choose(4), seed = choose(3); V v(n);
  for (int i = 0; i < n; i++) { const int h = (i * 7919 + seed * 104729 + 13) % 23; v[i] = kind == 0 ? (h - 11) * 0.25 : kind == 1 ? (i + seed) % 5 - 2 : kind == 2 ? (i == n - 1 - seed ? 3.0 : 0.0) : (i < n / 2 ? 0.0 : 1.0 + seed); }
  return v;
}
const std::vector<int> kDims{4, 5, 6, 7, 8, 9, 12, 16, 17, 33, 64, 100};
void projection_of(const V& b, const V& v);
void projection()
{
  const int n = 1 + choose(3); const VD g = n == 3 ? VD{-2, 0, 0.1, 3} : VD{-2, -1, 0, 0.1, 3, 1e-9, 1e6}; const V b = draw(n, g), v = draw(n, g);
  projection_of(b, v);
}
void long_projection() { const int n = pick(kDims); const V b = pattern(n), v = pattern(n); projection_of(b, v); }
void projection_of(const V& b, const V& v)
{
  const ssize_t n = b.size(); const V p = m::VectorProjection(b, v), r = m::VectorRejection(b, v); mc::transition(2); const std::string what = str("projecting ", sh(v), " onto ", sh(b), ": ");
  const double sv = v.norm(), sb = b.norm();
  NEED(p.size() == n && r.size() == n, what, "size"); NEED((p + r - v).norm() <= 1e-14 * sv, what, sh(p), " and ", sh(r), " do not add up");
  NEED(std::abs(r.dot(b)) <= 1e-13 * sv * sb, what, "rejection ", sh(r), " is not perpendicular");
  if (sb == 0) NEED(p.norm() == 0, what, sh(p));
  else { NEED((p - (p.dot(b) / (sb * sb)) * b).norm() <= 1e-13 * sv, what, sh(p), " is not parallel"); NEED(std::abs(p.dot(b) - v.dot(b)) <= 1e-13 * sv * sb, what, sh(p), " has another length"); }
  if (n == 3)
  {
    const V3 b3 = b, v3 = v; NEED((m::VectorProjection(b3, v3) - p).norm() <= 1e-14 * sv && (m::VectorRejection(b3, v3) - r).norm() <= 1e-14 * sv, what, "fixed-size vectors differ");
    const Eigen::Vector3f bf = b3.cast<float>(), vf = v3.cast<float>(); NEED((m::VectorProjection(bf, vf).cast<double>() - p).norm() <= 1e-5 * sv, what, "single precision differs");
  }
  seen(what);
}
void orthogonal()
{
  const int n = choose(mc::by_tier(4, 5)); const VD g = n <= 2 ? VD{0, 0.1, -0.1, 0.3, 1, -3, 1e-8, 1e5, 1e-100, 1e100, 0.7} : VD{0, 0.1, -0.2, 1, 3, 1e-9, 1e5};
  const V v = draw(n, g); V o; const int t = mc::throws([&] { o = m::GetArbitraryOrthogonalVector(v); }); mc::transition(); const std::string what = str("orthogonal vector to ", sh(v), ": ");
  const bool refuse = n == 0 || (n == 1 && v[0] != 0);      // nothing is orthogonal on a line
  NEED(refuse == (t == 1), what, t ? "refused" : "accepted"); if (refuse) { seen(what); return; }
  NEED(o.size() == n && o.allFinite() && o.norm() > 1e-3, what, sh(o)); NEED(std::abs(o.dot(v.stableNormalized())) <= 1e-12 * o.norm(), what, sh(o), " is not perpendicular");
  if (n == 3) { const V3 v3 = v; const V f = m::GetArbitraryOrthogonalVector(v3); NEED(std::abs(f.dot(v.stableNormalized())) <= 1e-12 * f.norm() && f.norm() > 1e-3, what, sh(f)); }
  seen(what);
}
void long_orthogonal()
{
  const int n = pick(kDims); V v = pattern(n); const double scale = pick(VD{1, 1e-9, 1e6}); v *= scale; mc::transition(); const std::string what = str("orthogonal vector to ", sh(v), ": ");
  const V o = m::GetArbitraryOrthogonalVector(v); NEED(o.size() == n && o.allFinite() && o.norm() > 1e-3 && std::abs(o.dot(v.stableNormalized())) <= 1e-12 * o.norm(), what, sh(o));
  seen(what);
}
void orthogonal_to_plane()
{
  const VD g{0, 0.1, 1, -3}; const V3 a = draw(3, g), b = draw(3, mc::by_tier(VD{0, 0.1, -3}, g)), d = draw(3, {0, 0.1, 1});
  if (a.norm() == 0 || b.norm() == 0 || d.norm() == 0) throw mc::Skip{};
  if (a.normalized().cross(b.normalized()).norm() < 1e-6) throw mc::Skip{};
  const V o = m::GetArbitraryOrthogonalVectorToPlane(a, b, d); mc::transition();
  NEED(o.allFinite() && o.norm() > 1e-6 && std::abs(o.dot(d)) <= 1e-9 * o.norm() * d.norm(), "orthogonal vector to ", sh(d), " from the plane of ", sh(a), " and ", sh(b), ": ", sh(o));
  seen(sh(a) + sh(b) + sh(d));
}
void plane_of(const V& o, const V& nm, const V& q);
void plane()
{
  const int n = 1 + choose(3); const VD g = n == 3 ? VD{-1, 0, 2} : VD{-1, 0, 0.1, 2}; const V o = draw(n, n == 3 ? VD{0, 1.5} : g), nm = draw(n, g), q = draw(n, n == 3 ? VD{-1, 0.5} : g); if (nm.norm() == 0) throw mc::Skip{};
  plane_of(o, nm, q);
}
void long_plane() { const int n = pick(std::vector<int>{4, 5, 6, 7, 8, 9, 16, 17}); const V o = pattern(n), nm = pattern(n), q = pattern(n); plane_of(o, nm, q); }
void plane_of(const V& o, const V& nm, const V& q)
{
  const ssize_t n = o.size(); const m::Hyperplane h(o, nm); const std::string what = str("plane at ", sh(o), " normal ", sh(nm), ", point ", sh(q), ": "); mc::transition(8);
  NEED(h.GetOrigin() == o && h.GetNormal() == nm && h.GetDimensionality() == static_cast<size_t>(n), what, "parts");
  const V off = q - o; const double raw = off.dot(nm), dist = std::abs(raw) / nm.norm();
  NEED(std::abs(h.GetRawDotProduct(q) - raw) < 1e-12, what, "dot product ", h.GetRawDotProduct(q));
  const double nd = off.norm() > 0 ? raw / off.norm() : 0; NEED(std::abs(h.GetNormedDotProduct(q) - nd) < 1e-12, what, "normed dot product ", h.GetNormedDotProduct(q), ", not ", nd);
  NEED(std::abs(h.GetDistanceToPlane(q) - dist) < 1e-12 && std::abs(h.GetSquaredDistanceToPlane(q) - dist * dist) < 1e-12 * (1 + dist * dist), what, "distance ", h.GetDistanceToPlane(q), ", not ", dist);
  const V p = h.ProjectPointOntoPlane(q); NEED(p.size() == n && h.GetDistanceToPlane(p) < 1e-12 && std::abs((q - p).norm() - dist) < 1e-12 && (q - p - ((q - p).dot(nm) / nm.squaredNorm()) * nm).norm() < 1e-12, what, "projected to ", sh(p));
  const V in = h.ProjectVectorOntoPlane(q), out = h.RejectVectorOntoPlane(q);
  NEED((in + out - q).norm() < 1e-12 && std::abs(in.dot(nm)) < 1e-12 && (out - (out.dot(nm) / nm.squaredNorm()) * nm).norm() < 1e-12, what, "vector split into ", sh(in), " and ", sh(out));
  NEED(mc::throws([&] { m::Hyperplane bad(o, V::Zero(n + 1)); }) == 1, "a plane with parts of different sizes is accepted");
  seen(what);
}
void fit()
{
  const int dim = 2 + choose(2), n = choose(mc::by_tier(5, 6)); std::vector<V> pts; std::string what = str(dim, "-dimensional plane fitted to");
  const bool flat = mc::flip();
  const std::vector<std::pair<V3, V3>> bases{{V3(1, 0, 0), V3(0, 1, 0)}, {V3(1, 2, -1), V3(0, 1, 1)}, {V3(0.3, 0, 7), V3(-1, 0.1, 0)}}; const auto& base = bases[static_cast<size_t>(flat ? choose(3) : 0)];
  for (int i = 0; i < n; i++)
  {
    V p(dim);
    if (dim == 3) p = flat ? V(V3(0.5, -1, 2) + pick(VD{0, 1, -2}) * base.first + pick(VD{0, 1, 2.5}) * base.second) : V(V3(pick(VD{0, 1}), pick(VD{0, 1}), pick(VD{0, 2})));
    else { const double t = pick(VD{0, 1, -2, 2.5}); p = flat ? V(Eigen::Vector2d(base.first[0] * t + 1, base.first[1] * t - 3)) : V(Eigen::Vector2d(t, pick(VD{0, 1, 3}))); }
    pts.push_back(p); what += " " + sh(p);
  }
  m::Hyperplane h; const int t = mc::throws([&] { h = m::FitPlaneToPoints(pts); }); mc::transition(); NEED((n == 0) == (t == 1), what, t ? " refused" : " accepted"); if (n == 0) return;
  V c = V::Zero(dim); for (auto& p : pts) c += p / n;
  NEED((h.GetOrigin() - c).norm() < 1e-9, what, " is at ", sh(h.GetOrigin())); NEED(h.GetNormal().size() == dim && std::abs(h.GetNormal().norm() - 1) < 1e-9, what, " has normal ", sh(h.GetNormal()));
  double err = 0; for (auto& p : pts) err += h.GetSquaredDistanceToPlane(p);
  if (flat) NEED(err < 1e-18, what, " misses them by ", std::sqrt(err));
  // no direction of a fine set gives a better fit
  double best = 1e300;
  auto consider = [&](const V& d) { double e = 0; for (auto& p : pts) e += std::pow((p - c).dot(d), 2); best = std::min(best, e / d.squaredNorm()); };
  if (dim == 2) for (int k = 0; k < 180; k++) consider(Eigen::Vector2d(std::cos(k * M_PI / 180), std::sin(k * M_PI / 180)));
  else for (int x = -4; x <= 4; x++) for (int y = -4; y <= 4; y++) for (int z = 0; z <= 4; z++) if (x || y || z) consider(V3(x, y, z));
  NEED(err <= best + 1e-9, what, " leaves ", err, " where ", best, " is possible");
  seen(what);
}
void long_fit()
{
  // many points: on a plane of two to six dimensions, or scattered about one evenly on both sides
  const int dim = 2 + choose(5), n = pick(std::vector<int>{6, 7, 8, 16, 17, 33, 100}); const bool flat = mc::flip(); V nm = pattern(dim), o = pattern(dim); if (nm.norm() == 0) throw mc::Skip{};
  nm /= nm.norm(); std::vector<V> pts; V c = V::Zero(dim);
  for (int i = 0; i < n; i++)
  {
    V p(dim); for (int k = 0; k < dim; k++) p[k] = ((i * 37 + k * 101 + i * i * (k + 3)) % 41 - 20) * 0.25;
    p = o + p - p.dot(nm) * nm; if (!flat) p += 0.05 * (((i * 13) % 7) - 3) * nm;
    pts.push_back(p);
  }
  for (auto& p : pts) c += p / n;
  const m::Hyperplane h = m::FitPlaneToPoints(pts); mc::transition(); const std::string what = str("plane of ", n, " points in ", dim, " dimensions about ", sh(o), " normal ", sh(nm), flat ? "" : " scattered");
  NEED((h.GetOrigin() - c).norm() < 1e-9, what, " is at ", sh(h.GetOrigin())); NEED(h.GetNormal().size() == dim && std::abs(h.GetNormal().norm() - 1) < 1e-9, what, " has normal ", sh(h.GetNormal()));
  double err = 0, given = 0; for (auto& p : pts) { err += h.GetSquaredDistanceToPlane(p); given += std::pow((p - c).dot(nm), 2); }
  if (flat) NEED(err < 1e-16, what, " misses them by ", std::sqrt(err));
  NEED(err <= given + 1e-9, what, " leaves ", err, " where ", given, " is possible");
  for (int k = 0; k < dim; k++) { double e = 0; for (auto& p : pts) e += std::pow((p - c)[k], 2); NEED(err <= e + 1e-9, what, " leaves ", err, " where ", e, " is possible"); }
  // no small turn of the normal gives a better fit
  for (int k = 0; k < dim; k++) for (double t : {-0.01, 0.01}) { V d = h.GetNormal(); d[k] += t; double e = 0; for (auto& p : pts) e += std::pow((p - c).dot(d), 2); NEED(err <= e / d.squaredNorm() + 1e-9, what, " can be improved"); }
  seen(what);
}
const std::vector<T3>& transforms()
{
  static const std::vector<T3> v = [] {
    std::vector<T3> r; const V3 ax[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, V3(1, -2, 3).normalized(), V3(-1, 1, 0).normalized()}; const V3 tr[] = {{0, 0, 0}, {1, -2, 3}};
    for (auto& t : tr) { r.push_back(T3(Eigen::Translation3d(t))); for (auto& a : ax) for (double w : {1e-12, 1e-9, 1e-5, 5e-4, 1.5e-3, 0.01, 0.1, 0.7, M_PI / 2, 3.1, M_PI - 1e-6, M_PI - 1e-9, M_PI - 1e-13, M_PI, -2.0}) r.push_back(Eigen::Translation3d(t) * Eigen::AngleAxisd(w, a)); }
    return r; }();
  return v;
}
std::string sh(const T3& t) { const Eigen::AngleAxisd a(t.linear()); return str("[", sh(V(t.translation())), " turned ", a.angle(), " about ", sh(V(a.axis())), "]"); }
// Taylor series with scaling and squaring
Eigen::Matrix4d series(const Eigen::Matrix4d& x)
{ const double s = std::ldexp(1, -20); Eigen::Matrix4d r = Eigen::Matrix4d::Zero(), term = x * s; for (int k = 2; k < 8; k++) { r += term; term = term * (x * s) / k; } for (int i = 0; i < 20; i++) r = (2 * r + r * r).eval(); return r + Eigen::Matrix4d::Identity(); }
void twists()
{
  const T3 a = pick(transforms()), b = pick(transforms()); const Tw t = m::TwistBetweenTransforms(a, b); mc::transition(2); const std::string what = str("twist between ", sh(a), " and ", sh(b), " is ", sh(V(t)));
  NEED(t.allFinite() && t.tail<3>().norm() <= M_PI + 1e-9, what); const T3 e = a * m::ExpTwist(t, 1); const double size = 1 + a.translation().norm() + b.translation().norm();
  NEED((e.matrix() - b.matrix()).norm() < 2e-8 * size, what, ", leading to ", sh(e)); const T3 half = a * m::ExpTwist(t, 0.5), e2 = half * m::ExpTwist(t, 0.5); NEED((e2.matrix() - b.matrix()).norm() < 2e-8 * size, what, ", leading in two steps to ", sh(e2));
  NEED(std::abs(t.tail<3>().norm() - Eigen::AngleAxisd(a.linear().transpose() * b.linear()).angle()) < 1e-7, what, ", not the shortest turn");
  seen(what);
}
void exponential()
{
  const VD g = mc::by_tier(VD{-1, 0, 0.5}, VD{-1, 0, 1e-9, 0.5}); Tw t; for (int i = 0; i < 6; i++) t[i] = pick(g); const double dt = pick(VD{0, 1, -0.5, 2.5}), ds = pick(VD{0.25, -1});
  const T3 e = m::ExpTwist(t, dt); mc::transition(2); const std::string what = str("exponential of ", sh(V(t)), " times ", dt);
  NEED((e.matrix() - series(m::TwistHat(t) * dt)).norm() < 1e-7, what, " is ", sh(e)); NEED((e * m::ExpTwist(t, ds)).isApprox(m::ExpTwist(t, dt + ds), 1e-7), what, " does not add up");
  NEED((e.linear() * e.linear().transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-9, what, " is not rigid");
  const Eigen::Matrix3d k = m::Skew(t.tail<3>()); const bool unit = std::abs(t.tail<3>().norm() - 1) < 1e-11, not_unit = std::abs(t.tail<3>().norm() - 1) > 1e-9; Eigen::Matrix3d x; const int thrown = mc::throws([&] { x = m::ExpMatrixExact(k, dt); });
  if (not_unit) NEED(thrown == 1, "exponential of a turn about ", sh(V(t.tail<3>())), " accepted"); if (unit) NEED(thrown == 0 && (x - Eigen::Matrix3d(Eigen::AngleAxisd(dt, V3(t.tail<3>())))).norm() < 1e-9, "exponential of a turn about ", sh(V(t.tail<3>())), " by ", dt);
  // the same motion at another speed
  if (ds == -1 && dt > 0) for (double slow : {1e-5, 1e-9, 1e-13, 1e4, 1e9})
  { const T3 f = m::ExpTwist(t * slow, dt / slow); NEED((f.matrix() - e.matrix()).norm() < 1e-6, what, " at ", slow, " times the speed for as much longer is ", sh(f)); }
  seen(what);
}
void algebra()
{
  const VD g = mc::by_tier(VD{-1, 0.5, 0}, VD{-1, 0, 0.5, 3}); Tw t; for (int i = 0; i < 6; i++) t[i] = pick(g); mc::transition(5);
  const V3 w = t.tail<3>(), u = t.head<3>(); const Eigen::Matrix3d k = m::Skew(w);
  NEED((k + k.transpose()).norm() == 0 && (k * u - w.cross(u)).norm() < 1e-12 && m::Unskew(k) == w, "skew of ", sh(V(w)));
  const Eigen::Matrix4d hat = m::TwistHat(t); NEED(m::TwistUnhat(hat) == t && hat.row(3).norm() == 0, "hat of ", sh(V(t)));
  const T3& x = transforms()[static_cast<size_t>(choose(static_cast<int>(mc::by_tier<size_t>(24, transforms().size())))) * (mc::thorough() ? 1 : 5)]; const Tw moved = m::TransformTwist(x, t);
  const Eigen::Matrix4d want = x.matrix() * hat * x.inverse().matrix(); NEED((m::TwistHat(moved) - want).norm() < 1e-9, "twist ", sh(V(t)), " transformed by ", sh(x), " is ", sh(V(moved)));
  NEED((m::AdjointFromTransform(x) * t - moved).norm() < 1e-12, "adjoint of ", sh(x));
  seen(str(sh(V(t)), sh(x)));
}
}
void mc::run()
{
  scenario("projection", [] { projection(); }, 3); scenario("orthogonal", [] { orthogonal(); }); scenario("orthogonal from a plane", [] { orthogonal_to_plane(); }, 3); scenario("planes", [] { plane(); }, 4);
  scenario("fitting", [] { fit(); }, 4); scenario("twists", [] { twists(); }); scenario("exponential", [] { exponential(); }, 3); scenario("algebra", [] { algebra(); }, 3);
  scenario("long projection", [] { long_projection(); }); scenario("long orthogonal", [] { long_orthogonal(); }); scenario("planes of many dimensions", [] { long_plane(); }); scenario("fitting many", [] { long_fit(); });
}
