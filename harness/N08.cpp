// N08: interpolation, averaging and vector operations against extended-precision definitions.
#include "mc.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <common_robotics_utilities/math.hpp>
namespace m = common_robotics_utilities::math;
MC_HARNESS("N08", "every combination of small vectors, rotations, transforms, weights and ratios from grids, against extended-precision definitions (rotation averages against an independent eigenvalue computation); a state is a distinct input")
using mc::str; using mc::vstr; using mc::choose; using mc::pick;
namespace
{
using L = long double; using VD = std::vector<double>; using Q = Eigen::Quaterniond; using T3 = Eigen::Isometry3d;
const double inf = std::numeric_limits<double>::infinity();
const VD kRatios{-inf, -1, -5e-324, 0, 1e-9, 0.25, 1.0 / 3, 0.5, 0.9999999, 1, 1.0000000000000002, 2, inf};
bool close(L a, L b, L scale = 0) { return a == b || std::fabs(a - b) <= 1e-14L * (std::fabs(a) + std::fabs(b) + scale); }
VD draw(int n, const VD& from) { VD v; for (int i = 0; i < n; i++) v.push_back(pick(from)); return v; }
Eigen::VectorXd ev(const VD& v) { return Eigen::Map<const Eigen::VectorXd>(v.data(), static_cast<ssize_t>(v.size())); }
std::string qs(const Q& q) { return str("(", q.w(), ";", q.x(), ",", q.y(), ",", q.z(), ")"); }
double angle(const Q& a, const Q& b)       // well-conditioned everywhere
{ const double d = std::min((a.coeffs() - b.coeffs()).norm(), (a.coeffs() + b.coeffs()).norm()), s = std::max((a.coeffs() - b.coeffs()).norm(), (a.coeffs() + b.coeffs()).norm()); return 4 * std::atan2(d, s); }
const std::vector<Q>& rotations()
{
  static const std::vector<Q> r = [] {
    std::vector<Q> v; v.push_back(Q::Identity());
    const Eigen::Vector3d ax[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, Eigen::Vector3d(1, -2, 3).normalized()};
    for (auto& a : ax) for (double t : {1e-5, 0.5, M_PI / 2, 2.9, M_PI}) { Q q(Eigen::AngleAxisd(t, a)); q.normalize(); v.push_back(q); }
    const size_t n = v.size(); for (size_t i = 0; i < n; i += 3) v.push_back(Q(-v[i].w(), -v[i].x(), -v[i].y(), -v[i].z()));
    return v; }();
  return r;
}
void seen(const std::string& s) { mc::Hash h; h.add(s); mc::state(h.h); }
L blend(L a, L b, double ratio) { const L c = std::min<L>(1, std::max<L>(0, ratio)); return a * (1 - c) + b * c; }
void check_blend(const char* name, double got, double a, double b, double ratio)
{
  if (!close(got, blend(a, b, ratio), std::fabs((L)a) + std::fabs((L)b))) mc::fail(str(name, " between ", a, " and ", b, " at ", ratio, " is ", got));
  if ((ratio <= 0 && got != a) || (ratio >= 1 && got != b)) mc::fail(str(name, " between ", a, " and ", b, " at ", ratio, " is ", got, ", not the end"));
}
void scalar_blend()
{
  const VD g{-1e10, -2, -0.1, 0, 1e-300, 0.3, 1, 7, 1e10, 1e300}; const double a = pick(g), b = pick(g), r = pick(kRatios);
  check_blend("interpolation", m::Interpolate(a, b, r), a, b, r); mc::transition(); seen(str(a, " ", b, " ", r));
}
void vector_blend()
{
  const int n = choose(4), k = choose(mc::by_tier(4, 5)); const VD g{-2, 0, 0.3, 7}; const VD a = draw(n, g), b = draw(k == 0 ? n : k - 1, g);
  const double r = pick(kRatios);
  if (mc::want_note()) mc::note(str(vstr(a), " ", vstr(b), " at ", r));
  VD c; const int t = mc::throws([&] { c = m::Interpolate(a, b, r); }); Eigen::VectorXd x; const int tx = mc::throws([&] { x = m::InterpolateXd(ev(a), ev(b), r); }); mc::transition(2);
  if (a.size() != b.size()) { if (t != 1 || tx != 1) mc::fail(str("interpolation between sizes ", a.size(), " and ", b.size(), " is not refused")); return; }
  if (t || tx || c.size() != a.size() || x.size() != static_cast<ssize_t>(a.size())) mc::fail(str("interpolation between ", vstr(a), " and ", vstr(b), " refused or of another size"));
  for (int i = 0; i < n; i++) { check_blend("vector interpolation", c[static_cast<size_t>(i)], a[static_cast<size_t>(i)], b[static_cast<size_t>(i)], r); check_blend("dynamic vector interpolation", x[i], a[static_cast<size_t>(i)], b[static_cast<size_t>(i)], r); }
  seen(str(vstr(a), vstr(b), r));
}
void fixed_blend()
{
  const VD g{-2, 0, 0.3}; const VD a = draw(4, g), b = draw(4, mc::thorough() ? g : VD{1, -2}); const double r = pick(VD{-1, 0, 0.25, 0.5, 1, 2});
  const Eigen::Vector3d x(a[0], a[1], a[2]), y(b[0], b[1], b[2]); const Eigen::Vector4d u(a[0], a[1], a[2], a[3]), w(b[0], b[1], b[2], b[3]);
  const auto z = m::Interpolate3d(x, y, r); const auto v = m::Interpolate4d(u, w, r); mc::transition(2);
  for (int i = 0; i < 4; i++) { if (i < 3) check_blend("3d interpolation", z[i], x[i], y[i], r); check_blend("4d interpolation", v[i], u[i], w[i], r); }
  seen(str(vstr(a), vstr(b), r));
}
void check_turn(const Q& got, const Q& a, const Q& b, double ratio, const std::string& what)
{
  const double c = std::min(1.0, std::max(0.0, ratio)), whole = angle(a, b);
  if (!(std::abs(got.norm() - 1) < 1e-9)) mc::fail(what + str(" is not a rotation: ", qs(got)));
  if (!(std::abs(angle(a, got) - c * whole) < 1e-7) || !(std::abs(angle(got, b) - (1 - c) * whole) < 1e-7)) mc::fail(what + str(" is ", qs(got), ", ", angle(a, got), " from the first of ", whole));
}
void rotation_blend()
{
  const Q a = pick(rotations()), b = pick(rotations()); const double r = pick(VD{-1, 0, 1e-9, 0.25, 1.0 / 3, 0.5, 0.9, 1, 3});
  const Q q = m::Interpolate(a, b, r); mc::transition();
  check_turn(q, a, b, r, str("interpolation between ", qs(a), " and ", qs(b), " at ", r));
  const double d = m::Distance(a, b);
  if (!(std::abs(d - angle(a, b)) < 1e-6)) mc::fail(str("distance between ", qs(a), " and ", qs(b), " is ", d));
  seen(str(qs(a), qs(b), r));
}
void transform_blend()
{
  static const VD g{-1, 0, 2.5}; const Q a = pick(rotations()), b = rotations()[static_cast<size_t>(choose(mc::by_tier(8, (int)rotations().size())))];
  const Eigen::Vector3d p(pick(g), 1, -1), s(0.5, pick(g), 3); const double r = pick(VD{-1, 0, 0.25, 0.5, 1, 3});
  const T3 x = Eigen::Translation3d(p) * a, y = Eigen::Translation3d(s) * b; const T3 z = m::Interpolate(x, y, r); mc::transition();
  for (int i = 0; i < 3; i++) check_blend("translation", z.translation()[i], p[i], s[i], r);
  if (!((z.linear() * z.linear().transpose() - Eigen::Matrix3d::Identity()).norm() < 1e-9) || !(z.linear().determinant() > 0) || z(3, 3) != 1) mc::fail("interpolated transform is not rigid");
  check_turn(Q(z.linear()).normalized(), a, b, r, str("interpolation between transforms with rotations ", qs(a), " and ", qs(b), " at ", r));
  for (double al : {-1.0, 0.0, 0.3, 1.0, 2.0})
  {
    const double c = std::min(1.0, std::max(0.0, al)), d = m::Distance(x, y, al), want = (1 - c) * (p - s).norm() + c * angle(a, b);
    if (!(std::abs(d - want) < 1e-6)) mc::fail(str("distance between transforms with rotations ", qs(a), " and ", qs(b), " weighted ", al, " is ", d, ", not ", want));
  }
  seen(str(qs(a), qs(b), r, p[0], s[1]));
}
// far from the origin, and apart by little: a small difference is still a difference
void fine_blend()
{
  const double far = pick(VD{0, 1, 1e3, 1e8, 3e8}), step = far == 0 ? pick(VD{1e-12, 1e-6, 1.0}) : far * pick(VD{0, 1e-10, 1e-6, 0.25}), r = pick(VD{0, 0.25, 0.5, 1}), turn = pick(VD{0, 1e-10, 1e-6, 1e-3, 0.5});
  const Eigen::Vector3d ax = pick(std::vector<Eigen::Vector3d>{{1, 0, 0}, Eigen::Vector3d(1, -2, 3).normalized()}), p(far, -far / 3, 1), s(far + step, -far / 3 - step, 1 + step);
  const Q a(Eigen::AngleAxisd(pick(VD{0, 0.7, 2.9}), ax)), b = (Q(Eigen::AngleAxisd(turn, ax.unitOrthogonal())) * a).normalized();
  const std::string what = str("between rotations ", turn, " apart, at ", vstr(VD{p[0], p[1], p[2]}), " and ", vstr(VD{s[0], s[1], s[2]}), ", ratio ", r);
  const auto part = [&](const char* name, double got, double from, double to) {   // the deviation relative to what separates the two, and to the representation of the ends
    const L want = blend(from, to, r); if (!(std::fabs(got - want) <= 1e-9L * std::fabs((L)to - from) + 1e-15L * (std::fabs((L)from) + std::fabs((L)to)))) mc::fail(str(name, " interpolation ", what, ": ", got, " from ", from, " to ", to)); };
  const T3 x = Eigen::Translation3d(p) * a, y = Eigen::Translation3d(s) * b, z = m::Interpolate(x, y, r); const Q q = m::Interpolate(a, b, r), t = Q(z.linear()); const Eigen::Vector3d v = m::Interpolate3d(p, s, r);
  const auto xd = m::InterpolateXd(p, s, r); const auto sv = m::Interpolate(VD{p[0], p[1], p[2]}, VD{s[0], s[1], s[2]}, r); const Eigen::Vector4d w = m::Interpolate4d(Eigen::Vector4d(p[0], p[1], p[2], 1), Eigen::Vector4d(s[0], s[1], s[2], 1), r); mc::transition(6);
  for (int i = 0; i < 3; i++)
  {
    part("transform", z.translation()[i], p[i], s[i]); part("3d", v[i], p[i], s[i]); part("dynamic", xd[i], p[i], s[i]); part("vector", sv[static_cast<size_t>(i)], p[i], s[i]); part("4d", w[i], p[i], s[i]); part("scalar", m::Interpolate(p[i], s[i], r), p[i], s[i]);
  }
  for (int k = 0; k < 2; k++) if (!(std::abs(angle(a, k ? t : q) - r * turn) < 1e-14 + 1e-7 * turn) || !(std::abs(angle(k ? t : q, b) - (1 - r) * turn) < 1e-14 + 1e-7 * turn)) mc::fail(str("rotation ", k ? "of the transform " : "", "interpolated ", what, " is ", angle(a, k ? t : q), " from the first"));
  for (double e : {1e-12, -1e-12, 1e-9, -1e-9}) for (int i = 0; i < 3; i++)
  {
    const L gap = std::fabs((L)s[i] - p[i]); const double th = double(gap * (1 + e)); if (!(th > 1e-290)) continue; Eigen::Vector3d moved = p; moved[i] = s[i];
    if (m::CloseEnough(p[i], s[i], th) != (gap <= th)) mc::fail(str("closeness of ", p[i], " and ", s[i], " to ", th));
    if (m::CloseEnough(p, moved, e < 0 ? -th : th) != (gap <= th)) mc::fail(str("closeness of ", p.transpose(), " and ", moved.transpose(), " to ", th));
  }
  // distances to the same relative accuracy
  const double d = (L)0 + m::Distance(p, s), want = (s - p).norm(); if (!(std::abs(d - want) <= 1e-12 * want)) mc::fail(str("distance ", what, " is ", d));
  seen(what);
}
void lookup()
{
  const VD g = mc::by_tier(VD{-1, 2.5}, VD{-1, 0, 2.5}); const int dim = 1 + choose(3); const int corners = 1 << dim; VD c = draw(corners, dim == 3 ? VD{-1, 2.5} : g);
  const VD lo{-1, 0.5, 2}, hi{1, 3.5, 2.25}; const VD at{0, 0.25, 0.5, 1, -0.5, 1.5, 1.0 / 3}; VD f = draw(dim, dim == 3 ? VD{0, 0.3, 1, 1.5} : at);
  L want = 0; for (int k = 0; k < corners; k++) { L w = 1; for (int d = 0; d < dim; d++) w *= (k >> (dim - 1 - d)) & 1 ? (L)f[static_cast<size_t>(d)] : 1 - (L)f[static_cast<size_t>(d)]; want += w * c[static_cast<size_t>(k)]; }
  double q[3]; for (int d = 0; d < dim; d++) { const size_t i = static_cast<size_t>(d); q[d] = lo[i] + f[i] * (hi[i] - lo[i]); }
  double got = 0; const bool vec = mc::flip();
  auto run = [&](auto make, auto unmake) {
    using V = decltype(make(1.0));
    if (dim == 1) return unmake(m::LinearInterpolate<V>(lo[0], hi[0], make(c[0]), make(c[1]), q[0]));
    if (dim == 2) return unmake(m::BilinearInterpolate<V>({lo[0], lo[1]}, {hi[0], hi[1]}, make(c[0]), make(c[1]), make(c[2]), make(c[3]), {q[0], q[1]}));
    return unmake(m::TrilinearInterpolate<V>({lo[0], lo[1], lo[2]}, {hi[0], hi[1], hi[2]}, make(c[0]), make(c[1]), make(c[2]), make(c[3]), make(c[4]), make(c[5]), make(c[6]), make(c[7]), {q[0], q[1], q[2]}));
  };
  if (vec) got = run([](double x) { return Eigen::Vector2d(x, 7); }, [](const Eigen::Vector2d& x) { return std::abs(x[1] - 7) < 1e-12 ? x[0] : std::nan(""); });
  else got = run([](double x) { return x; }, [](double x) { return x; });
  mc::transition();
  if (!(std::fabs(got - want) < 1e-12L)) mc::fail(str(dim, "-linear lookup of ", vstr(c), " at ", vstr(f), " is ", got, ", not ", (double)want));
  seen(str(dim, vstr(c), vstr(f)));
}
// long inputs: sizes around powers of two and beyond, contents from simple patterns of values with few bits
const std::vector<int>& sizes() { static const std::vector<int> s{5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000}; return s; }
VD pattern(int n)
{
  const int kind = choose(4), seed = choose(3); VD v;
  for (int i = 0; i < n; i++)
  {
    const int h = (i * 7919 + seed * 104729 + 13) % 23;
    v.push_back(kind == 0 ? (h - 11) * 0.3 : kind == 1 ? (i + seed) % 5 - 2 : kind == 2 ? (i == n - 1 - seed ? 3.0 : 0.0) : (i < n / 2 ? 0.0 : 1.0 + seed));
  }
  return v;
}
void averages_of(const VD& v, const VD& w);
void averages()
{
  const int n = choose(5); const VD g = n == 4 ? VD{-0.1, 5} : VD{-1, 0, 2.3, 5}; const VD wg = n == 4 ? VD{0, 1, -0.7} : VD{0, 1, 1.0 / 3, -1, 0.5}; const VD v = draw(n, g); const int k = choose(3);
  VD w; if (k == 1) w = draw(n, wg); if (k == 2) w = VD(static_cast<size_t>(n == 0 ? 1 : choose(2) ? n + 1 : n - 1), 1.0);
  averages_of(v, w);
}
void long_averages() { const int n = pick(sizes()); const VD v = pattern(n); VD w; if (mc::flip()) w = pattern(n); averages_of(v, w); }
void averages_of(const VD& v, const VD& w)
{
  if (mc::want_note()) mc::note(str("average of ", vstr(v), " weighted ", vstr(w)));
  L sum = 0, all = 0; for (size_t i = 0; i < v.size() && (w.empty() || i < w.size()); i++) { const L x = w.empty() ? 1 : std::fabs((L)w[i]); sum += x * v[i]; all += x; }
  const bool refuse = v.empty() || (!w.empty() && (w.size() != v.size() || all == 0)); const L want = all != 0 ? sum / all : 0;
  const std::string what = str("average of ", vstr(v), " weighted ", vstr(w));
  auto judge = [&](const char* name, const std::function<Eigen::VectorXd()>& f, const VD& scale) {
    Eigen::VectorXd got; const int t = mc::throws([&] { got = f(); }); mc::transition();
    if (refuse != (t == 1)) mc::fail(what + " (" + name + ")" + (t ? " refused" : " accepted"));
    if (!t) for (size_t i = 0; i < scale.size(); i++) if (!(std::fabs(got[static_cast<ssize_t>(i)] - want * scale[i]) < 1e-12L)) mc::fail(what + str(" (", name, ") is ", got[static_cast<ssize_t>(i)], ", not ", (double)(want * scale[i])));
  };
  judge("scalar", [&] { return ev({m::AverageStdVectorDouble(v, w)}); }, {1});
  judge("revolute", [&] { return ev({m::AverageContinuousRevolute(v, w)}); }, {1});
  m::VectorVector3d v3; m::VectorVector4d v4; std::vector<Eigen::VectorXd> vx; m::VectorIsometry3d vt; std::vector<Eigen::Vector2f> vf;
  for (double x : v) { v3.emplace_back(x, 2 * x, -x); v4.emplace_back(x, 0, -x, 3 * x); vx.push_back(ev({x, -2 * x})); vt.push_back(T3(Eigen::Translation3d(x, 2 * x, -x))); vf.emplace_back(x, -x); }
  judge("3d", [&] { return m::AverageEigenVector3d(v3, w); }, {1, 2, -1}); judge("4d", [&] { return m::AverageEigenVector4d(v4, w); }, {1, 0, -1, 3});
  judge("dynamic", [&] { return m::AverageEigenVectorXd(vx, w); }, {1, -2}); judge("any", [&] { return m::AverageEigenVector(v3, w); }, {1, 2, -1});
  judge("transform", [&] { const T3 t = m::AverageEigenIsometry3d(vt, w); if ((t.linear() - Eigen::Matrix3d::Identity()).norm() > 1e-9) mc::fail(what + " of translations rotates"); return Eigen::VectorXd(t.translation()); }, {1, 2, -1});
  if (w.empty())
  {
    double sd = 0, sm = 0; const int t = mc::throws([&] { sd = m::ComputeStdDevStdVectorDouble(v); }), u = mc::throws([&] { sm = m::ComputeStdDevStdVectorDouble(v, 1.5); });
    if (v.empty() != (t == 1) || v.empty() != (u == 1)) mc::fail(str("deviation of ", vstr(v), t ? " refused" : " accepted"));
    L a = 0, b = 0; for (double x : v) { a += (x - want) * (x - want); b += (x - 1.5L) * (x - 1.5L); }
    const L den = v.size() > 1 ? v.size() - 1 : 1; const L wa = v.size() > 1 ? std::sqrt(a / den) : 0, wb = v.size() > 1 ? std::sqrt(b / den) : 0;
    if (!v.empty() && (!(std::fabs(sd - wa) < 1e-12L) || !(std::fabs(sm - wb) < 1e-12L))) mc::fail(str("deviation of ", vstr(v), " is ", sd, " and about 1.5 ", sm));
  }
  seen(what);
}
// largest eigenvalue of a symmetric matrix by Jacobi rotations
double largest_eigenvalue(std::array<std::array<double, 4>, 4> a)
{
  for (int sweep = 0; sweep < 30; sweep++) for (int p = 0; p < 4; p++) for (int q = p + 1; q < 4; q++)
  {
    if (std::abs(a[p][q]) < 1e-300) continue;
    const double th = (a[q][q] - a[p][p]) / (2 * a[p][q]), t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c;
    for (int k = 0; k < 4; k++) { const double x = a[k][p], y = a[k][q]; a[k][p] = c * x - s * y; a[k][q] = s * x + c * y; }
    for (int k = 0; k < 4; k++) { const double x = a[p][k], y = a[q][k]; a[p][k] = c * x - s * y; a[q][k] = s * x + c * y; }
  }
  return std::max(std::max(a[0][0], a[1][1]), std::max(a[2][2], a[3][3]));
}
void rotation_averages()
{
  const bool many = mc::flip(); const int n = many ? pick(std::vector<int>{4, 5, 8, 16, 17, 40, 100}) : choose(4); m::VectorQuaterniond v; std::string what = "average of";
  const Q around = many ? rotations()[static_cast<size_t>(choose(static_cast<int>(rotations().size())))] : Q::Identity(); const int spread = many ? choose(3) : 0;
  if (many) for (int i = 0; i < n; i++)
  {   // scattered around one rotation, some as the opposite quaternion
    const double t = 0.01 * std::pow(10, spread) * (((i * 31 + 7) % 13) - 6) / 6.0; Q q = around * Q(Eigen::AngleAxisd(t, Eigen::Vector3d(1 + i % 3, (i * 5) % 4 - 1, (i * 3) % 5 - 2).normalized())); q.normalize();
    if (i % 4 == 3) q.coeffs() = -q.coeffs();
    v.push_back(q);
  }
  if (many) what += str(" ", n, " around ", qs(around), " spread ", spread);
  const size_t span = mc::by_tier<size_t>(n == 3 ? 9 : rotations().size(), rotations().size());
  if (!many) for (int i = 0; i < n; i++) { const size_t k = static_cast<size_t>(choose(static_cast<int>(span))); v.push_back(rotations()[span == rotations().size() ? k : k * 3]); what += " " + qs(v.back()); }
  VD w; const int kind = choose(3); if (kind == 1 && many) w = pattern(n); else if (kind == 1) w = draw(n, n == 3 ? VD{0, 1, -2} : VD{0, 1, 2, -1}); if (kind == 2) w = VD(static_cast<size_t>(n + 1), 1.0);
  what += " weighted " + vstr(w);
  Q got; const int t = mc::throws([&] { got = m::AverageEigenQuaterniond(v, w); }); mc::transition();
  bool zero = true; for (double x : w) if (x != 0) zero = false;
  const bool refuse = v.empty() || (!w.empty() && (w.size() != v.size() || zero));
  m::VectorIsometry3d ts; for (auto& q : v) ts.push_back(T3(q));
  T3 tr; const int tt = mc::throws([&] { tr = m::AverageEigenIsometry3d(ts, w); });
  if (refuse != (t == 1) || refuse != (tt == 1)) mc::fail(what + (t || tt ? " refused" : " accepted"));
  if (refuse) { seen(what); return; }
  if (!(std::abs(got.norm() - 1) < 1e-9)) mc::fail(what + " is not a rotation: " + qs(got));
  // the rotation that agrees best with the items: maximal sum of (weight * cosine of half the angle)^2
  std::array<std::array<double, 4>, 4> mat{}; double score = 0, score2 = 0; const Q g2(tr.linear());
  for (size_t i = 0; i < v.size(); i++)
  {
    const double x = w.empty() ? 1 : w[i]; const double e[4] = {v[i].w(), v[i].x(), v[i].y(), v[i].z()};
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) mat[a][b] += x * x * e[a] * e[b];
    score += x * x * std::pow(v[i].coeffs().dot(got.coeffs()), 2); score2 += x * x * std::pow(v[i].coeffs().dot(g2.coeffs()), 2);
  }
  const double best = largest_eigenvalue(mat);
  if (!(score > best - 1e-9 * (1 + best))) mc::fail(what + str(" is ", qs(got), ", agreeing ", score, " where ", best, " is possible"));
  if (!(score2 > best - 1e-9 * (1 + best))) mc::fail(what + str(" (transforms) is ", qs(g2), ", agreeing ", score2, " where ", best, " is possible"));
  seen(what);
}
void operations_on(const VD& a, const VD& b, double s);
void vector_operations()
{
  const VD g{-2, -0.5, 0, 1, 3}; const int n = choose(4), k = choose(3); const VD a = draw(n, n == 3 ? VD{-2, 0, 3} : g), b = draw(k == 0 ? n : k == 1 ? n + 1 : std::max(0, n - 1), n == 3 ? VD{-2, 0, 1} : g);
  operations_on(a, b, pick(g));
}
void long_operations() { const int n = pick(sizes()); const VD a = pattern(n); const int k = choose(4); VD b = pattern(k == 0 ? n + 1 : k == 1 ? n - 1 : n); operations_on(a, b, pick(VD{-2, 0.25, 3})); }
void operations_on(const VD& a, const VD& b, double s)
{
  const int n = static_cast<int>(a.size()); if (mc::want_note()) mc::note(str(vstr(a), " ", vstr(b), " ", s));
  const std::string what = str(vstr(a), " and ", vstr(b), " and ", s, ": ");
  L sq = 0, sum = 0, dd = 0; for (size_t i = 0; i < a.size(); i++) { sq += (L)a[i] * a[i]; sum += a[i]; if (i < b.size()) dd += ((L)a[i] - b[i]) * ((L)a[i] - b[i]); }
  if (!close(m::SquaredNorm(a), sq) || !close(m::Norm(a), std::sqrt(sq)) || !close(m::Sum(a), sum, 10)) mc::fail(what + "norm or sum");
  auto each = [&](const char* name, const VD& got, const std::function<L(size_t)>& want) {
    if (got.size() != a.size()) mc::fail(what + name + " has another size");
    for (size_t i = 0; i < a.size(); i++) { const L x = want(i); if (!(close(got[i], x) || (std::isnan(got[i]) && std::isnan(x)))) mc::fail(what + name + str(" gives ", vstr(got))); } mc::transition(); };
  each("absolute", m::Abs(a), [&](size_t i) { return std::fabs((L)a[i]); });
  each("times scalar", m::Multiply(a, s), [&](size_t i) { return (L)a[i] * s; });
  each("plus scalar", m::Add(a, s), [&](size_t i) { return (L)a[i] + s; }); each("minus scalar", m::Sub(a, s), [&](size_t i) { return (L)a[i] - s; });
  if (s != 0) each("by scalar", m::Divide(a, s), [&](size_t i) { return (L)a[i] / s; });
  const bool fits = a.size() == b.size();
  auto both = [&](const char* name, const std::function<VD()>& f, const std::function<L(size_t)>& want) {
    VD got; const int t = mc::throws([&] { got = f(); }); if (fits == (t == 1)) mc::fail(what + name + (t ? " refused" : " accepted")); if (fits) each(name, got, want); };
  both("times", [&] { return m::Multiply(a, b); }, [&](size_t i) { return (L)a[i] * b[i]; });
  both("plus", [&] { return m::Add(a, b); }, [&](size_t i) { return (L)a[i] + b[i]; }); both("minus", [&] { return m::Sub(a, b); }, [&](size_t i) { return (L)a[i] - b[i]; });
  both("by", [&] { return m::Divide(a, b); }, [&](size_t i) { return (L)a[i] / b[i]; });
  auto far = [&](const char* name, const std::function<double()>& f, L want, bool refusable) {
    double d = 0; const int t = mc::throws([&] { d = f(); }); mc::transition(); if (fits == (t == 1) && refusable) mc::fail(what + name + (t ? " refused" : " accepted"));
    if (fits && !close(d, want)) mc::fail(what + name + str(" is ", d)); };
  far("squared distance", [&] { return m::SquaredDistance(a, b); }, dd, true); far("distance", [&] { return m::Distance(a, b); }, std::sqrt(dd), true);
  far("dynamic squared distance", [&] { return m::SquaredDistance(ev(a), ev(b)); }, dd, true); far("dynamic distance", [&] { return m::Distance(ev(a), ev(b)); }, std::sqrt(dd), true);
  if (fits && n == 2) { far("2d", [&] { return m::Distance(Eigen::Vector2d(a[0], a[1]), Eigen::Vector2d(b[0], b[1])); }, std::sqrt(dd), true); far("2d squared", [&] { return m::SquaredDistance(Eigen::Vector2d(a[0], a[1]), Eigen::Vector2d(b[0], b[1])); }, dd, true); }
  if (fits && n == 3)
  {
    const Eigen::Vector3d x(a[0], a[1], a[2]), y(b[0], b[1], b[2]);
    far("3d", [&] { return m::Distance(x, y); }, std::sqrt(dd), true); far("3d squared", [&] { return m::SquaredDistance(x, y); }, dd, true);
    if (m::Equal3d(x, y) != (a == b)) mc::fail(what + "equality");
    for (double th : {0.0, 1.0, -1.0, 3.0}) { bool want = true; for (size_t i = 0; i < 3; i++) if (std::abs(a[i] - b[i]) > std::abs(th)) want = false; if (m::CloseEnough(x, y, th) != want) mc::fail(what + str("closeness to ", th)); }
    const Eigen::Vector4d x4(a[0], a[1], a[2], s), y4(b[0], b[1], b[2], 1); if (m::Equal4d(x4, y4) != (a == b && s == 1)) mc::fail(what + "4d equality");
  }
  if (fits && n == 1) for (double th : {0.0, 0.5, -1.5, 3.0}) if (m::CloseEnough(a[0], b[0], th) != (std::abs(a[0] - b[0]) <= std::abs(th))) mc::fail(what + str("closeness to ", th));
  if (n > 0 && s >= 0)
  {
    const Eigen::MatrixXd c = m::ClampNorm(ev(a), s); const L nm = std::sqrt(sq), f = nm > s ? s / nm : 1;
    for (int i = 0; i < n; i++) if (!close(c(i, 0), f * a[static_cast<size_t>(i)], 1)) mc::fail(what + "clamped norm");
  }
  seen(what);
}
void weighted_of(const VD& a, const VD& b, const VD& w);
void weighted()
{
  const int n = 1 + choose(3); const VD g{-2, 0, 0.5, 3}; const VD a = draw(n, n == 3 ? VD{-2, 0, 3} : g), b = draw(n, n == 3 ? VD{-2, 0, 3} : g), w = draw(n, {0, 1, 2.5});
  weighted_of(a, b, w);
}
void long_weighted() { const int n = pick(sizes()); const VD a = pattern(n), b = pattern(n); VD w = pattern(n); for (double& x : w) x = std::abs(x); weighted_of(a, b, w); }
void weighted_of(const VD& a, const VD& b, const VD& w)
{
  L d = 0, x = 0, y = 0; for (size_t i = 0; i < a.size(); i++) { d += (L)a[i] * b[i] * w[i]; x += (L)a[i] * a[i] * w[i]; y += (L)b[i] * b[i] * w[i]; }
  const std::string what = str(vstr(a), " and ", vstr(b), " weighted ", vstr(w), ": ");
  if (!close(m::WeightedDotProduct(ev(a), ev(b), ev(w)), d, 30) || !close(m::WeightedSquaredNorm(ev(a), ev(w)), x) || !close(m::WeightedNorm(ev(a), ev(w)), std::sqrt(x))) mc::fail(what + "product or norm");
  double c = 0, an = 0; const int t = mc::throws([&] { c = m::WeightedCosineAngleBetweenVectors(ev(a), ev(b), ev(w)); }), u = mc::throws([&] { an = m::WeightedAngleBetweenVectors(ev(a), ev(b), ev(w)); }); mc::transition(5);
  const bool refuse = x == 0 || y == 0; if (refuse != (t == 1) || refuse != (u == 1)) mc::fail(what + (t ? "angle refused" : "angle accepted"));
  if (!refuse) { const L want = d / std::sqrt(x * y); if (!(c >= -1 && c <= 1) || std::fabs(c - want) > 1e-12L || !(an >= 0 && an <= M_PI) || std::fabs(std::cos((L)an) - want) > 1e-12L) mc::fail(what + str("cosine ", c, ", angle ", an)); }
  seen(what);
}
}
void mc::run()
{
  scenario("scalars", [] { scalar_blend(); }); scenario("vectors", [] { vector_blend(); }, 4); scenario("fixed vectors", [] { fixed_blend(); }, 3);
  scenario("rotations", [] { rotation_blend(); }); scenario("transforms", [] { transform_blend(); }); scenario("fine differences", [] { fine_blend(); }); scenario("lookup", [] { lookup(); }, 4);
  scenario("averages", [] { averages(); }, 4); scenario("rotation averages", [] { rotation_averages(); }, 3); scenario("vector operations", [] { vector_operations(); }, 4); scenario("weighted products", [] { weighted(); }, 4);
  scenario("long averages", [] { long_averages(); }); scenario("long vector operations", [] { long_operations(); }); scenario("long weighted products", [] { long_weighted(); });
}
