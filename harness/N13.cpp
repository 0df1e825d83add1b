// N13: roll-pitch-yaw and vector conversions.
#include "mc.hpp"
#include <cmath>
#include <vector>
#include <Eigen/Geometry>
#include <common_robotics_utilities/conversions.hpp>
namespace c = common_robotics_utilities::conversions;
MC_HARNESS("N13", "every triple of angles from a grid of fractions of a turn with gimbal-lock angles and their neighbours x offsets; vectors of every small size over a grid; a state is a distinct input")
using mc::str;
namespace
{
using M3 = Eigen::Matrix3d; using V3 = Eigen::Vector3d;
M3 about(int axis, double t)
{ M3 m = M3::Identity(); const int i = (axis + 1) % 3, j = (axis + 2) % 3; m(i, i) = m(j, j) = std::cos(t); m(i, j) = -std::sin(t); m(j, i) = std::sin(t); return m; }
void same(const M3& got, const M3& want, const std::string& what, double tol = 1e-9)
{ if (!((got - want).cwiseAbs().maxCoeff() < tol)) mc::fail(str(what, " gives\n", got, "\nnot\n", want)); }
std::vector<double> angles()
{
  std::vector<double> a; const int n = mc::by_tier(4, 12);
  for (int k = -2 * n; k <= 2 * n; k++) a.push_back(M_PI * k / n);
  for (double x : {M_PI_2, -M_PI_2, M_PI}) for (double e : {1e-4, 1e-7, 1e-9, 1e-12}) { a.push_back(x - e); a.push_back(x + e); }
  a.push_back(1e-9); a.push_back(0.3); a.push_back(-2.1); a.push_back(20.0);
  return a;
}
const std::vector<V3>& offsets() { static const std::vector<V3> o{{0, 0, 0}, {1, -2, 3.5}, {-1e6, 1e-6, 0.1}}; return o; }
void moved(const Eigen::Isometry3d& t, const V3& o, const M3& r, const std::string& what)
{
  mc::transition();
  if (t.translation() != o) mc::fail(str(what, " moves by ", t.translation().transpose()));
  same(t.linear(), r, what); if (t.matrix().row(3) != Eigen::RowVector4d(0, 0, 0, 1)) mc::fail(what + " has a bottom row of its own");
}
}  // namespace
void mc::run()
{
  scenario("angles", [] () {
    const std::vector<double> all = angles(); const double a = pick(all), b = pick(all);
    for (double d : all)
    {
      const M3 want = about(0, a) * about(1, b) * about(2, d), urdf = about(2, d) * about(1, b) * about(0, a); transition(12);
      const std::string at = str(" of (", a, ",", b, ",", d, ")");
      const Eigen::Quaterniond q = c::QuaternionFromRPY(a, b, d), p = c::QuaternionFromUrdfRPY(a, b, d);
      if (std::fabs(q.norm() - 1) > 1e-12 || std::fabs(p.norm() - 1) > 1e-12) mc::fail("quaternion" + at + " is not a unit");
      same(q.toRotationMatrix(), want, "quaternion" + at); same(p.toRotationMatrix(), urdf, "URDF quaternion" + at);
      for (const V3& o : offsets())
      {
        Eigen::VectorXd six(6); six << o, a, b, d; const V3 rpy(a, b, d);
        moved(c::TransformFromXYZRPY(o.x(), o.y(), o.z(), a, b, d), o, want, "transform" + at); moved(c::TransformFromRPY(o, rpy), o, want, "transform from vectors" + at); moved(c::TransformFromRPY(six), o, want, "transform from components" + at);
        moved(c::TransformFromUrdfXYZRPY(o.x(), o.y(), o.z(), a, b, d), o, urdf, "URDF transform" + at); moved(c::TransformFromUrdfRPY(o, rpy), o, urdf, "URDF transform from vectors" + at); moved(c::TransformFromUrdfRPY(six), o, urdf, "URDF transform from components" + at);
        const Eigen::Isometry3d t = c::TransformFromRPY(six); const Eigen::VectorXd back = c::TransformToRPY(t); transition(2);
        if (back.size() != 6 || V3(back.head<3>()) != o) mc::fail("the offset is lost converting the transform" + at + " back");
        moved(c::TransformFromRPY(back), o, want, "back and forth transform" + at);
        if (V3(back.tail<3>()) != c::EulerAnglesFromIsometry3d(t)) mc::fail("angles alone and with the offset differ for the transform" + at);
      }
      for (const auto& e : {c::EulerAnglesFromQuaternion(q), c::EulerAnglesFromRotationMatrix(want), c::EulerAnglesFromQuaternion(Eigen::Quaterniond(-q.w(), -q.x(), -q.y(), -q.z()))})
        same(about(0, e.x()) * about(1, e.y()) * about(2, e.z()), want, "back and forth rotation" + at, 1e-7);
      Hash h; h.add(a).add(b).add(d); mc::state(h.h);
    }
  });
  scenario("sizes", [] () {
    const int n = choose(by_tier(10, 20)); std::vector<double> v(size_t(n), 0.0); for (int i = 0; i < n; i++) v[size_t(i)] = (i % 2 ? -1 : 1) * (i + 0.1) * 0.37;
    Eigen::VectorXd x(n); for (int i = 0; i < n; i++) x(i) = v[size_t(i)];
    transition(8); const Eigen::VectorXd y = c::StdVectorDoubleToEigenVectorXd(v);
    if (y.size() != n || (n && y != x)) mc::fail(str("vector of ", n, " changes"));
    if (c::EigenVectorXdToStdVectorDouble(x) != v) mc::fail(str("vector of ", n, " changes on the way back"));
    V3 three; Eigen::Quaterniond q; Eigen::Isometry3d t;
    auto only = [&] (int size, const char* what, const std::function<void()>& f) { if (throws(f) != (n == size ? 0 : 1)) mc::fail(str(what, " from ", n, " elements is ", n == size ? "refused" : "not refused")); };
    only(3, "3-vector", [&] { three = c::StdVectorDoubleToEigenVector3d(v); }); only(4, "quaternion", [&] { q = c::StdVectorDoubleToEigenQuaterniond(v); });
    only(6, "transform", [&] { t = c::TransformFromRPY(x); }); only(6, "URDF transform", [&] { t = c::TransformFromUrdfRPY(x); });
    if (n == 3 && (three != V3(v[0], v[1], v[2]) || c::EigenVector3dToStdVectorDouble(three) != v)) mc::fail("3-vector changes");
    if (n == 4 && (q.x() != v[0] || q.y() != v[1] || q.z() != v[2] || q.w() != v[3] || c::EigenQuaterniondToStdVectorDouble(q) != v)) mc::fail("quaternion changes its element order");
    mc::state(uint64_t(n));
  });
  scenario("elements", [] () {
    const std::vector<double> grid{0.0, 1.0, -2.5, 1e300, 5e-324, INFINITY, -INFINITY}; std::vector<double> v; const int n = choose(5); for (int i = 0; i < n; i++) v.push_back(pick(grid)); transition(2);
    if (c::EigenVectorXdToStdVectorDouble(c::StdVectorDoubleToEigenVectorXd(v)) != v) mc::fail("vector does not round-trip");
    if (n == 3 && c::EigenVector3dToStdVectorDouble(c::StdVectorDoubleToEigenVector3d(v)) != v) mc::fail("3-vector does not round-trip");
    if (n == 4 && c::EigenQuaterniondToStdVectorDouble(c::StdVectorDoubleToEigenQuaterniond(v)) != v) mc::fail("quaternion does not round-trip");
    Hash h; h.addv(v); mc::state(h.h);
  });
}
