// N16: conversions between ROS messages and Eigen types, for both ROS generations.
#include "mc.hpp"
#include <cmath>
#include <cstring>
#include <list>
#include <vector>
#include <common_robotics_utilities/ros_conversions.hpp>
#include <common_robotics_utilities/ros_helpers.hpp>
namespace c = common_robotics_utilities::ros_conversions;
namespace rh = common_robotics_utilities::ros_helpers;
MC_HARNESS("N16", "every point, vector and quaternion over grids of values incl. extremes, every rotation of a grid x offsets, collections of every small and some large sizes, every pair of names; a state is a distinct input")
using mc::str; using mc::pick; using mc::choose; using mc::transition;
namespace
{
using V3 = Eigen::Vector3d; using V4 = Eigen::Vector4d; using M3 = Eigen::Matrix3d; using Q = Eigen::Quaterniond; using I3 = Eigen::Isometry3d;
bool eq(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
template<typename P> bool is(const P& p, double x, double y, double z) { return eq(p.x, x) && eq(p.y, y) && eq(p.z, z); }
bool is(const V3& p, double x, double y, double z) { return eq(p(0), x) && eq(p(1), y) && eq(p(2), z); }
template<typename T> T three(double x, double y, double z) { T t; t.x = x; t.y = y; t.z = z; return t; }
c::GeometryQuaternion quat(double w, double x, double y, double z) { c::GeometryQuaternion q; q.w = w; q.x = x; q.y = y; q.z = z; return q; }
#define OK(cond, ...) do { if (!(cond)) mc::fail(str(__VA_ARGS__)); } while (0)
/// The rotation matrix of a unit quaternion.
M3 turn(double w, double x, double y, double z)
{
  M3 m; m << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return m;
}
struct R { double w, x, y, z; };
const std::vector<R>& turns()
{
  static const std::vector<R> all = [] {
    std::vector<R> v; const int n = mc::by_tier(2, 3);
    for (int w = -n; w <= n; w++) for (int x = -n; x <= n; x++) for (int y = -n; y <= n; y++) for (int z = -n; z <= n; z++)
    { const double l = std::sqrt(double(w * w + x * x + y * y + z * z)); if (l > 0) v.push_back({w / l, x / l, y / l, z / l}); }
    for (double e : {1e-3, 1e-6, 1e-9, 1e-13}) for (int a = 0; a < 3; a++) for (double s : {-1.0, 1.0})
    {
      double q[4] = {1, 0, 0, 0}; q[1 + a] = s * e; double l = std::hypot(1.0, e); v.push_back({q[0] / l, q[1] / l, q[2] / l, q[3] / l});
      double p[4] = {s * e, 0, 0, 0}; p[1 + a] = 1; v.push_back({p[0] / l, p[1] / l, p[2] / l, p[3] / l});
    }
    return v; }();
  return all;
}
const std::vector<double>& grid() { static const std::vector<double> g{0.0, -0.0, 1.0, -2.5, 0.1, 1e300, -5e-324, INFINITY, NAN}; return g; }
const std::vector<V3>& offsets() { static const std::vector<V3> o{{0, 0, 0}, {1, -2, 3.5}, {-1e9, 1e-9, 0.1}, {1e300, -1e-300, 7}}; return o; }
void at(const I3& t, const R& r, const V3& o, const std::string& what)
{
  transition(); OK(V3(t.translation()) == o, what, " moves by ", t.translation().transpose(), " not ", o.transpose());
  const double off = (t.linear() - turn(r.w, r.x, r.y, r.z)).cwiseAbs().maxCoeff(); OK(off < 1e-12, what, " turns by\n", t.linear(), "\nnot\n", turn(r.w, r.x, r.y, r.z));
  OK(t.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1), what, " has a bottom row of its own");
}
template<typename T> void at(const T& p, const c::GeometryQuaternion& q, const R& r, const V3& o, const std::string& what)
{
  transition(); OK(p.x == o(0) && p.y == o(1) && p.z == o(2), what, " is at ", p.x, " ", p.y, " ", p.z, " not ", o.transpose());
  const double d = std::fabs(q.w * r.w + q.x * r.x + q.y * r.y + q.z * r.z), l = std::sqrt(q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z);
  OK(std::fabs(l - 1) < 1e-12 && (turn(q.w, q.x, q.y, q.z) - turn(r.w, r.x, r.y, r.z)).cwiseAbs().maxCoeff() < 1e-12 && std::fabs(d - 1) < 1e-12, what, " has orientation ", q.w, " ", q.x, " ", q.y, " ", q.z, " not ", r.w, " ", r.x, " ", r.y, " ", r.z);
}
template<typename H> bool unstamped(const H& h)
{
#if COMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION == 1
  return h.seq == 0 && h.stamp.sec == 0 && h.stamp.nsec == 0;
#else
  return h.stamp.sec == 0 && h.stamp.nanosec == 0;
#endif
}
#if COMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION == 1
rh::RosTime when(int k) { rh::RosTime t; t.sec = uint32_t(k) * 5 + 3; t.nsec = uint32_t(k) * 7 + 999; return t; }
template<typename S> bool stamped(const S& s, int k) { return s.sec == uint32_t(k) * 5 + 3 && s.nsec == uint32_t(k) * 7 + 999; }
#else
rh::RosTime when(int k) { return rh::RosTime((int64_t(k) * 5 + 3) * 1000000000 + k * 7 + 999); }
template<typename S> bool stamped(const S& s, int k) { return s.sec == k * 5 + 3 && s.nanosec == uint32_t(k) * 7 + 999; }
#endif
}  // namespace
void mc::run()
{
  scenario("points", [] {
    const double x = pick(grid()), y = pick(grid());
    for (double z : grid())
    {
      transition(14); const auto p = three<c::GeometryPoint>(x, y, z); const auto v = three<c::GeometryVector3>(x, y, z); const V3 e(x, y, z);
      OK(is(c::GeometryPointToEigenVector3d(p), x, y, z), "point changes"); OK(is(c::EigenVector3dToGeometryPoint(e), x, y, z), "point message changes");
      OK(is(c::GeometryVector3ToEigenVector3d(v), x, y, z), "vector changes"); OK(is(c::EigenVector3dToGeometryVector3(e), x, y, z), "vector message changes");
      const V4 hp = c::GeometryPointToEigenVector4d(p), hv = c::GeometryVector3ToEigenVector4d(v);
      OK(is(V3(hp.head<3>()), x, y, z) && hp(3) == 1, "homogeneous point is ", hp.transpose()); OK(is(V3(hv.head<3>()), x, y, z) && hv(3) == 0, "homogeneous vector is ", hv.transpose());
      for (double w : {0.0, 1.0, 2.0})
      { OK(is(c::EigenVector4dToGeometryPoint(V4(x, y, z, w)), x, y, z), "homogeneous point changes"); OK(is(c::EigenVector4dToGeometryVector3(V4(x, y, z, w)), x, y, z), "homogeneous vector changes"); }
      for (double w : grid())
      {
        const Q q = c::GeometryQuaternionToEigenQuaterniond(quat(w, x, y, z)); OK(eq(q.w(), w) && eq(q.x(), x) && eq(q.y(), y) && eq(q.z(), z), "quaternion changes to ", q.coeffs().transpose());
        const c::GeometryQuaternion m = c::EigenQuaterniondToGeometryQuaternion(Q(w, x, y, z)); OK(eq(m.w, w) && is(m, x, y, z), "quaternion message changes");
      }
      Hash h; h.add(x).add(y).add(z); mc::state(h.h);
    }
  });
  scenario("poses", [] {
    const R r = pick(turns()); const V3 o = pick(offsets()); const Q q(r.w, r.x, r.y, r.z); const std::string what = str(" at ", o.transpose(), " turned by ", r.w, " ", r.x, " ", r.y, " ", r.z);
    c::GeometryPose p; p.position = three<c::GeometryPoint>(o(0), o(1), o(2)); p.orientation = quat(r.w, r.x, r.y, r.z);
    c::GeometryTransform t; t.translation = three<c::GeometryVector3>(o(0), o(1), o(2)); t.rotation = p.orientation;
    const I3 ip = c::GeometryPoseToEigenIsometry3d(p), it = c::GeometryTransformToEigenIsometry3d(t); at(ip, r, o, "pose" + what); at(it, r, o, "transform" + what);
    I3 own = I3::Identity(); own.translation() = o; own.linear() = turn(r.w, r.x, r.y, r.z);
    for (const I3& i : {ip, it, own})
    {
      const auto bp = c::EigenIsometry3dToGeometryPose(i); at(bp.position, bp.orientation, r, o, "pose message" + what); const auto bt = c::EigenIsometry3dToGeometryTransform(i); at(bt.translation, bt.rotation, r, o, "transform message" + what);
      const auto sp = c::EigenIsometry3dToGeometryPoseStamped(i, "map"); at(sp.pose.position, sp.pose.orientation, r, o, "stamped pose" + what); OK(sp.header.frame_id == "map" && unstamped(sp.header), "stamped pose is in ", sp.header.frame_id);
    }
    Hash h; h.add(r).add(o(0)); mc::state(h.h);
  });
  scenario("names", [] {
    const std::vector<std::string> names{"", "a", "world", "/map", std::string("nul\0in", 6), std::string(3000, 'f')}; const std::string f = pick(names), k = pick(names); const R r = turns()[5]; const V3 o(1, -2, 3.5);
    I3 i = I3::Identity(); i.translation() = o; i.linear() = turn(r.w, r.x, r.y, r.z); transition(3);
    const auto p = c::EigenVector3dToGeometryPointStamped(o, f); OK(p.header.frame_id == f && unstamped(p.header) && is(p.point, 1, -2, 3.5), "stamped point in frame ", p.header.frame_id, " not ", f);
    const auto s = c::EigenIsometry3dToGeometryPoseStamped(i, f); OK(s.header.frame_id == f && unstamped(s.header), "stamped pose in frame ", s.header.frame_id, " not ", f); at(s.pose.position, s.pose.orientation, r, o, "stamped pose");
    const auto t = c::EigenIsometry3dToGeometryTransformStamped(i, f, k); OK(t.header.frame_id == f && t.child_frame_id == k && unstamped(t.header), "transform from ", t.header.frame_id, " to ", t.child_frame_id, " not from ", f, " to ", k); at(t.transform.translation, t.transform.rotation, r, o, "stamped transform");
    Hash h; h.add(f).add(k); mc::state(h.h);
  });
  scenario("collections", [] {
    std::vector<int> sizes; for (int i = 0; i <= by_tier(24, 80); i++) sizes.push_back(i); for (int i : {255, 256, 257, 1025, by_tier(5000, 70000)}) sizes.push_back(i);
    const size_t n = size_t(pick(sizes)); const int start = choose(3); transition(8);
    auto pt = [&] (size_t i) { return V3(double(i) + 0.25, -3.0 * double(i) - start, i % 2 ? 1e5 : 0.125 * double(i)); };
    auto ro = [&] (size_t i) { return turns()[(i * 7 + size_t(start) * 31) % turns().size()]; };
    std::vector<c::GeometryPoint> points; std::vector<c::GeometryVector3> vectors; std::vector<c::GeometryPose> poses; std::vector<c::GeometryTransform> transforms; common_robotics_utilities::math::VectorVector3d eigen; common_robotics_utilities::math::VectorIsometry3d isos; Eigen::Matrix3Xd matrix(3, Eigen::Index(n));
    for (size_t i = 0; i < n; i++)
    {
      const V3 v = pt(i); const R r = ro(i); points.push_back(three<c::GeometryPoint>(v(0), v(1), v(2))); vectors.push_back(three<c::GeometryVector3>(v(0), v(1), v(2))); eigen.push_back(v); matrix.col(Eigen::Index(i)) = v;
      c::GeometryPose p; p.position = points.back(); p.orientation = quat(r.w, r.x, r.y, r.z); poses.push_back(p); c::GeometryTransform t; t.translation = vectors.back(); t.rotation = p.orientation; transforms.push_back(t);
      I3 iso = I3::Identity(); iso.translation() = v; iso.linear() = turn(r.w, r.x, r.y, r.z); isos.push_back(iso);
    }
    const auto m = c::VectorGeometryPointToEigenMatrix3Xd(points); const auto back = c::EigenMatrix3XdToVectorGeometryPoint(matrix), gp = c::VectorEigenVector3dToVectorGeometryPoint(eigen);
    const auto ep = c::VectorGeometryPointToVectorEigenVector3d(points), ev = c::VectorGeometryVector3ToEigenVector3d(vectors); const auto ip = c::VectorGeometryPoseToVectorIsometry3d(poses), it = c::VectorGeometryPoseToVectorIsometry3d(transforms);
    const auto gpose = c::VectorIsometry3dToVectorGeometryPose(isos); const auto gt = c::VectorIsometry3dToVectorGeometryTransform(isos);
    OK(size_t(m.cols()) == n && m.rows() == 3 && back.size() == n && gp.size() == n && ep.size() == n && ev.size() == n && ip.size() == n && it.size() == n && gpose.size() == n && gt.size() == n, "a collection of ", n, " changes its size");
    for (size_t i = 0; i < n; i++)
    {
      const V3 v = pt(i); const R r = ro(i); const std::string what = str(" ", i, " of ", n);
      OK(is(V3(m.col(Eigen::Index(i))), v(0), v(1), v(2)) && is(back[i], v(0), v(1), v(2)) && is(gp[i], v(0), v(1), v(2)) && is(ep[i], v(0), v(1), v(2)) && is(ev[i], v(0), v(1), v(2)), "point", what, " changes");
      at(ip[i], r, v, "pose" + what); at(it[i], r, v, "transform" + what); at(gpose[i].position, gpose[i].orientation, r, v, "pose message" + what); at(gt[i].translation, gt[i].rotation, r, v, "transform message" + what);
    }
    Hash h; h.add(n).add(start); mc::state(h.h);
  });
  scenario("timestamps", [] {
    std::vector<int> sizes; for (int i = 0; i <= 20; i++) sizes.push_back(i); sizes.push_back(300); const int n = pick(sizes), k = choose(4), kind = choose(3); transition();
    auto check = [&] (auto& messages, auto&& own) {
      OK(int(messages.size()) == n, "the number of messages changes"); int i = 0;
      for (auto& m : messages) { OK(stamped(m.header.stamp, k), "message ", i, " of ", n, " is not stamped"); OK(m.header.frame_id == str("f", i) && own(m, i), "message ", i, " of ", n, " changes"); i++; }
    };
    if (kind == 0)
    {
      rh::VisualizationMarkerArray a; for (int i = 0; i < n; i++) { rh::VisualizationMarker m; m.header.frame_id = str("f", i); m.id = i; m.text = str("t", i); m.header.stamp = when(9); a.markers.push_back(m); }
      rh::SetMessageTimestamps(a, when(k)); check(a.markers, [] (const auto& m, int i) { return m.id == i && m.text == str("t", i); });
    }
    auto points = [&] (auto container) {
      for (int i = 0; i < n; i++) { c::GeometryPointStamped p; p.header.frame_id = str("f", i); p.point.x = i + 0.5; container.push_back(p); }
      rh::SetMessageTimestamps<c::GeometryPointStamped>(container, when(k)); check(container, [] (const auto& m, int i) { return m.point.x == i + 0.5; });
    };
    if (kind == 1) points(std::vector<c::GeometryPointStamped>());
    if (kind == 2)
    {
      std::list<c::GeometryPointStamped> l; for (int i = 0; i < n; i++) { c::GeometryPointStamped p; p.header.frame_id = str("f", i); p.point.x = i + 0.5; l.push_back(p); }
      rh::SetMessageTimestamps<c::GeometryPointStamped, std::list<c::GeometryPointStamped>>(l, when(k)); check(l, [] (const auto& m, int i) { return m.point.x == i + 0.5; });
    }
    mc::state(uint64_t(n * 16 + k * 4 + kind));
  });
#if COMMON_ROBOTICS_UTILITIES__SUPPORTED_ROS_VERSION == 2
  scenario("message text", [] {
    const auto p = three<c::GeometryPoint>(pick(std::vector<double>{0, 1.5, -2}), pick(std::vector<double>{0, 1.5, -2}), 4); std::ostringstream o; o << "<" << p << ">"; transition();
    OK(o.str() == "<" + to_yaml(p, false) + ">", "a message is printed as ", o.str()); Hash h; h.add(p); mc::state(h.h);
  });
#endif
}
