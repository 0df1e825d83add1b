// Stand-ins for the ROS messages the library converts, with the members and defaults that both
// generators give them.  ROS itself is not installed here.
#pragma once
#include <cstdint>
#include <ostream>
#include <string>
#include <type_traits>
#include <vector>

namespace ros
{
struct Time { uint32_t sec = 0, nsec = 0; };
}
namespace builtin_interfaces
{
namespace msg { struct Time { int32_t sec = 0; uint32_t nanosec = 0; }; }
}
namespace rclcpp
{
class Time
{
  int64_t ns_;
public:
  explicit Time(int64_t ns = 0) : ns_(ns) {}
  operator builtin_interfaces::msg::Time() const
  { builtin_interfaces::msg::Time t; t.sec = static_cast<int32_t>(ns_ / 1000000000); t.nanosec = static_cast<uint32_t>(ns_ % 1000000000); return t; }
};
}
#define STANDIN_GEOMETRY(HEADER) \
  struct Point { double x = 0, y = 0, z = 0; }; \
  struct Vector3 { double x = 0, y = 0, z = 0; }; \
  struct Quaternion { double x = 0, y = 0, z = 0, w = STANDIN_W; }; \
  struct Pose { Point position; Quaternion orientation; }; \
  struct Transform { Vector3 translation; Quaternion rotation; }; \
  struct PointStamped { HEADER header; Point point; }; \
  struct PoseStamped { HEADER header; Pose pose; }; \
  struct TransformStamped { HEADER header; std::string child_frame_id; Transform transform; };
#define STANDIN_MARKERS(HEADER) \
  struct Marker { HEADER header; int32_t id = 0; std::string text; }; \
  struct MarkerArray { std::vector<Marker> markers; };
// In ROS 1 a quaternion starts as all zeros, in ROS 2 as the identity.
#define STANDIN_W 0
namespace std_msgs { struct Header { uint32_t seq = 0; ros::Time stamp; std::string frame_id; }; }
namespace geometry_msgs { STANDIN_GEOMETRY(std_msgs::Header) }
namespace visualization_msgs { STANDIN_MARKERS(std_msgs::Header) }
#undef STANDIN_W
#define STANDIN_W 1
namespace std_msgs { namespace msg { struct Header { builtin_interfaces::msg::Time stamp; std::string frame_id; }; } }
namespace geometry_msgs { namespace msg {
STANDIN_GEOMETRY(std_msgs::msg::Header)
inline std::string to_yaml(const Point& p, bool flow)
{ return flow ? std::string("{flow}") : "x: " + std::to_string(p.x) + "\ny: " + std::to_string(p.y) + "\nz: " + std::to_string(p.z) + "\n"; }
} }
namespace visualization_msgs { namespace msg { STANDIN_MARKERS(std_msgs::msg::Header) } }
#undef STANDIN_W
namespace rosidl_generator_traits
{
template<typename T> struct is_message : std::false_type {};
template<> struct is_message<geometry_msgs::msg::Point> : std::true_type {};
}
