#include "codecs.hpp"
namespace codecs
{
std::vector<Codec>& part2(std::vector<Codec>& c)
{
  fixed<int8_t>(c, "i8"); fixed<int16_t>(c, "i16"); fixed<int32_t>(c, "i32"); fixed<int64_t>(c, "i64");
  fixed<float>(c, "f32"); fixed<double>(c, "f64");
  return c;
}
}  // namespace codecs
