#include "codecs.hpp"
namespace codecs
{
std::vector<Codec>& part1(std::vector<Codec>& c)
{
  fixed<uint8_t>(c, "u8"); fixed<uint16_t>(c, "u16"); fixed<uint32_t>(c, "u32"); fixed<uint64_t>(c, "u64");
  {
    struct P { double a; int32_t b; char t[5]; uint8_t z[7]; };
    P p; std::memset(&p, 0x3C, sizeof p); p.a = -0.0; p.b = -5;
    c.push_back(make("host struct", std::vector<P>{p}, SerializeMemcpyable<P>, DeserializeMemcpyable<P>, raw<P>));
    c.push_back(make("host vector<struct>", std::vector<std::vector<P>>{{}, {p, p, p}}, [](const std::vector<P>& v, Buffer& b) { return SerializeMemcpyableVectorLike<P>(v, b); },
                     [](const Buffer& b, uint64_t o) { return DeserializeMemcpyableVectorLike<P>(b, o); }, [](const std::vector<P>& v) { std::string r; for (auto& x : v) r += raws(raw(x)); return r; }));
  }
  strings<char>(c, "char"); strings<wchar_t>(c, "wchar_t"); strings<char16_t>(c, "char16_t");
  {
    std::vector<std::string> v{"", std::string(1, '\0'), "abc", std::string(20, '\xff')};
    c.push_back(make("network string", v, SerializeNetworkString<char>, DeserializeNetworkString<char>, scanon));
    c.back().expect = [v](size_t i) { return be<uint64_t>(v[i].size()) + v[i]; };
  }
  return c;
}
const std::vector<Codec>& all()
{
  static const std::vector<Codec> c = [] { std::vector<Codec> r; part1(r); part2(r); part3(r); part4(r); return r; }();
  return c;
}
}  // namespace codecs
