// Every serializable type of the library, as a list of codecs with sample values (used by S01 and S02).
#pragma once
#include "mc.hpp"
#include <common_robotics_utilities/serialization.hpp>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <memory>
#include <algorithm>
#include <cstring>
namespace codecs
{
using namespace common_robotics_utilities;
using namespace common_robotics_utilities::serialization;
using Buffer = std::vector<uint8_t>;
template<typename T> std::string raw(const T& v) { return std::string(reinterpret_cast<const char*>(&v), sizeof v); }
inline std::string raws(const std::string& s) { return raw<uint64_t>(s.size()) + s; }

struct Codec
{
  std::string name;
  size_t n;                                                         // number of sample values
  std::function<uint64_t(size_t, Buffer&)> ser;                     // returns the reported byte count
  std::function<std::string(size_t)> canon;                         // canonical text of sample value
  std::function<std::pair<std::string, uint64_t>(const Buffer&, uint64_t)> des;   // canonical text, bytes read
  std::function<std::string(size_t)> expect;                        // exact bytes, if the format promises them
  std::function<std::pair<std::string, uint64_t>(size_t, const Buffer&, uint64_t)> over;   // as des, into a copy of sample value i
};
template<typename T, typename S, typename D, typename C> Codec make(const std::string& name, std::vector<T> values, S ser, D des, C canon)
{
  auto v = std::make_shared<std::vector<T>>(std::move(values));
  return Codec{name, v->size(), [v, ser](size_t i, Buffer& b) { return ser((*v)[i], b); }, [v, canon](size_t i) { return canon((*v)[i]); },
               [des, canon](const Buffer& b, uint64_t o) { const auto d = des(b, o); return std::make_pair(canon(d.Value()), d.BytesRead()); }, {}, {}};
}
/// As make, for a type with DeserializeSelf: `self` deserializes into an object that already holds something.
template<typename T, typename S, typename D, typename C, typename O> Codec make(const std::string& name, std::vector<T> values, S ser, D des, C canon, O self)
{
  auto v = std::make_shared<std::vector<T>>(values);
  Codec c = make(name, std::move(values), ser, des, canon);
  c.over = [v, self, canon](size_t i, const Buffer& b, uint64_t o) { T x((*v)[i]); const uint64_t n = self(x, b, o); return std::make_pair(canon(x), n); };
  return c;
}
template<typename T> std::string be(T v) { std::string r = raw(v); std::reverse(r.begin(), r.end()); return r; }
template<typename T> std::vector<T> samples()
{
  std::vector<T> r{T(0), T(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest()};
  T x; unsigned char b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); i++) b[i] = static_cast<unsigned char>(0x12 + 0x11 * i);
  std::memcpy(&x, b, sizeof x); r.push_back(x); return r;
}
template<typename T> void fixed(std::vector<Codec>& c, const std::string& n)
{
  c.push_back(make("host " + n, samples<T>(), [](const T& v, Buffer& b) { return SerializeMemcpyable<T>(v, b); }, [](const Buffer& b, uint64_t o) { return DeserializeMemcpyable<T>(b, o); }, raw<T>));
  c.push_back(make("network " + n, samples<T>(), [](const T& v, Buffer& b) { return SerializeNetworkMemcpyable<T>(v, b); }, [](const Buffer& b, uint64_t o) { return DeserializeNetworkMemcpyable<T>(b, o); }, raw<T>));
  c.back().expect = [](size_t i) { return be(samples<T>()[i]); };
  // vectors of it
  using V = std::vector<T>;
  const auto all = samples<T>();
  const std::vector<V> vv{{}, {all[4]}, all};
  const auto canon = [](const V& v) { std::string r; for (auto& x : v) r += raws(raw(x)); return r; };
  c.push_back(make("host vector<" + n + ">", vv, [](const V& v, Buffer& b) { return SerializeMemcpyableVectorLike<T>(v, b); }, [](const Buffer& b, uint64_t o) { return DeserializeMemcpyableVectorLike<T>(b, o); }, canon));
  c.push_back(make("network vector<" + n + ">", vv, [](const V& v, Buffer& b) { return SerializeNetworkMemcpyableVectorLike<T>(v, b); }, [](const Buffer& b, uint64_t o) { return DeserializeNetworkMemcpyableVectorLike<T>(b, o); }, canon));
  c.back().expect = [vv](size_t i) { std::string r = be<uint64_t>(vv[i].size()); for (auto& x : vv[i]) r += be(x); return r; };
}
template<typename Ch> void strings(std::vector<Codec>& c, const std::string& n)
{
  using S = std::basic_string<Ch>;
  std::vector<S> v{S(), S(1, Ch(0)), S(3, Ch(7)), S()};
  for (int i = 0; i < 20; i++) v[3].push_back(Ch(i * 13));
  const auto canon = [](const S& s) { std::string r; for (auto ch : s) r += raws(raw(ch)); return r; };
  c.push_back(make("host string of " + n, v, SerializeString<Ch>, DeserializeString<Ch>, canon));
}
inline std::string dcanon(const double* p, size_t n) { std::string r = raw<uint64_t>(n); for (size_t i = 0; i < n; i++) r += raw(p[i]); return r; }

template<typename A, typename B> std::string pcanon(const std::pair<A, B>& p);
inline std::string icanon(const int32_t& v) { return raw(v); }
inline std::string scanon(const std::string& v) { return raws(v); }

std::vector<Codec>& part1(std::vector<Codec>& c);
std::vector<Codec>& part2(std::vector<Codec>& c);
std::vector<Codec>& part3(std::vector<Codec>& c);
std::vector<Codec>& part4(std::vector<Codec>& c);
/// Values of a given number of elements of the structured types; filled by part4.
std::vector<std::pair<std::string, std::function<Codec(size_t)>>>& large4();
const std::vector<Codec>& all();
}  // namespace codecs
