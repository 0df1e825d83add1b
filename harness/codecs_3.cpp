#include "codecs.hpp"
namespace codecs
{
std::vector<Codec>& part3(std::vector<Codec>& c)
{
  const Serializer<int32_t> si = SerializeMemcpyable<int32_t>; const Deserializer<int32_t> di = DeserializeMemcpyable<int32_t>;
  const Serializer<int32_t> ni = SerializeNetworkMemcpyable<int32_t>; const Deserializer<int32_t> dni = DeserializeNetworkMemcpyable<int32_t>;
  const Serializer<std::string> ss = SerializeString<char>; const Deserializer<std::string> ds = DeserializeString<char>;
  const Serializer<std::string> ns = SerializeNetworkString<char>; const Deserializer<std::string> dns = DeserializeNetworkString<char>;
  {
    using P = std::pair<int32_t, std::string>;
    const auto canon = [](const P& p) { return raw(p.first) + raws(p.second); };
    c.push_back(make("pair", std::vector<P>{{1, ""}, {-7, "xy"}}, [=](const P& p, Buffer& b) { return SerializePair<int32_t, std::string>(p, b, si, ss); }, [=](const Buffer& b, uint64_t o) { return DeserializePair<int32_t, std::string>(b, o, di, ds); }, canon));
  }
  {
    using V = std::vector<std::string>;
    const std::vector<V> vals{{}, {""}, {"a", "", "bcd"}};
    const auto canon = [](const V& v) { std::string r; for (auto& x : v) r += raws(x); return r; };
    c.push_back(make("host vector of strings", vals, [=](const V& v, Buffer& b) { return SerializeVectorLike<std::string>(v, b, ss); }, [=](const Buffer& b, uint64_t o) { return DeserializeVectorLike<std::string>(b, o, ds); }, canon));
    c.push_back(make("network vector of strings", vals, [=](const V& v, Buffer& b) { return SerializeNetworkVectorLike<std::string>(v, b, ns); }, [=](const Buffer& b, uint64_t o) { return DeserializeNetworkVectorLike<std::string>(b, o, dns); }, canon));
    c.back().expect = [vals](size_t i) { std::string r = be<uint64_t>(vals[i].size()); for (auto& x : vals[i]) r += be<uint64_t>(x.size()) + x; return r; };
    using VV = std::vector<std::vector<int32_t>>;
    const Serializer<std::vector<int32_t>> sv = [](const std::vector<int32_t>& v, Buffer& b) { return SerializeMemcpyableVectorLike<int32_t>(v, b); };
    const Deserializer<std::vector<int32_t>> dv = [](const Buffer& b, const uint64_t o) { return DeserializeMemcpyableVectorLike<int32_t>(b, o); };
    c.push_back(make("vector of vectors", std::vector<VV>{{}, {{}, {1, 2}, {}, {3}}}, [=](const VV& v, Buffer& b) { return SerializeVectorLike<std::vector<int32_t>>(v, b, sv); }, [=](const Buffer& b, uint64_t o) { return DeserializeVectorLike<std::vector<int32_t>>(b, o, dv); },
                     [](const VV& v) { std::string r; for (auto& x : v) { r += raw<uint64_t>(x.size()); for (auto y : x) r += raw(y); } return r; }));
  }
  {
    using M = std::map<int32_t, std::string>; using U = std::unordered_map<int32_t, std::string>;
    const auto canon = [](const M& m) { std::string r; for (auto& x : m) r += raw(x.first) + raws(x.second); return r; };
    const auto ucanon = [canon](const U& m) { return canon(M(m.begin(), m.end())); };
    const M big{{3, "three"}, {-1, ""}, {1 << 30, "x"}};
    c.push_back(make("host map", std::vector<M>{{}, {{5, "f"}}, big}, [=](const M& m, Buffer& b) { return SerializeMapLike<int32_t, std::string>(m, b, si, ss); }, [=](const Buffer& b, uint64_t o) { return DeserializeMapLike<int32_t, std::string>(b, o, di, ds); }, canon));
    c.push_back(make("host unordered map", std::vector<U>{{}, U(big.begin(), big.end())}, [=](const U& m, Buffer& b) { return SerializeMapLike<int32_t, std::string, U>(m, b, si, ss); }, [=](const Buffer& b, uint64_t o) { return DeserializeMapLike<int32_t, std::string, U>(b, o, di, ds); }, ucanon));
    c.push_back(make("network map", std::vector<M>{{}, {{5, "f"}}, big}, [=](const M& m, Buffer& b) { return SerializeNetworkMapLike<int32_t, std::string>(m, b, ni, ns); }, [=](const Buffer& b, uint64_t o) { return DeserializeNetworkMapLike<int32_t, std::string>(b, o, dni, dns); }, canon));
    c.back().expect = [big](size_t i) { const std::vector<M> v{{}, {{5, "f"}}, big}; std::string r = be<uint64_t>(v[i].size()); for (auto& x : v[i]) r += be(x.first) + be<uint64_t>(x.second.size()) + x.second; return r; };
    using S = std::set<int32_t>; using US = std::unordered_set<int32_t>;
    const auto sc = [](const S& m) { std::string r; for (auto& x : m) r += raw(x); return r; };
    const auto usc = [sc](const US& m) { return sc(S(m.begin(), m.end())); };
    const S sb{9, -9, 0};
    c.push_back(make("host set", std::vector<S>{{}, {4}, sb}, [=](const S& m, Buffer& b) { return SerializeSetLike<int32_t>(m, b, si); }, [=](const Buffer& b, uint64_t o) { return DeserializeSetLike<int32_t>(b, o, di); }, sc));
    c.push_back(make("host unordered set", std::vector<US>{{}, US(sb.begin(), sb.end())}, [=](const US& m, Buffer& b) { return SerializeSetLike<int32_t, US>(m, b, si); }, [=](const Buffer& b, uint64_t o) { return DeserializeSetLike<int32_t, US>(b, o, di); }, usc));
    c.push_back(make("network set", std::vector<S>{{}, {4}, sb}, [=](const S& m, Buffer& b) { return SerializeNetworkSetLike<int32_t>(m, b, ni); }, [=](const Buffer& b, uint64_t o) { return DeserializeNetworkSetLike<int32_t>(b, o, dni); }, sc));
    c.back().expect = [sb](size_t i) { const std::vector<S> v{{}, {4}, sb}; std::string r = be<uint64_t>(v[i].size()); for (auto& x : v[i]) r += be(x); return r; };
  }
  return c;
}
}  // namespace codecs
