// S01: serialization round-trips every supported value exactly.
#include "codecs.hpp"
MC_HARNESS("S01", "every codec (fixed-size host/network types, strings, pairs, vectors, maps, sets, Eigen types, grids, graphs, trees) x every sample value x every amount of bytes before and "
                  "after it; every ordered pair (thorough: triple) of codecs written into one buffer; every 16-bit value and every byte position of wider types in network order; a state is a distinct encoding")
using namespace codecs;
namespace
{
void single()
{
  const Codec& c = mc::pick(all());
  const size_t v = static_cast<size_t>(mc::choose(static_cast<int>(c.n)));
  const int before = mc::pick(std::vector<int>{0, 1, 3, 8, 17}), after = mc::pick(std::vector<int>{0, 1, 8, 40});
  Buffer b; for (int i = 0; i < before; i++) b.push_back(static_cast<uint8_t>(0xA0 + i));
  const Buffer prefix = b;
  const uint64_t wr = c.ser(v, b);
  MC_CHECK(b.size() >= prefix.size() && wr == b.size() - prefix.size(), c.name, " value ", v, ": reported ", wr, " bytes, wrote ", b.size() - prefix.size());
  MC_CHECK(std::equal(prefix.begin(), prefix.end(), b.begin()), c.name, ": bytes already in the buffer changed");
  const Buffer enc(b.begin() + before, b.end());
  if (c.expect) MC_CHECK(std::string(enc.begin(), enc.end()) == c.expect(v), c.name, " value ", v, ": not the big-endian encoding");
  Buffer again; (void)c.ser(v, again);
  MC_CHECK(again == enc, c.name, " value ", v, ": encoding depends on the buffer");
  for (int i = 0; i < after; i++) b.push_back(static_cast<uint8_t>(0x50 + i * 7));
  const Buffer full = b;
  const auto d = c.des(b, static_cast<uint64_t>(before));
  MC_CHECK(d.second == wr, c.name, " value ", v, ": consumed ", d.second, " of ", wr, " bytes");
  MC_CHECK(d.first == c.canon(v), c.name, " value ", v, " changed in the round trip");
  MC_CHECK(b == full, "deserializing changed the buffer");
  mc::state(mc::Hash().add(c.name).add(std::string(enc.begin(), enc.end())).h); mc::transition(2);
  mc::note(mc::str(c.name, " value ", v, " with ", before, " bytes before and ", after, " after"));
}
/// Deserializing into an object that already holds another value leaves exactly the deserialized value.
void into_used()
{
  static std::vector<const Codec*> cs = [] { std::vector<const Codec*> r; for (auto& c : all()) if (c.over) r.push_back(&c); return r; }();
  const Codec& c = *mc::pick(cs);
  const size_t had = static_cast<size_t>(mc::choose(static_cast<int>(c.n))), v = static_cast<size_t>(mc::choose(static_cast<int>(c.n))), between = static_cast<size_t>(mc::choose(static_cast<int>(c.n) + 1));
  const int before = mc::pick(std::vector<int>{0, 1, 9});
  Buffer b(static_cast<size_t>(before), 0x5A);
  const uint64_t wr = c.ser(v, b);
  if (between < c.n) c.ser(between, b);
  const auto d = c.over(had, b, static_cast<uint64_t>(before));
  MC_CHECK(d.second == wr, c.name, " value ", v, " into an object holding value ", had, ": consumed ", d.second, " of ", wr, " bytes");
  MC_CHECK(d.first == c.canon(v), c.name, " value ", v, " changed in the round trip into an object that held value ", had);
  mc::transition(2);
}
void sequence(int n)
{
  std::vector<std::pair<const Codec*, size_t>> items; Buffer b; std::vector<uint64_t> at;
  for (int i = 0; i < n; i++)
  {
    const Codec& c = mc::pick(all());
    const size_t v = c.n - 1;
    at.push_back(b.size()); items.emplace_back(&c, v); c.ser(v, b);
  }
  uint64_t pos = 0;
  for (int i = 0; i < n; i++)
  {
    const auto d = items[i].first->des(b, pos);
    MC_CHECK(d.first == items[i].first->canon(items[i].second), items[i].first->name, " after ", i ? items[i - 1].first->name : "nothing", " changed in the round trip");
    pos += d.second;
    MC_CHECK(pos == (i + 1 < n ? at[i + 1] : b.size()), items[i].first->name, ": consumed ", d.second, " bytes");
  }
  mc::transition(2 * static_cast<uint64_t>(n));
}
template<typename T> void order(const T v)
{
  Buffer b; SerializeNetworkMemcpyable<T>(v, b);
  uint64_t x = 0; for (auto y : b) x = x << 8 | y;
  uint64_t want = 0; std::memcpy(&want, &v, sizeof v); if (sizeof(T) < 8) want &= (uint64_t(1) << (sizeof(T) * 8 % 64)) - 1;
  MC_CHECK(b.size() == sizeof(T) && x == want, "network encoding of ", uint64_t(want), " is ", x);
  const auto d = DeserializeNetworkMemcpyable<T>(b, 0);
  MC_CHECK(std::memcmp(&d.Value(), &v, sizeof v) == 0 && d.BytesRead() == sizeof v, "network round trip of ", want, " differs");
  Buffer p(sizeof(T) + 4, 0x77);
  for (uint64_t at = 0; at <= p.size() + 2; at++)
  {
    Buffer q = p; uint64_t n = 0;
    const bool fits = at + sizeof(T) <= p.size();
    const int t = mc::throws([&] { n = SerializeNetworkMemcpyableInPlace<T>(v, q, at); });
    MC_CHECK((t == 0) == fits, "in-place serialization at ", at, " of ", p.size(), " threw ", t);
    Buffer w = p; if (fits) { std::copy(b.begin(), b.end(), w.begin() + static_cast<long>(at)); MC_CHECK(n == sizeof(T), "in-place byte count"); }
    MC_CHECK(q == w, "in-place serialization at ", at, " wrote elsewhere");
  }
  mc::transition(2);
}
// Values with more elements than one or two bytes can count.
template<typename C> void big(const char* name, const std::function<Codec(std::vector<C>)>& codec, C value, size_t n)
{
  const Codec c = codec({value});
  Buffer b(3, 0x21); const uint64_t wr = c.ser(0, b);
  MC_CHECK(wr == b.size() - 3, name, " of ", n, " elements: reported ", wr, " bytes, wrote ", b.size() - 3);
  b.push_back(0x22);
  const auto d = c.des(b, 3);
  MC_CHECK(d.second == wr && d.first == c.canon(0), name, " of ", n, " elements changed in the round trip");
  mc::state(mc::Hash().add(std::string(name)).add(n).h); mc::transition(2);
}
void large()
{
  const size_t n = mc::pick(std::vector<size_t>{127, 128, 255, 256, 257, 4097, 32767, 32768, 65535, 65536, 65537, 100003});
  const int kind = mc::choose(10);
  if (kind >= 4 && n > (mc::thorough() ? 65537u : 4097u)) throw mc::Skip();   // element by element, quadratic time
  std::string s(n, ' '); for (size_t i = 0; i < n; i++) s[i] = static_cast<char>(i * 31 + i / 256);
  std::vector<int32_t> v(n); for (size_t i = 0; i < n; i++) v[i] = static_cast<int32_t>(i * 2654435761u);
  std::map<int32_t, std::string> m; std::set<int32_t> st; for (size_t i = 0; i < n; i++) { m[v[i]] = i % 3 ? std::string() : std::string(i % 5, 'q'); st.insert(v[i]); }
  using S = std::string; using V = std::vector<int32_t>; using M = std::map<int32_t, std::string>; using T = std::set<int32_t>;
  const auto cv = [](const V& x) { return std::string(reinterpret_cast<const char*>(x.data()), x.size() * 4); };
  const auto cm = [](const M& x) { std::string r; for (auto& y : x) r += raw(y.first) + raws(y.second); return r; };
  const auto ct = [](const T& x) { std::string r; for (auto y : x) r += raw(y); return r; };
  const Serializer<int32_t> si = SerializeMemcpyable<int32_t>, ni = SerializeNetworkMemcpyable<int32_t>; const Deserializer<int32_t> di = DeserializeMemcpyable<int32_t>, dni = DeserializeNetworkMemcpyable<int32_t>;
  const Serializer<S> ss = SerializeString<char>, ns = SerializeNetworkString<char>; const Deserializer<S> ds = DeserializeString<char>, dns = DeserializeNetworkString<char>;
  switch (kind)
  {
    case 0: big<S>("string", [](std::vector<S> x) { return codecs::make("", x, SerializeString<char>, DeserializeString<char>, codecs::scanon); }, s, n); break;
    case 1: big<S>("network string", [](std::vector<S> x) { return codecs::make("", x, SerializeNetworkString<char>, DeserializeNetworkString<char>, codecs::scanon); }, s, n); break;
    case 2: big<V>("memcpyable vector", [&](std::vector<V> x) { return codecs::make("", x, [](const V& a, Buffer& b) { return SerializeMemcpyableVectorLike<int32_t>(a, b); }, [](const Buffer& b, uint64_t o) { return DeserializeMemcpyableVectorLike<int32_t>(b, o); }, cv); }, v, n); break;
    case 3: big<V>("network memcpyable vector", [&](std::vector<V> x) { return codecs::make("", x, [](const V& a, Buffer& b) { return SerializeNetworkMemcpyableVectorLike<int32_t>(a, b); }, [](const Buffer& b, uint64_t o) { return DeserializeNetworkMemcpyableVectorLike<int32_t>(b, o); }, cv); }, v, n); break;
    case 4: big<V>("vector", [&](std::vector<V> x) { return codecs::make("", x, [=](const V& a, Buffer& b) { return SerializeVectorLike<int32_t>(a, b, si); }, [=](const Buffer& b, uint64_t o) { return DeserializeVectorLike<int32_t>(b, o, di); }, cv); }, v, n); break;
    case 5: big<V>("network vector", [&](std::vector<V> x) { return codecs::make("", x, [=](const V& a, Buffer& b) { return SerializeNetworkVectorLike<int32_t>(a, b, ni); }, [=](const Buffer& b, uint64_t o) { return DeserializeNetworkVectorLike<int32_t>(b, o, dni); }, cv); }, v, n); break;
    case 6: big<M>("map", [&](std::vector<M> x) { return codecs::make("", x, [=](const M& a, Buffer& b) { return SerializeMapLike<int32_t, S>(a, b, si, ss); }, [=](const Buffer& b, uint64_t o) { return DeserializeMapLike<int32_t, S>(b, o, di, ds); }, cm); }, m, n); break;
    case 7: big<M>("network map", [&](std::vector<M> x) { return codecs::make("", x, [=](const M& a, Buffer& b) { return SerializeNetworkMapLike<int32_t, S>(a, b, ni, ns); }, [=](const Buffer& b, uint64_t o) { return DeserializeNetworkMapLike<int32_t, S>(b, o, dni, dns); }, cm); }, m, n); break;
    case 8: big<T>("set", [&](std::vector<T> x) { return codecs::make("", x, [=](const T& a, Buffer& b) { return SerializeSetLike<int32_t>(a, b, si); }, [=](const Buffer& b, uint64_t o) { return DeserializeSetLike<int32_t>(b, o, di); }, ct); }, st, n); break;
    default: big<T>("network set", [&](std::vector<T> x) { return codecs::make("", x, [=](const T& a, Buffer& b) { return SerializeNetworkSetLike<int32_t>(a, b, ni); }, [=](const Buffer& b, uint64_t o) { return DeserializeNetworkSetLike<int32_t>(b, o, dni); }, ct); }, st, n); break;
  }
}
/// Grids, graphs, trees, matrices and search results of many elements.
void large_structures()
{
  const auto& kinds = (all(), codecs::large4());
  const auto& k = mc::pick(kinds);
  const size_t n = mc::pick(mc::thorough() ? std::vector<size_t>{127, 128, 255, 256, 257, 1025, 4097, 8193, 32769, 65537} : std::vector<size_t>{127, 128, 255, 256, 257, 1025, 8193});
  const Codec c = k.second(n);
  Buffer b(3, 0x21); const uint64_t wr = c.ser(0, b);
  MC_CHECK(b.size() >= 3 && wr == b.size() - 3, k.first, " of ", n, ": reported ", wr, " bytes, wrote ", b.size() - 3);
  b.push_back(0x22);
  const auto d = c.des(b, 3);
  MC_CHECK(d.second == wr && d.first == c.canon(0), k.first, " of ", n, " changed in the round trip");
  mc::state(mc::Hash().add(k.first).add(n).h); mc::transition(2);
}
void byte_order()
{
  const int hi = mc::choose(256), lo = mc::choose(256);
  const uint16_t v = static_cast<uint16_t>(hi << 8 | lo);
  order<uint16_t>(v); int16_t s; std::memcpy(&s, &v, 2); order<int16_t>(s);
  if (lo < 8) { uint64_t w = 0; w |= uint64_t(hi) << (8 * lo); order<uint64_t>(w); order<int64_t>(static_cast<int64_t>(w)); double d; std::memcpy(&d, &w, 8); order<double>(d); }
  if (lo < 4) { uint32_t w = uint32_t(hi) << (8 * lo); order<uint32_t>(w); order<int32_t>(static_cast<int32_t>(w)); float f; std::memcpy(&f, &w, 4); order<float>(f); }
  if (lo == 0) { order<uint8_t>(static_cast<uint8_t>(hi)); order<int8_t>(static_cast<int8_t>(hi)); }
  MC_CHECK(NetworkToHost16(HostToNetwork16(v)) == v, "16-bit conversion"); const uint64_t z = uint64_t(v) * 0x0001000300050007ull;
  MC_CHECK(NetworkToHost64(HostToNetwork64(z)) == z && NetworkToHost32(HostToNetwork32(uint32_t(z))) == uint32_t(z), "conversion");
  MC_CHECK(HostToNetwork8(uint8_t(hi)) == hi && NetworkToHost8(uint8_t(hi)) == hi, "8-bit conversion");
}
void holder()
{
  MC_CHECK(mc::throws([] { MakeDeserialized<int>(1, 0); }) == 1, "a value read from no bytes was accepted");
  Deserialized<int> none; MC_CHECK(!none.HasValue() && mc::throws([&] { (void)none.Value(); }) == 1 && mc::throws([&] { (void)none.MutableValue(); }) == 1 && mc::throws([&] { (void)none.BytesRead(); }) == 1, "empty result gives a value");
  Deserialized<int> one(5, 4); one.MutableValue() = 6; MC_CHECK(one.HasValue() && one.Value() == 6 && one.BytesRead() == 4, "result holder");
}
}  // namespace
void mc::run()
{
  scenario("holder", holder);
  scenario("single", single, 2);
  scenario("into used objects", into_used, 1);
  scenario("large", large, 2);
  scenario("large structures", large_structures, 2);
  scenario("byte order", byte_order, 1);
  scenario("pairs", [] { sequence(2); }, 1);
  if (thorough()) scenario("triples", [] { sequence(3); }, 2);
}
