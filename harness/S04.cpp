// S04: compression round-trips and damaged compressed data is refused.
#include "mc.hpp"
#include <unistd.h>
#include <zlib.h>
#include <cstring>
#include <map>
#include <common_robotics_utilities/zlib_helpers.hpp>
MC_HARNESS("S04", "every input length to 64 and around multiples of the 1 MiB internal buffers, on the plain and on the compressed side, x 4 kinds of content, in memory and through a file; foreign zlib streams; "
                  "every truncation and every single-byte value at every position of small streams (thorough: every pair of bytes x 6 values); a state is a distinct (stream, damage, outcome)")
using namespace common_robotics_utilities;
namespace
{
using Bytes = std::vector<uint8_t>;
Bytes content(size_t n, int kind)
{
  Bytes b(n); uint64_t x = 88172645463325252ull;
  for (size_t i = 0; i < n; i++)
  {
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    b[i] = static_cast<uint8_t>(kind == 0 ? 0 : kind == 1 ? x >> 24 : kind == 2 ? "robot arm "[i % 10] : ((i / 40000) % 2 ? x >> 24 : 7));
  }
  return b;
}
const char* kKind[] = {"zeros", "incompressible", "text", "mixed"};
void round_trip(const Bytes& b, const std::string& what, bool file)
{
  const Bytes z = zlib_helpers::CompressBytes(b);
  // The compressed form must be one complete zlib stream by zlib's own judgement.
  Bytes own(b.size() + 64); uLongf n = static_cast<uLongf>(own.size()); uLong used = static_cast<uLong>(z.size());
  const int r = uncompress2(own.data(), &n, z.data(), &used);
  MC_CHECK(r == Z_OK && n == b.size() && used == z.size() && (n == 0 || std::memcmp(own.data(), b.data(), n) == 0),
           what, ": the compressed data is not a zlib stream of the input (", r, ", ", n, " of ", b.size(), " bytes)");
  const Bytes back = zlib_helpers::DecompressBytes(z);
  MC_CHECK(back == b, what, ": decompressing gave ", back.size(), " bytes that differ from the ", b.size(), " compressed");
  if (file)
  {
    const std::string name = mc::str("s04.", getpid(), ".z");
    zlib_helpers::CompressAndWriteToFile(b, name);
    const Bytes f = zlib_helpers::LoadFromFileAndDecompress(name);
    unlink(name.c_str());
    MC_CHECK(f == b, what, ": loading the written file gave ", f.size(), " bytes that differ from the ", b.size(), " written");
  }
  mc::transition(file ? 4 : 2); mc::state(mc::Hash().add(what).add(z.size()).h);
}
/// Damaged data: exception or the very bytes that were compressed.
void damaged(const Bytes& z, const Bytes& truth, bool must_throw, const std::string& what)
{
  const Bytes tight(z); Bytes out; std::string msg;
  const int r = mc::throws([&] { out = zlib_helpers::DecompressBytes(tight); }, &msg);
  MC_CHECK(r != 2, what, ": threw something that is not an exception");
  if (r == 0)
  {
    MC_CHECK(!must_throw, what, ": accepted, giving ", out.size(), " bytes");
    MC_CHECK(out == truth, what, ": silently gave ", out.size(), " wrong bytes instead of the ", truth.size(), " compressed");
  }
  mc::transition(); mc::state(mc::Hash().add(what).add(r).h);
}
const std::vector<std::pair<Bytes, Bytes>>& streams()
{
  static const std::vector<std::pair<Bytes, Bytes>> s = [] {
    std::vector<std::pair<Bytes, Bytes>> v;
    for (const auto& [n, k] : std::vector<std::pair<size_t, int>>{{0, 0}, {1, 2}, {37, 2}, {300, 0}, {60, 1}, {200, 2}})
    { Bytes b = content(n, k); v.emplace_back(b, zlib_helpers::CompressBytes(b)); }
    Bytes b = content(80, 2), z(400); uLongf n = 400; compress2(z.data(), &n, b.data(), b.size(), 9); z.resize(n); v.emplace_back(b, z);
    return v;
  }();
  return s;
}
}
void mc::run()
{
  scenario("every short length", [] {
    const size_t n = static_cast<size_t>(choose(by_tier(65, 600))); const int k = choose(4);
    round_trip(content(n, k), mc::str(n, " bytes of ", kKind[k]), n % 8 == 0);
  }, 1);
  scenario("around the internal buffers", [] {
    static const std::vector<size_t> around = by_tier<std::vector<size_t>>({65536, 1 << 20, 2 << 20}, {8192, 16384, 32768, 65536, 1 << 20, 2 << 20, 3 << 20, 5 << 20});
    const size_t n = pick(around) + static_cast<size_t>(choose(5)) - 2; const int k = choose(4);
    round_trip(content(n, k), mc::str(n, " bytes of ", kKind[k]), true);
  });
  scenario("compressed size around the internal buffer", [] {
    // Choose the input so that the compressed form has exactly the wanted size.
    const size_t want = (static_cast<size_t>(1 + choose(by_tier(2, 3))) << 20) + static_cast<size_t>(choose(7)) - 3;
    size_t n = want - 200;
    for (int i = 0; i < 12; i++)
    {
      const size_t c = zlib_helpers::CompressBytes(content(n, 1)).size();
      if (c == want) { break; }
      n = n + want - c;
    }
    round_trip(content(n, 1), mc::str("input compressed to about ", want, " bytes"), true);
  });
  scenario("plain size at the buffer, tiny compressed", [] {
    const size_t n = (static_cast<size_t>(1 + choose(by_tier(3, 6))) << 20) + static_cast<size_t>(choose(3)) - 1;
    round_trip(content(n, 0), mc::str(n, " zeros"), false);
  });
  scenario("foreign streams", [] {
    const int level = choose(10); const size_t n = pick(std::vector<size_t>{0, 1, 1000, 70000, 1 << 20, (1 << 20) + 1}); const int k = choose(4);
    const Bytes b = content(n, k); Bytes z(compressBound(b.size())); uLongf m = z.size();
    compress2(z.data(), &m, b.data(), b.size(), level); z.resize(m);
    const Bytes out = zlib_helpers::DecompressBytes(z);
    MC_CHECK(out == b, "a zlib stream of level ", level, " with ", n, " bytes of ", kKind[k], " was decompressed wrongly");
    mc::transition(); mc::state(mc::Hash().add(level).add(n).add(k).h);
  });
  scenario("truncated", [] {
    const auto& [b, z] = pick(streams()); const size_t n = static_cast<size_t>(choose(static_cast<int>(z.size())));
    damaged(Bytes(z.begin(), z.begin() + static_cast<long>(n)), b, true, mc::str("stream of ", b.size(), " bytes cut to ", n, " of ", z.size()));
  });
  scenario("one byte changed", [] {
    const auto& [b, z] = pick(streams()); const size_t at = static_cast<size_t>(choose(static_cast<int>(z.size()))); const int x = 1 + choose(255);
    Bytes d(z); d[at] = static_cast<uint8_t>(d[at] ^ x);
    damaged(d, b, false, mc::str("stream of ", b.size(), " bytes, byte ", at, " of ", z.size(), " xor ", x));
  });
  scenario("one byte changed, then cut", [] {
    const auto& [b, z] = streams()[static_cast<size_t>(by_tier(2, 1 + choose(4)))]; const size_t at = static_cast<size_t>(choose(static_cast<int>(z.size())));
    static const std::vector<int> xs{1, 0x20, 0x80, 0xff}; const int x = pick(xs); const size_t n = static_cast<size_t>(choose(static_cast<int>(z.size())));
    Bytes d(z); d[at] = static_cast<uint8_t>(d[at] ^ x); d.resize(n);
    damaged(d, b, true, mc::str("stream of ", b.size(), " bytes, byte ", at, " xor ", x, ", cut to ", n));
  });
  if (thorough())
    scenario("two bytes changed", [] {
      const auto& [b, z] = streams()[static_cast<size_t>(1 + choose(3))]; const size_t i = static_cast<size_t>(choose(static_cast<int>(z.size()))), j = static_cast<size_t>(choose(static_cast<int>(z.size())));
      static const std::vector<int> xs{1, 2, 0x10, 0x20, 0x80, 0xff}; const int x = pick(xs), y = pick(xs);
      Bytes d(z); d[i] = static_cast<uint8_t>(d[i] ^ x); d[j] = static_cast<uint8_t>(d[j] ^ y);
      damaged(d, b, false, mc::str("stream of ", b.size(), " bytes, bytes ", i, ", ", j, " xor ", x, ", ", y));
    });
  scenario("large stream cut", [] {
    // Output crosses the internal buffer before the data ends.
    static const Bytes b = content((1 << 20) + 70000, 3); static const Bytes z = zlib_helpers::CompressBytes(b);
    const size_t n = z.size() * static_cast<size_t>(choose(40)) / 40 ;
    damaged(Bytes(z.begin(), z.begin() + static_cast<long>(n)), b, true, mc::str("large stream cut to ", n, " of ", z.size()));
    for (size_t k = 1; k <= 5; k++) { damaged(Bytes(z.begin(), z.end() - static_cast<long>(k)), b, true, mc::str("large stream without its last ", k, " bytes")); }
  }, 1);
  scenario("not compressed at all", [] {
    static const std::vector<int> v{0, 1, 0x78, 0x9c, 0xff, 0x1f, 0x8b, 0x01};
    const int n = choose(5); Bytes b; for (int i = 0; i < n; i++) { b.push_back(static_cast<uint8_t>(pick(v))); }
    damaged(b, {}, true, mc::str("the bytes ", mc::vstr(std::vector<int>(b.begin(), b.end()))));
  });
}
