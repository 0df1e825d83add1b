// S02: deserializing damaged data fails cleanly.
#include "codecs.hpp"
#include <new>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#endif
MC_HARNESS("S02", "every codec x every sample value: every truncation, every start offset inside and outside, every 8-byte window replaced by every one of a set of hostile counts, every single byte "
                  "replaced by hostile values (thorough: every pair of windows); allocation sizes are monitored and the buffer is fenced by AddressSanitizer; a state is a distinct (codec, damage, outcome)")
using namespace codecs;
namespace
{
bool watching = false; size_t limit = 0; size_t worst = 0;
}
static void* alloc(size_t n, size_t al)
{
  if (watching && n > limit) { worst = std::max(worst, n); throw std::bad_alloc(); }
  void* p = al > 16 ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return alloc(n, 0); }
void* operator new[](size_t n) { return alloc(n, 0); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
// Eigen allocates with malloc; it is intercepted by name.
extern "C" void* __real_malloc(size_t n);
extern "C" void* __wrap_malloc(size_t n)
{
  if (watching && n > limit) { worst = std::max(worst, n); return nullptr; }
  return __real_malloc(n);
}
namespace
{
/// Deserialize from an exactly sized buffer. Returns 0 value, 1 exception.
int attempt(const Codec& c, const Buffer& b, uint64_t off, const std::string& what, std::string* value = nullptr)
{
  const Buffer tight(b);            // capacity == size, so anything past the end is fenced
  limit = 8192 + 512 * tight.size(); worst = 0;
  int r = 0; uint64_t read = 0;
  std::pair<std::string, uint64_t> d;
  {
    struct W { W() { watching = true; } ~W() { watching = false; } } w;
    try { d = c.des(tight, off); }
    catch (const std::exception&) { r = 1; }
  }
  MC_CHECK(worst == 0, c.name, " ", what, ": asked for ", worst, " bytes of memory for a buffer of ", tight.size());
  if (r == 0)
  {
    read = d.second;
    MC_CHECK(off <= tight.size() && read <= tight.size() - off, c.name, " ", what, ": reports reading ", read, " bytes at ", off, " of ", tight.size());
    if (value) *value = d.first;
  }
  mc::transition(); mc::state(mc::Hash().add(c.name).add(what).add(r).h);
  return r;
}
struct Case { const Codec* c; size_t v; Buffer b; };
Case pick_case(bool last_only)
{
  Case k; k.c = &mc::pick(all());
  k.v = last_only ? k.c->n - 1 : static_cast<size_t>(mc::choose(static_cast<int>(k.c->n)));
  k.c->ser(k.v, k.b);
  mc::note(mc::str(k.c->name, " value ", k.v));
  return k;
}
void truncated()
{
  const Case k = pick_case(false);
  for (uint64_t before : {0, 5})
    for (size_t cut = 0; cut < k.b.size(); cut++)
    {
      Buffer b(before, 0xEE); b.insert(b.end(), k.b.begin(), k.b.begin() + static_cast<long>(cut));
      MC_CHECK(attempt(*k.c, b, before, mc::str("value ", k.v, " cut to ", cut, " of ", k.b.size(), " bytes")) == 1, k.c->name, " value ", k.v, " cut to ", cut, " of ", k.b.size(), " bytes was accepted");
    }
}
void offsets()
{
  const Case k = pick_case(false);
  for (uint64_t off : {uint64_t(k.b.size()), uint64_t(k.b.size()) + 1, uint64_t(k.b.size()) + 1000, uint64_t(1) << 32, uint64_t(1) << 63, ~uint64_t(0), ~uint64_t(0) - 3, ~uint64_t(0) - 7, ~uint64_t(0) - 15, ~uint64_t(0) - 127})
    MC_CHECK(attempt(*k.c, k.b, off, mc::str("at offset ", off)) == 1, k.c->name, " read at offset ", off, " of ", k.b.size(), " was accepted");
  for (uint64_t off = 1; off < k.b.size(); off++) (void)attempt(*k.c, k.b, off, mc::str("at inner offset ", off));
  const Buffer empty;
  for (uint64_t off : {uint64_t(0), uint64_t(1), ~uint64_t(0)}) MC_CHECK(attempt(*k.c, empty, off, "in an empty buffer") == 1, k.c->name, " read from an empty buffer");
}
std::vector<uint64_t> hostile(uint64_t old, uint64_t len)
{
  std::vector<uint64_t> r{0, 1, 2, old + 1, old - 1, old * 2, len, len + 1, len / 2, len / 4, len / 8, len / 8 + 1, 1000, 1 << 16, uint64_t(1) << 24, uint64_t(1) << 31, uint64_t(1) << 32, (uint64_t(1) << 32) + old, uint64_t(1) << 40,
                      uint64_t(1) << 58, uint64_t(1) << 59, (uint64_t(1) << 59) + 1, uint64_t(1) << 60, (uint64_t(1) << 60) + old, uint64_t(1) << 61, (uint64_t(1) << 61) + old, (uint64_t(1) << 61) + 1, uint64_t(1) << 62, (uint64_t(1) << 62) + old,
                      uint64_t(1) << 63, (uint64_t(1) << 63) - 1, (uint64_t(1) << 63) + old, ~uint64_t(0), ~uint64_t(0) - 7, ~uint64_t(0) - old, uint64_t(INT64_MAX) / 8, uint64_t(INT64_MAX) / 4 + 1};
  std::vector<uint64_t> big = r; for (uint64_t x : big) { uint64_t s = 0; for (int i = 0; i < 8; i++) s |= (x >> (8 * i) & 255) << (56 - 8 * i); r.push_back(s); }
  return r;
}
void windows()
{
  Case k = pick_case(false);
  if (k.b.size() < 8) throw mc::Skip();
  for (size_t at = 0; at + 8 <= k.b.size(); at++)
  {
    uint64_t old; std::memcpy(&old, &k.b[at], 8);
    for (uint64_t x : hostile(old, k.b.size()))
    {
      Buffer b = k.b; std::memcpy(&b[at], &x, 8);
      (void)attempt(*k.c, b, 0, mc::str("value ", k.v, " with bytes ", at, "..", at + 7, " set to ", x));
      if (x != old) { Buffer c(3, 1); c.insert(c.end(), b.begin(), b.end()); (void)attempt(*k.c, c, 3, mc::str("value ", k.v, " at 3 with bytes ", at, "..", at + 7, " set to ", x)); }
    }
  }
}
void bytes()
{
  Case k = pick_case(false);
  for (size_t at = 0; at < k.b.size(); at++)
    for (int x : {0, 1, 2, 0x7F, 0x80, 0xFF, k.b[at] ^ 1, k.b[at] ^ 0x80})
    { Buffer b = k.b; b[at] = static_cast<uint8_t>(x); (void)attempt(*k.c, b, 0, mc::str("value ", k.v, " with byte ", at, " set to ", x)); }
}
void two_windows()
{
  Case k = pick_case(true);
  if (k.b.size() < 16) throw mc::Skip();
  const size_t step = 4;
  const size_t n = (k.b.size() - 8) / step + 1;
  const size_t a = static_cast<size_t>(mc::choose(static_cast<int>(n))) * step;
  const std::vector<uint64_t> xs{0, 1, 3, 1 << 16, uint64_t(1) << 32, uint64_t(1) << 61, (uint64_t(1) << 61) + 1, uint64_t(1) << 62, uint64_t(1) << 63, ~uint64_t(0), uint64_t(INT64_MAX)};
  for (size_t b = a + 8; b + 8 <= k.b.size(); b += step)
    for (uint64_t x : xs) for (uint64_t y : xs)
    { Buffer q = k.b; std::memcpy(&q[a], &x, 8); std::memcpy(&q[b], &y, 8); (void)attempt(*k.c, q, 0, mc::str("windows ", a, "=", x, " ", b, "=", y)); }
}
/// Linkage damage: headers right, contents wrong.
void matrix_headers()
{
  const std::vector<uint64_t> xs{0, 1, 2, 3, 6, uint64_t(1) << 31, uint64_t(1) << 32, uint64_t(1) << 60, uint64_t(1) << 61, (uint64_t(1) << 61) + 1, uint64_t(1) << 62, uint64_t(INT64_MAX), uint64_t(1) << 63, (uint64_t(1) << 63) + 1, ~uint64_t(0)};
  const uint64_t r = mc::pick(xs), c = mc::pick(xs); const int n = mc::choose(8);
  const Codec* m = nullptr; for (auto& q : all()) if (q.name == "MatrixXd") m = &q;
  Buffer b; SerializeMemcpyable<uint64_t>(r, b); SerializeMemcpyable<uint64_t>(c, b); for (int i = 0; i < n; i++) SerializeMemcpyable<double>(i, b);
  const unsigned __int128 need = static_cast<unsigned __int128>(r) * c;
  const int t = attempt(*m, b, 0, mc::str(r, "x", c, " with ", n, " items"));
  if (need > static_cast<unsigned>(n)) MC_CHECK(t == 1, "matrix of ", r, "x", c, " read from ", n, " items");
}
}  // namespace
void mc::run()
{
  scenario("truncated", truncated, 2);
  scenario("offsets", offsets, 2);
  scenario("matrix headers", matrix_headers);
  scenario("windows", windows, 2);
  scenario("bytes", bytes, 2);
  if (thorough()) scenario("two windows", two_windows, 2);
}
