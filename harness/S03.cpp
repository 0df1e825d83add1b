// S03: base64 encoding round-trips and decoding any text is safe.
#include "mc.hpp"
#include <memory>
#include <common_robotics_utilities/base64_helpers.hpp>
MC_HARNESS("S03", "every byte string of up to 2 bytes (thorough 3), every value at every position of longer strings, every length to 64; decoding every text up to 5 (6) characters over an alphabet of all "
                  "character classes and every text up to 2 (3) characters over all 256; texts are fenced by AddressSanitizer; a state is a distinct (text, decoded bytes) pair")
using namespace common_robotics_utilities;
namespace
{
using Bytes = std::vector<uint8_t>;
const char* kAlphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
/// Reference: 24-bit groups, straight from RFC 4648.
std::string reference(const Bytes& b)
{
  std::string out;
  for (size_t i = 0; i < b.size(); i += 3)
  {
    const size_t have = std::min<size_t>(3, b.size() - i);
    uint32_t v = 0;
    for (size_t k = 0; k < 3; k++) v = v * 256u + (k < have ? b[i + k] : 0u);
    for (size_t k = 0; k < 4; k++)
      out += k <= have ? kAlphabet[(v / (k == 0 ? 262144u : k == 1 ? 4096u : k == 2 ? 64u : 1u)) % 64u] : '=';
  }
  return out;
}
/// A heap copy with no spare room, so that anything beyond text and terminator is fenced.
void round_trip(const Bytes& b)
{
  const Bytes tight(b);
  const std::string text = base64_helpers::Encode(tight);
  MC_CHECK(text == reference(b), "encoding ", b.size(), " bytes ", mc::vstr(std::vector<int>(b.begin(), b.end())), " gave '", text, "' instead of '", reference(b), "'");
  const Bytes back = base64_helpers::Decode(text);
  MC_CHECK(back == b, "decoding '", text, "' gave ", mc::vstr(std::vector<int>(back.begin(), back.end())), " instead of ", mc::vstr(std::vector<int>(b.begin(), b.end())));
  // The same text without its padding.
  std::string bare = text; while (!bare.empty() && bare.back() == '=') { bare.pop_back(); } bare.shrink_to_fit();
  const auto p = std::make_unique<std::string>(bare); const Bytes again = base64_helpers::Decode(*p);
  MC_CHECK(again == b, "decoding '", bare, "' without its padding gave ", mc::vstr(std::vector<int>(again.begin(), again.end())), " instead of ", mc::vstr(std::vector<int>(b.begin(), b.end())));
  mc::transition(3); mc::state(mc::Hash().addv(b).h);
}
void decode_any(const std::string& t)
{
  // A string with exactly this capacity on the heap for lengths over the small-string size; short
  // ones are placed behind a fenced prefix by constructing the string object itself on the heap.
  auto p = std::make_unique<std::string>(t);
  Bytes out;
  const int r = mc::throws([&] { out = base64_helpers::Decode(*p); });
  MC_CHECK(r != 2, "decoding threw something that is not an exception");
  if (r == 0)
    MC_CHECK(out.size() * 4 <= t.size() * 3 + 3, "decoding ", t.size(), " characters gave ", out.size(), " bytes");
  MC_CHECK(*p == t, "decoding changed the text");
  mc::transition(); mc::state(mc::Hash().add(t).addv(out).add(r).h);
}
}
void mc::run()
{
  scenario("short", [] {
    const int n = choose(by_tier(3, 4));
    Bytes b; for (int i = 0; i < n; i++) b.push_back(static_cast<uint8_t>(choose(256)));
    round_trip(b);
  });
  scenario("positions", [] {
    const size_t n = 3 + static_cast<size_t>(choose(15)), at = static_cast<size_t>(choose(static_cast<int>(n)));
    const uint8_t fill = pick(std::vector<uint8_t>{0, 255, 0xA5, 0x5A});
    Bytes b(n, fill); b[at] = static_cast<uint8_t>(choose(256));
    round_trip(b);
  });
  scenario("lengths", [] {
    const size_t n = static_cast<size_t>(choose(300)); const int k = choose(4);
    Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = static_cast<uint8_t>(k == 0 ? 0 : k == 1 ? 255 : k == 2 ? i : i * 167 + 13);
    round_trip(b);
  }, 1);
  scenario("large", [] {
    const size_t n = pick(std::vector<size_t>{4095, 4096, 4097, 65534, 65535, 65536, 65537, 100001, 262145}); const int k = choose(3);
    Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = static_cast<uint8_t>(k == 0 ? 255 : k == 1 ? i * 167 + i / 256 : (i * i) >> 3);
    const std::string text = base64_helpers::Encode(b);
    MC_CHECK(text == reference(b), "encoding ", n, " bytes of kind ", k, " gave a wrong text");
    MC_CHECK(base64_helpers::Decode(text) == b, "decoding the text of ", n, " bytes of kind ", k, " gave other bytes");
    transition(2); state(Hash().add(n).add(k).h);
  }, 1);
  scenario("any text, classes", [] {
    static const std::vector<char> alpha{'A', 'z', '9', '+', '/', '-', '_', '=', '\n', '\0', '\x7f', '\x80', '\xff'};
    const int n = choose(by_tier(6, 7)); std::string t;
    for (int i = 0; i < n; i++) t += pick(alpha);
    decode_any(t);
  });
  scenario("any text, all characters", [] {
    const int n = choose(by_tier(3, 4)); std::string t;
    for (int i = 0; i < n; i++) t += static_cast<char>(choose(256));
    decode_any(t);
  });
  scenario("long text with a stranger", [] {
    static const std::vector<char> alpha{'=', '\n', '\0', '\x80', '\xff', '-', ',', ' '};
    const size_t n = 16 + static_cast<size_t>(choose(24)), at = static_cast<size_t>(choose(static_cast<int>(n)));
    std::string t(n, 'Q'); t[at] = pick(alpha); t.shrink_to_fit();
    decode_any(t);
  });
}
