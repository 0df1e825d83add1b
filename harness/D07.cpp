// D07: maybe types hold, copy, move and release their value exactly once.
#include "mc.hpp"
#include <common_robotics_utilities/maybe.hpp>
#include <set>
#include <map>
#include <cstring>
MC_HARNESS("D07", "every sequence of maybe operations on two/three maybes up to the depth bound, every copy/move inside an operation either succeeding or throwing, "
                  "against a model of contents with a registry of live value objects; a state is a distinct (contents, operation) pair")
using namespace common_robotics_utilities;
namespace
{
// registry of live values, checked on every construction and destruction
std::set<const void*> live;
bool may_throw = false;
int thrown = 0;
int64_t copies = 0, moves = 0;
struct Boom : std::runtime_error { Boom() : std::runtime_error("value constructor failed") {} };
void maybe_throw() { if (may_throw && mc::flip()) { thrown++; throw Boom(); } }
template<bool THROWING_MOVE> struct V
{
  int64_t* heap;      // owns memory so that a double destruction or a missed one is visible
  explicit V(int64_t v) : heap(new int64_t(v)) { reg(); }
  V(const V& o) : heap(nullptr) { o.alive("copied from"); maybe_throw(); heap = new int64_t(*o.heap); copies++; reg(); }
  V(V&& o) noexcept(!THROWING_MOVE) : heap(nullptr)
  { o.alive("moved from"); if (THROWING_MOVE) maybe_throw(); heap = new int64_t(*o.heap); *o.heap = -1; moves++; reg(); }
  V& operator=(const V& o) { alive("assigned to"); o.alive("assigned from"); maybe_throw(); *heap = *o.heap; copies++; return *this; }
  V& operator=(V&& o) noexcept(!THROWING_MOVE)
  { alive("assigned to"); o.alive("assigned from"); if (THROWING_MOVE) maybe_throw(); if (this != &o) { *heap = *o.heap; *o.heap = -1; } moves++; return *this; }
  ~V() { if (!live.erase(this)) mc::fail_soft("a value was destroyed twice or without having been constructed"); else delete heap; }
  void reg() { if (!live.insert(this).second) mc::fail_soft("a value was constructed on top of a live value"); }
  void alive(const char* how) const { if (!live.count(this)) mc::fail_soft(mc::str("a dead value was ", how)); }
  int64_t get() const { alive("read"); return *heap; }
};
const int64_t MOVED = -1;
/// Expected content of a maybe. ANY: holds a moved-from value.
struct M { bool has = false; int64_t v = 0; };
bool operator==(const M& a, const M& b) { return a.has == b.has && (!a.has || a.v == b.v); }

template<typename T> void check(const OwningMaybe<T>& m, const M& e, const std::string& tr)
{
  MC_CHECK(m.HasValue() == e.has, tr, ": reports a value: ", m.HasValue(), ", expected ", e.has);
  MC_CHECK(static_cast<bool>(m) == e.has, tr, ": bool conversion");
  if (e.has) MC_CHECK(m.Value().get() == e.v, tr, ": value ", m.Value().get(), " expected ", e.v);
  else
  {
    MC_CHECK(mc::throws([&] { (void)m.Value(); }) == 1, tr, ": reading an empty maybe did not throw");
    MC_CHECK(mc::throws([&] { (void)const_cast<OwningMaybe<T>&>(m).Value(); }) == 1, tr, ": reading an empty maybe did not throw (mutable)");
  }
}

template<typename T> void ops(int depth, bool throwing)
{
  live.clear(); may_throw = false; thrown = 0;
  std::string tr;
  {
    alignas(OwningMaybe<T>) unsigned char raw[2][sizeof(OwningMaybe<T>)];
    std::memset(raw, 0xA5, sizeof raw);
    OwningMaybe<T>* m[2] = {nullptr, nullptr};
    M e[2];
    int64_t next = 10;
    struct Armed { explicit Armed(bool on) { may_throw = on; thrown = 0; } ~Armed() { may_throw = false; } };
    auto destroy = [&](int i) { if (m[i]) { m[i]->~OwningMaybe<T>(); m[i] = nullptr; } };
    struct Cleanup { std::function<void()> f; ~Cleanup() { f(); } } cl{[&] { may_throw = false; destroy(0); destroy(1); }};
    m[1] = new (raw[1]) OwningMaybe<T>();
    // initial construction of 0
    const int ctor = mc::choose(4);
    if (ctor == 0) m[0] = new (raw[0]) OwningMaybe<T>();
    else if (ctor == 1) { const T v(next); m[0] = new (raw[0]) OwningMaybe<T>(v); e[0] = {true, next}; }
    else if (ctor == 2) { T v(next); m[0] = new (raw[0]) OwningMaybe<T>(std::move(v)); e[0] = {true, next}; MC_CHECK(v.get() == MOVED, "moving construction copied"); }
    else { T v(next); const OwningMaybe<T> src(v); m[0] = new (raw[0]) OwningMaybe<T>(src); e[0] = {true, next}; }
    next++;
    tr = mc::str("ctor", ctor);
    for (int s = 0; s < depth; s++)
    {
      const int op = mc::choose(12);
      const int i = mc::choose(2), j = 1 - i;
      const M b[2] = {e[0], e[1]};
      bool threw = false;
      tr += mc::str(" ", op, ".", i);
      M want_i = b[i], want_j = b[j];
      bool other_may_change = false;     // on an exception in a move the source may be moved from
      const int64_t copies_before = copies;
      auto run = [&](auto&& f) { const Armed a(throwing); try { f(); } catch (const Boom&) { threw = true; } };
      switch (op)
      {
        case 0: run([&] { *m[i] = *m[j]; }); want_i = b[j]; break;
        case 1: run([&] { *m[i] = std::move(*m[j]); }); want_i = b[j]; if (b[j].has) want_j.v = MOVED; other_may_change = true; break;
        case 2: run([&] { auto& self = *m[i]; *m[i] = self; }); break;
        case 3: { run([&] { auto& self = *m[i]; *m[i] = std::move(self); }); break; }
        case 4: { const T v(next); run([&] { *m[i] = OwningMaybe<T>(v); }); want_i = {true, next}; MC_CHECK(v.get() == next, tr, ": source value changed"); break; }
        case 5: { T v(next); run([&] { *m[i] = OwningMaybe<T>(std::move(v)); }); want_i = {true, next}; break; }
        case 6: run([&] { m[i]->Reset(); }); want_i = {}; break;
        case 7: run([&] { *m[i] = OwningMaybe<T>(); }); want_i = {}; break;
        case 8:
        {
          // destroy and construct anew from the other (in memory that still holds the old bytes)
          destroy(i); want_i = b[j];
          run([&] { m[i] = new (raw[i]) OwningMaybe<T>(*m[j]); });
          if (!m[i]) { m[i] = new (raw[i]) OwningMaybe<T>(); e[i] = {}; e[j] = b[j]; check(*m[i], e[i], tr); check(*m[j], e[j], tr); mc::transition(); continue; }
          break;
        }
        case 9:
        {
          destroy(i); want_i = b[j]; if (b[j].has) want_j.v = MOVED;
          run([&] { m[i] = new (raw[i]) OwningMaybe<T>(std::move(*m[j])); });
          if (!m[i]) { m[i] = new (raw[i]) OwningMaybe<T>(); e[i] = {}; e[j] = b[j]; check(*m[i], e[i], tr); check(*m[j], e[j], tr); mc::transition(); continue; }
          break;
        }
        case 10: if (!b[i].has) throw mc::Skip(); { T nv(next); run([&] { m[i]->Value() = nv; }); } want_i = {true, next}; break;
        default:
        {
          // from the value of the maybe itself
          if (!b[i].has) throw mc::Skip();
          run([&] { *m[i] = OwningMaybe<T>(m[i]->Value()); }); break;
        }
      }
      next++;
      // Moving must not fall back to copying: values can be unable or expensive to copy
      if (op == 1 || op == 3 || op == 5 || op == 6 || op == 7 || op == 9) MC_CHECK(copies == copies_before, tr, ": moving copied the value");
      if (!threw) { e[i] = want_i; if (op == 1 || op == 9) e[j] = want_j; }
      else
      {
        // a failed operation leaves the target with its old value, the new value, or nothing; nothing dangling
        e[i] = m[i]->HasValue() ? M{true, m[i]->Value().get()} : M{};
        MC_CHECK(e[i] == b[i] || e[i] == M{} || e[i] == want_i, tr, ": after a failed operation the maybe holds ", e[i].v);
        e[j] = b[j];
        if (other_may_change) { MC_CHECK(m[j]->HasValue() == b[j].has, tr, ": failed move changed the source"); if (b[j].has) e[j].v = m[j]->Value().get(); }
        tr += "!";
      }
      check(*m[i], e[i], tr); check(*m[j], e[j], tr);
      // exactly the values the model knows are alive
      size_t inside = 0;
      for (const void* p : live)
      {
        const auto* c = static_cast<const unsigned char*>(p);
        bool in = false; for (int k = 0; k < 2; k++) in |= c >= raw[k] && c < raw[k] + sizeof raw[k];
        MC_CHECK(in, tr, ": a temporary value was leaked"); inside++;
      }
      MC_CHECK(inside == size_t(e[0].has) + size_t(e[1].has), tr, ": ", inside, " live values");
      mc::transition();
      mc::state(mc::Hash().add(op).add(i).add(b[0].has).add(b[1].has).add(threw).add(e[0].has).add(e[1].has).h);
    }
  }
  MC_CHECK(live.empty(), tr, ": ", live.size(), " values were never destroyed");
  mc::note(tr);
}
/// A vector of maybes (growth, erase, swap, insert) keeps contents and lifetimes.
template<typename T> void containers()
{
  live.clear(); may_throw = false;
  std::string tr;
  {
    std::vector<OwningMaybe<T>> v; std::vector<M> e;
    const int depth = mc::by_tier(4, 6); int64_t next = 5;
    for (int s = 0; s < depth; s++)
    {
      const int op = mc::choose(5); tr += mc::str(" ", op);
      if (op == 0) { v.push_back(OwningMaybe<T>(T(next))); e.push_back({true, next}); }
      else if (op == 1) { v.emplace_back(); e.push_back({}); }
      else if (v.empty()) throw mc::Skip();
      else if (op == 2) { v.erase(v.begin()); e.erase(e.begin()); }
      else if (op == 3) { std::swap(v.front(), v.back()); std::swap(e.front(), e.back()); }
      else { const auto c = v; MC_CHECK(c.size() == e.size(), ""); v.insert(v.begin(), c.begin(), c.end()); const auto c2 = e; e.insert(e.begin(), c2.begin(), c2.end()); }
      next++;
      for (size_t k = 0; k < e.size(); k++) check(v[k], e[k], tr);
      size_t n = 0; for (auto& x : e) n += x.has;
      MC_CHECK(live.size() == n, tr, ": ", live.size(), " live values, expected ", n);
      mc::transition();
    }
  }
  MC_CHECK(live.empty(), tr, ": values were never destroyed");
}
void referencing()
{
  live.clear(); may_throw = false;
  using T = V<false>;
  std::string tr;
  {
    T a(1), b(2);
    T* obj[2] = {&a, &b};
    ReferencingMaybe<T> m[2]; int e[2] = {-1, -1};
    const int depth = mc::by_tier(4, 5);
    for (int s = 0; s < depth; s++)
    {
      const int op = mc::choose(8), i = mc::choose(2), j = 1 - i; tr += mc::str(" ", op, ".", i);
      const int64_t c0 = copies, m0 = moves;
      bool writes = false;
      switch (op)
      {
        case 0: m[i] = ReferencingMaybe<T>(a); e[i] = 0; break;
        case 1: m[i] = ReferencingMaybe<T>(b); e[i] = 1; break;
        case 2: m[i] = m[j]; e[i] = e[j]; break;
        case 3: { m[i] = std::move(m[j]); e[i] = e[j]; break; }
        case 4: { auto& self = m[i]; m[i] = self; break; }
        case 5: m[i].Reset(); e[i] = -1; break;
        case 6: { ReferencingMaybe<T> c(m[i]); m[j] = c; e[j] = e[i]; break; }
        default: if (e[i] < 0) throw mc::Skip(); *m[i].Value().heap = 100 + s; MC_CHECK(obj[e[i]]->get() == 100 + s, tr, ": change did not reach the object"); writes = true;
      }
      (void)writes;
      MC_CHECK(copies == c0 && moves == m0, tr, ": the referenced object was copied or moved");
      for (int k = 0; k < 2; k++)
      {
        const ReferencingMaybe<T>& cm = m[k];
        MC_CHECK(cm.HasValue() == (e[k] >= 0) && static_cast<bool>(cm) == (e[k] >= 0), tr, ": has value ", cm.HasValue());
        if (e[k] >= 0) { MC_CHECK(&cm.Value() == obj[e[k]], tr, ": refers to another object"); MC_CHECK(&m[k].Value() == obj[e[k]], tr, ": refers to another object"); }
        else { MC_CHECK(mc::throws([&] { (void)cm.Value(); }) == 1, tr, ": reading an empty maybe did not throw"); MC_CHECK(mc::throws([&] { (void)m[k].Value(); }) == 1, tr, ": reading an empty maybe did not throw"); }
      }
      MC_CHECK(live.size() == 2, tr, ": objects died");
      mc::state(mc::Hash().add(op).add(i).add(e[0]).add(e[1]).h); mc::transition();
    }
  }
  MC_CHECK(live.empty(), tr, ": leak");
}
}  // namespace
void mc::run()
{
  scenario("operations", [] { ops<V<false>>(by_tier(4, 5), false); }, 3);
  scenario("throwing copies", [] { ops<V<false>>(by_tier(3, 4), true); }, 3);
  scenario("throwing copies and moves", [] { ops<V<true>>(by_tier(3, 4), true); }, 3);
  scenario("in vectors", containers<V<false>>, 3);
  scenario("in vectors, moves may throw", containers<V<true>>, 3);
  scenario("referencing", referencing, 2);
}
