// C05: the copyable atomic wrapper behaves as one linearizable register.
#include <memory>
#include <thread>
#include <vector>
#include "mc.hpp"
#include "mcs.hpp"
#include <common_robotics_utilities/utility.hpp>
MC_HARNESS("C05", "all programs of 2 threads x 1-2 operations and of 3 threads x 1 operation (thorough: 3 x 2 over a reduced alphabet) on two shared wrappers, every interleaving (no preemption bound), each "
                  "history checked for linearizability; message passing through every path and ordering with happens-before race detection; a state is a distinct (program, history)")
using namespace common_robotics_utilities;
namespace
{
enum Kind { LOAD_A, LOAD_B, STORE_A, ADD_A, SUB_A, COPY_AB, MOVE_AB, COPY_BA, NEW_FROM_A, MOVED_FROM_A, CROSS_AB, SELF_A, kKinds };
const char* kName[] = {"load a", "load b", "store a", "add a", "sub a", "b=a", "b=move(a)", "a=b", "new from a", "new from move(a)", "b=other-order copy of a", "a=a"};
struct Op { int kind; int64_t arg; };
/// An atomic step of an operation: register (0 a, 1 b), what (0 read, 1 write, 2 add), value read or written.
struct Done { int thread; Op op; long call, ret; int64_t result; };
/// Is there an order of atomic steps, each between call and return of its operation, that explains all results?
struct Checker
{
  const std::vector<Done>& h; std::vector<int> stage; std::vector<int64_t> tmp;
  int64_t wrap; int64_t goal[2];
  int64_t fit(int64_t v) const { return wrap ? static_cast<int64_t>(static_cast<uint8_t>(v)) : v; }
  static int steps(int k) { return (k == COPY_AB || k == MOVE_AB || k == COPY_BA || k == CROSS_AB) ? 2 : k == SELF_A ? 0 : 1; }
  bool search(int64_t a, int64_t b)
  {
    // earliest return among unfinished operations limits what may start
    bool any = false; long limit = 1l << 60;
    for (size_t i = 0; i < h.size(); i++) { if (stage[i] < steps(h[i].op.kind)) { any = true; limit = std::min(limit, h[i].ret); } }
    if (!any) { return a == goal[0] && b == goal[1]; }
    for (size_t i = 0; i < h.size(); i++)
    {
      const Done& d = h[i]; if (stage[i] >= steps(d.op.kind) || d.call > limit) { continue; }
      int64_t na = a, nb = b; bool ok = true; const int64_t old = tmp[i];
      switch (d.op.kind)
      {
        case LOAD_A: case NEW_FROM_A: case MOVED_FROM_A: ok = d.result == a; break;
        case LOAD_B: ok = d.result == b; break;
        case STORE_A: na = fit(d.op.arg); break;
        case ADD_A: ok = d.result == a; na = fit(a + d.op.arg); break;
        case SUB_A: ok = d.result == a; na = fit(a - d.op.arg); break;
        case COPY_BA: if (stage[i] == 0) { tmp[i] = b; } else { na = tmp[i]; } break;
        default: if (stage[i] == 0) { tmp[i] = a; } else { nb = tmp[i]; } break;
      }
      if (ok) { stage[i]++; if (search(na, nb)) { return true; } stage[i]--; }
      tmp[i] = old;
    }
    return false;
  }
};
template<typename T, std::memory_order order, std::memory_order other>
void linear(const std::vector<std::vector<Op>>& program, const std::string& what)
{
  using W = utility::CopyableMoveableAtomic<T, order>; using V = utility::CopyableMoveableAtomic<T, other>;
  mcs::Options o; o.preemptions = 1000;
  std::vector<Done> history; history.reserve(16); long clock = 0; int64_t goal[2] = {0, 0};
  mcs::run(o, [&] {
    W a(static_cast<T>(5)), b; 
    MC_CHECK(b.load() == T() && a.load() == static_cast<T>(5), what, ": wrong initial values");
    const auto execute = [&](int thread, const Op& op) {
      Done d{thread, op, 0, 0, 0};
      { const mcs::Quiet q; d.call = ++clock; }
      switch (op.kind)
      {
        case LOAD_A: d.result = static_cast<int64_t>(a.load()); break;
        case LOAD_B: d.result = static_cast<int64_t>(b.load()); break;
        case STORE_A: a.store(static_cast<T>(op.arg)); break;
        case ADD_A: d.result = static_cast<int64_t>(a.fetch_add(static_cast<T>(op.arg))); break;
        case SUB_A: d.result = static_cast<int64_t>(a.fetch_sub(static_cast<T>(op.arg))); break;
        case COPY_AB: b = a; break;
        case MOVE_AB: b = std::move(a); break;
        case COPY_BA: a = b; break;
        case NEW_FROM_A: { const W c(a); d.result = static_cast<int64_t>(c.load()); break; }
        case MOVED_FROM_A: { const W c(std::move(a)); d.result = static_cast<int64_t>(c.load()); break; }
        case CROSS_AB: { const V c(a); b = c; break; }
        default: { W& alias = a; a = alias; break; }
      }
      { const mcs::Quiet q; d.ret = ++clock; history.push_back(d); }
    };
    std::vector<std::thread> ts; ts.reserve(4);
    for (size_t t = 1; t < program.size(); t++) { ts.emplace_back([&, t] { for (const Op& op : program[t]) { execute(static_cast<int>(t), op); } }); }
    for (const Op& op : program[0]) { execute(0, op); }
    for (auto& t : ts) { t.join(); }
    goal[0] = static_cast<int64_t>(a.load()); goal[1] = static_cast<int64_t>(b.load());
  });
  Checker c{history, std::vector<int>(history.size(), 0), std::vector<int64_t>(history.size(), 0), sizeof(T) == 1, {goal[0], goal[1]}};
  std::string s;
  for (const Done& d : history) { s += mc::str(" [", d.call, "-", d.ret, " thread ", d.thread, ": ", kName[d.op.kind], " ", d.op.arg, " -> ", d.result, "]"); }
  MC_CHECK(c.search(5, 0), what, ": no order of atomic steps explains the history", s, " with final values ", goal[0], ", ", goal[1]);
  mc::state(mc::Hash().add(what).add(s).add(goal[0]).add(goal[1]).h);
  mc::note(what + ":" + s);
}
Op choose_op(const std::vector<Op>& ops) { return mc::pick(ops); }
const std::vector<Op>& all_ops()
{ static const std::vector<Op> v{{LOAD_A, 0}, {LOAD_B, 0}, {STORE_A, 7}, {ADD_A, 3}, {SUB_A, 4}, {COPY_AB, 0}, {MOVE_AB, 0}, {COPY_BA, 0}, {NEW_FROM_A, 0}, {MOVED_FROM_A, 0}, {CROSS_AB, 0}, {SELF_A, 0}}; return v; }
const std::vector<Op>& core_ops()
{ static const std::vector<Op> v{{LOAD_A, 0}, {STORE_A, 7}, {ADD_A, 3}, {SUB_A, 4}, {COPY_AB, 0}, {COPY_BA, 0}}; return v; }
const std::vector<Op>& tiny_ops()
{ static const std::vector<Op> v{{LOAD_A, 0}, {ADD_A, 3}, {STORE_A, 7}, {COPY_AB, 0}, {COPY_BA, 0}}; return v; }

struct Message { int value = 0; };
/// Writer publishes through the wrapper; reader that sees the value must see the message.
template<typename W, typename V> void message(int writer, int path, int reader, const std::string& what)
{
  mcs::Options o; o.preemptions = 1000;
  bool seen = false;
  mcs::run(o, [&] {
    auto m = std::make_unique<Message>(); W a(0), b(0);
    std::thread t([&] {
      m->value = 42;
      switch (writer)
      {
        case 0: a.store(1); break;
        case 1: a.store(1, std::memory_order_release); break;
        case 2: a.fetch_add(1); break;
        case 3: a.fetch_add(1, std::memory_order_release); break;
        case 4: a.fetch_sub(-1); break;
        case 5: a.fetch_sub(-1, std::memory_order_acq_rel); break;
        case 6: { W c(1); a = c; break; }
        case 7: { W c(1); a = std::move(c); break; }
        case 8: { V c(1); a = c; break; }
        default: { V c(1); a = std::move(c); break; }
      }
    });
    std::unique_ptr<std::thread> relay;
    if (path == 1) { relay.reset(new std::thread([&] { b = a; })); }
    if (path == 2) { relay.reset(new std::thread([&] { W c(a); b.store(c.load()); })); }
    if (path == 3) { relay.reset(new std::thread([&] { b = std::move(a); })); }
    if (path == 4) { relay.reset(new std::thread([&] { V c(a); b = c; })); }
    if (path == 5) { relay.reset(new std::thread([&] { V c(std::move(a)); b = std::move(c); })); }
    if (path == 6) { relay.reset(new std::thread([&] { V c(0); c = a; b = c; })); }
    if (path == 7) { relay.reset(new std::thread([&] { V c(0); c = std::move(a); b = std::move(c); })); }
    W& r = path ? b : a; int v = 0;
    switch (reader)
    {
      case 0: v = r.load(); break;
      case 1: v = r.load(std::memory_order_acquire); break;
      case 2: v = r.fetch_add(0); break;
      case 3: v = r.fetch_add(0, std::memory_order_acquire); break;
      case 4: v = r.fetch_sub(0, std::memory_order_acq_rel); break;
      case 5: { const W c(r); v = c.load(); break; }
      case 6: { const W c(std::move(r)); v = c.load(); break; }
      case 7: { const V c(r); v = c.load(); break; }
      case 8: { const V c(std::move(r)); v = c.load(); break; }
      case 9: { V c(0); c = r; v = c.load(); break; }
      case 10: { V c(0); c = std::move(r); v = c.load(); break; }
      case 11: { W c(0); c = r; v = c.load(); break; }
      default: { W c(0); c = std::move(r); v = c.load(); break; }
    }
    if (v == 1) { seen = true; MC_CHECK(m->value == 42, what, ": the message was not visible"); }
    t.join(); if (relay) { relay->join(); }
  });
  mc::state(mc::Hash().add(what).add(seen).h);
}
}
void mc::run()
{
  scenario("one thread", [] {
    const int n = 1 + choose(3); std::vector<std::vector<Op>> p(1); for (int i = 0; i < n; i++) { p[0].push_back(choose_op(all_ops())); }
    switch (choose(3))
    {
      case 0: linear<int64_t, std::memory_order_seq_cst, std::memory_order_relaxed>(p, "int64"); break;
      case 1: linear<uint8_t, std::memory_order_seq_cst, std::memory_order_relaxed>(p, "uint8"); break;
      default: linear<int32_t, std::memory_order_relaxed, std::memory_order_seq_cst>(p, "relaxed int32"); break;
    }
  }, 3);
  scenario("two threads", [] {
    const int n = 1 + choose(2), m = 1 + choose(2); std::vector<std::vector<Op>> p(2);
    const bool large = thorough() || n + m < 4;
    for (int i = 0; i < n; i++) { p[0].push_back(choose_op(!large ? tiny_ops() : i == 0 ? all_ops() : core_ops())); }
    for (int i = 0; i < m; i++) { p[1].push_back(choose_op(!large ? tiny_ops() : i == 1 ? all_ops() : core_ops())); }
    linear<int32_t, std::memory_order_seq_cst, std::memory_order_relaxed>(p, "int32");
  }, 6);
  scenario("two threads, relaxed", [] {
    std::vector<std::vector<Op>> p(2);
    p[0].push_back(choose_op(all_ops())); p[1].push_back(choose_op(core_ops())); p[1].push_back(choose_op(core_ops()));
    linear<int64_t, std::memory_order_relaxed, std::memory_order_seq_cst>(p, "relaxed int64");
  }, 5);
  scenario("two threads, small type", [] {
    std::vector<std::vector<Op>> p(2);
    static const std::vector<Op> v{{LOAD_A, 0}, {STORE_A, 250}, {ADD_A, 200}, {SUB_A, 100}, {COPY_AB, 0}, {COPY_BA, 0}};
    p[0].push_back(choose_op(v)); p[0].push_back(choose_op(v)); p[1].push_back(choose_op(v));
    linear<uint8_t, std::memory_order_seq_cst, std::memory_order_relaxed>(p, "uint8");
  }, 5);
  scenario("three threads", [] {
    std::vector<std::vector<Op>> p(3);
    for (auto& t : p) { t.push_back(choose_op(thorough() ? core_ops() : tiny_ops())); }
    if (thorough() && flip()) { p[0].push_back(Op{LOAD_A, 0}); }
    linear<int32_t, std::memory_order_seq_cst, std::memory_order_relaxed>(p, "int32");
  }, 7);
  if (thorough())
    scenario("three threads, two operations", [] {
      std::vector<std::vector<Op>> p(3);
      for (auto& t : p) { t.push_back(choose_op(core_ops())); }
      p[0].push_back(choose_op(core_ops())); p[1].push_back(choose_op(core_ops()));
      linear<int32_t, std::memory_order_seq_cst, std::memory_order_relaxed>(p, "int32");
    }, 9);
  scenario("message passing", [] {
    // The wrappers in between may have the weakest default order: reading a wrapper uses that wrapper's own.
    const int w = choose(10), p = choose(8), r = choose(13);
    if (!thorough() && p && !((w == 0 || w == 2 || w == 6) && (r == 0 || r == 2 || r == 5 || r == 8))) { throw Skip(); }
    message<utility::CopyableMoveableAtomic<int>, utility::CopyableMoveableAtomic<int, std::memory_order_relaxed>>(w, p, r, str("writer ", w, " path ", p, " reader ", r));
  }, 6);
}
