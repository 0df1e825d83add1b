// C07: reading shared objects and working on separate ones from several threads.
#include <functional>
#include <thread>
#include <zlib.h>
#include "C07.hpp"
MC_HARNESS("C07", "every pair of operations of the library, each pair on one shared object where both read the same kind and on objects of their own otherwise, in two threads that each run both, and every operation in three threads, with "
                  "happens-before race detection and preemptions at the callbacks, and every operation out of the callbacks of every other; a state is a distinct (operations, results)")
// zlib is not instrumented; what it reads and writes is told to the race detector here.
extern "C" int __real_inflate(z_streamp, int); extern "C" int __real_deflate(z_streamp, int);
namespace { int told(int (*f)(z_streamp, int), z_streamp s, int flush) { Bytef* const in = const_cast<Bytef*>(s->next_in); Bytef* const out = s->next_out; std::vector<Bytef> seen(in, in + s->avail_in); const int r = f(s, flush); for (volatile Bytef* p = out; p < s->next_out; p = p + 1) { *p = *p; } return r; } }
extern "C" int __wrap_inflate(z_streamp s, int flush) { return told(__real_inflate, s, flush); }
extern "C" int __wrap_deflate(z_streamp s, int flush) { return told(__real_deflate, s, flush); }
using together::Op; using together::ops;
std::vector<Op>& together::ops() { static std::vector<Op> all; return all; }
namespace { int countdown = -1, making = 0; const std::function<void()>* inner = nullptr; }
int together::level() { return making; }
void together::between() { mcs::point(); if (countdown >= 0 && countdown-- == 0) { countdown = -1; (*inner)(); } }
namespace
{
/// One operation from inside of the caller's functions of another one in the same thread.
void nested(size_t i, size_t j, int at)
{
  const std::string what = mc::str("'", ops()[j].name, "' at call ", at, " out of '", ops()[i].name, "'"); mc::note(what);
  making = 0; const auto a = ops()[i].make(); making = 1; const auto b = ops()[j].make(); making = 0; const std::string one = ops()[i].run(a.get()), two = ops()[j].run(b.get()); std::string in; bool ran = false;
  const std::function<void()> f = [&] { ran = true; in = ops()[j].run(b.get()); }; inner = &f; countdown = at; const std::string out = ops()[i].run(a.get()); countdown = -1; inner = nullptr;
  if (!ran) { throw mc::Skip(); }
  MC_CHECK(in == two, what, " gives ", in.substr(0, 300), " alone ", two.substr(0, 300)); MC_CHECK(out == one, what, ": the outer one gives ", out.substr(0, 300), " alone ", one.substr(0, 300));
  mc::transition(2); mc::state(mc::Hash().add(what).h);
}
void concurrently(const std::vector<std::vector<size_t>>& programs, int preemptions)
{
  std::string what = "running"; for (const auto& p : programs) { what += what == "running" ? "" : " beside"; for (size_t i : p) { what += " '" + ops()[i].name + "'"; } } mc::note(what);
  mcs::Options o; o.preemptions = preemptions; o.free_switches = false; o.horizon = 1000000;
  std::vector<std::vector<std::string>> got(programs.size()), alone(programs.size());
  mcs::run(o, [&] {
    std::vector<std::shared_ptr<const void>> objects(ops().size());
    for (const auto& p : programs) { for (size_t i : p) { for (size_t j = 0; j < ops().size(); j++) { if (objects[j] && ops()[j].make == ops()[i].make) { objects[i] = objects[j]; break; } } if (!objects[i]) { objects[i] = ops()[i].make(); } } }
    std::vector<std::thread> threads;
    for (size_t t = 0; t < programs.size(); t++)
    {
      got[t].resize(programs[t].size());
      threads.emplace_back([&, t] { for (size_t k = 0; k < programs[t].size(); k++) { const Op& op = ops()[programs[t][k]]; got[t][k] = op.run(objects[programs[t][k]].get()); } });
    }
    for (auto& t : threads) { t.join(); }
    // What they say alone, on new objects.
    for (size_t t = 0; t < programs.size(); t++) { for (size_t i : programs[t]) { const auto fresh = ops()[i].make(); alone[t].push_back(ops()[i].run(fresh.get())); } }
  });
  mc::Hash h;
  for (size_t t = 0; t < programs.size(); t++) { for (size_t k = 0; k < got[t].size(); k++) { mc::transition(); h.add(ops()[programs[t][k]].name).add(got[t][k]); if (got[t][k] != alone[t][k]) { mc::fail(mc::str(what, ": '", ops()[programs[t][k]].name, "' gives ", got[t][k].substr(0, 300), " alone ", alone[t][k].substr(0, 300))); } } }
  mc::state(h.h);
}
}
void mc::run()
{
  together::register_graphs(); together::register_values(); together::register_planners(); const int n = static_cast<int>(ops().size());
  scenario("pairs", [=] { const size_t i = static_cast<size_t>(choose(n)), j = static_cast<size_t>(choose(n)); if (j < i) { throw Skip(); } concurrently({{i, j}, {j, i}}, 0); });
  scenario("same in three threads", [=] { const size_t i = static_cast<size_t>(choose(n)); concurrently({{i, i}, {i}, {i, i}}, 0); }, 1);
  scenario("same, preempted", [=] { const size_t i = static_cast<size_t>(choose(n)); concurrently({{i}, {i}}, by_tier(1, 2)); });
  scenario("nested", [=] { const size_t i = static_cast<size_t>(choose(n)), j = static_cast<size_t>(choose(n)); const int k = choose(by_tier(6, 30)); nested(i, j, k < 4 ? k : k * k - 9); }, 1);
  scenario("pairs, preempted", [=] { const size_t i = static_cast<size_t>(choose(n)), j = static_cast<size_t>(choose(n)); if (j <= i) { throw Skip(); } concurrently({{i}, {j}}, 1); });
}
