// C02: parallel loops finish, hand over results and failures, and never race.
#include <algorithm>
#include <map>
#include <set>
#include <vector>
#include "mc.hpp"
#include "mcs.hpp"
#include <common_robotics_utilities/parallelism.hpp>
MC_HARNESS("C02", "every loop variant x backend x set of throwing work items x failing thread creations x spurious wake-ups, under every schedule within the preemption bound, with happens-before race and "
                  "use-after-free detection and deadlock and livelock detection; a state is a distinct (configuration, order of work calls, outcome)")
using namespace common_robotics_utilities;
using parallelism::DegreeOfParallelism; using parallelism::ParallelForBackend; using parallelism::ThreadWorkRange;
namespace
{
struct Config { int kind, backend, length, threads, delivered; unsigned throwing; };
const char* kKind[] = {"static range loop", "static index loop", "dynamic range loop", "dynamic index loop"};
const char* kBackend[] = {"OpenMP", "async", "best"};
std::string text(const Config& c)
{ return mc::str(kKind[c.kind], " on the ", kBackend[c.backend], " backend, ", c.length, " indices, ", c.threads, " threads (", c.delivered, " delivered), throwing set ", c.throwing); }
struct Oops { int64_t index; };
/// Overwrites the stack that the loop used, in competition with anything that still uses it.
__attribute__((noinline)) void scribble()
{
  volatile char junk[6000];
  for (size_t i = 0; i < sizeof junk; i += 8) { junk[i] = 1; }
  mcs::point();
  for (size_t i = 0; i < sizeof junk; i += 8) { junk[i] = 2; }
}
constexpr int64_t kStart = 10;
void drive(const Config& c, const mcs::Options& base)
{
  mcs::Options o = base; o.omp_delivered = c.delivered;
  std::vector<int64_t> result(static_cast<size_t>(c.length), -1);
  int running = 0; std::vector<int64_t> order; std::set<int64_t> threw; std::map<int64_t, int> calls; int outcome = 0; int64_t caught = -1;
  const auto one = [&](int64_t index) {
    { const mcs::Quiet q; running++; order.push_back(index); calls[index]++; }
    mcs::point();
    if (index >= kStart && index < kStart + c.length) { result[static_cast<size_t>(index - kStart)] = index * 7; }
    { const mcs::Quiet q; running--; if ((c.throwing >> (index - kStart)) & 1u) { threw.insert(index); } }
    if ((c.throwing >> (index - kStart)) & 1u) { throw Oops{index}; }
  };
  const auto range_work = [&](const ThreadWorkRange& r) { for (int64_t i = r.GetRangeStart(); i < r.GetRangeEnd(); i++) { one(i); } };
  const auto index_work = [&](const int32_t, const int64_t index) { one(index); };
  const DegreeOfParallelism p(c.threads);
  const ParallelForBackend b = c.backend == 0 ? ParallelForBackend::OPENMP : c.backend == 1 ? ParallelForBackend::ASYNC : ParallelForBackend::BEST_AVAILABLE;
  mcs::run(o, [&] {
    try
    {
      switch (c.kind)
      {
        case 0: parallelism::StaticParallelForRangeLoop(p, kStart, kStart + c.length, range_work, b); break;
        case 1: parallelism::StaticParallelForIndexLoop(p, kStart, kStart + c.length, index_work, b); break;
        case 2: parallelism::DynamicParallelForRangeLoop(p, kStart, kStart + c.length, range_work, b); break;
        default: parallelism::DynamicParallelForIndexLoop(p, kStart, kStart + c.length, index_work, b); break;
      }
    }
    catch (const Oops& e) { outcome = 1; caught = e.index; }
    catch (const std::system_error&) { outcome = 2; }
    catch (const std::exception& e) { mc::fail_soft(mc::str(text(c), ": threw an unrelated exception: ", e.what())); }
    MC_CHECK(running == 0, text(c), ": ended while ", running, " work calls still run");
    const size_t started = order.size();
    // Everything written by the work calls is visible here (a missing edge shows as a race).
    for (const auto& [i, n] : calls)
    {
      MC_CHECK(n == 1, text(c), ": index ", i, " was worked on ", n, " times");
      MC_CHECK(i >= kStart && i < kStart + c.length, text(c), ": worked on index ", i);
      MC_CHECK(result[static_cast<size_t>(i - kStart)] == i * 7, text(c), ": the result for index ", i, " is lost");
    }
    if (outcome == 0)
    {
      MC_CHECK(threw.empty(), text(c), ": the exception of index ", *threw.begin(), " was swallowed");
      MC_CHECK(static_cast<int>(calls.size()) == c.length, text(c), ": returned normally after working on ", calls.size(), " of ", c.length, " indices");
    }
    if (outcome == 1) { MC_CHECK(threw.count(caught), text(c), ": threw the exception of index ", caught, ", which was not thrown"); }
    if (outcome == 2) { MC_CHECK(base.create_failures > 0, text(c), ": threw a system error although every thread could be created"); }
    scribble();
    MC_CHECK(order.size() == started, text(c), ": a work call started after the loop had ended");
  });
  MC_CHECK(running == 0, text(c), ": a work call survived the loop");
  mc::Hash h; h.add(c.kind).add(c.backend).add(c.length).add(c.threads).add(c.delivered).add(c.throwing).addv(order).add(outcome).add(caught);
  mc::state(h.h);
  if (mc::want_note()) { mc::note(mc::str(text(c), ": worked on ", mc::vstr(order), ", outcome ", outcome, " ", caught)); }
}
#if defined(_OPENMP)
const bool kOmp = true;
#else
const bool kOmp = false;
#endif
int backend() { return kOmp ? mc::choose(2) : 2; }
}
void mc::run()
{
  mcs::Options wide; wide.preemptions = 0; wide.free_switches = false;
  scenario("throwing sets", [=] {
    Config c; c.kind = choose(4); c.backend = kOmp ? choose(3) : 2 * choose(2); c.length = choose(6); c.threads = 1 + choose(4); c.delivered = pick(std::vector<int>{64, 1, 2});
    if (c.delivered != 64 && (c.backend == 1 || !kOmp)) { throw Skip(); }
    c.throwing = static_cast<unsigned>(choose(1 << c.length));
    drive(c, wide);
  }, 5);
  mcs::Options deep; deep.preemptions = by_tier(1, 2);
  scenario("schedules", [=] {
    Config c; c.kind = choose(4); c.backend = backend(); c.length = 2 + choose(2); c.threads = 2 + (c.length == 3 ? choose(2) : 0); c.delivered = 64;
    c.throwing = static_cast<unsigned>(choose(1 << c.length));
    drive(c, deep);
  }, 12);
  mcs::Options deeper; deeper.preemptions = by_tier(2, 3);
  scenario("deeper schedules", [=] {
    Config c; c.kind = 2 * choose(2); c.backend = backend(); c.length = 2 + by_tier(0, choose(2)); c.threads = 2; c.delivered = 64;
    c.throwing = static_cast<unsigned>(choose(3));
    drive(c, deeper);
  }, 12);
  mcs::Options spur; spur.preemptions = 1; spur.spurious = by_tier(1, 2);
  scenario("spurious wake-ups", [=] {
    Config c; c.kind = 2; c.backend = kOmp ? 1 : 2; c.length = 2 + choose(2); c.threads = 2; c.delivered = 64; c.throwing = static_cast<unsigned>(choose(3));
    drive(c, spur);
  }, 12);
  mcs::Options fail; fail.preemptions = by_tier(1, 2); fail.create_failures = 1; fail.free_switches = true;
  scenario("thread creation fails", [=] {
    Config c; c.kind = choose(4); c.backend = kOmp ? 1 : 2; c.length = 2 + choose(2); c.threads = 2 + choose(c.length - 1); c.delivered = 64; c.throwing = static_cast<unsigned>(choose(3));
    drive(c, fail);
  }, 12);
  mcs::Options fails = wide; fails.create_failures = 3;
  scenario("several thread creations fail", [=] {
    Config c; c.kind = choose(4); c.backend = kOmp ? 1 : 2; c.length = 2 + choose(4); c.threads = 2 + choose(4); c.delivered = 64; c.throwing = static_cast<unsigned>(choose(4));
    drive(c, fails);
  }, 6);
}
