// C01: parallel loops run every index exactly once with valid thread numbers.
#include <map>
#include <set>
#include <vector>
#include "mc.hpp"
#include "mcs.hpp"
#include <common_robotics_utilities/parallelism.hpp>
MC_HARNESS("C01", "every loop variant x backend x range x requested and delivered thread count, under every schedule within the preemption bound (scheduling points at every synchronization operation and inside "
                  "every work call), with happens-before race detection; a state is a distinct (configuration, observed sequence of work calls with their thread numbers)")
using namespace common_robotics_utilities;
using parallelism::DegreeOfParallelism; using parallelism::ParallelForBackend; using parallelism::ThreadWorkRange;
namespace
{
struct Config { int kind, backend; int64_t start, length; int threads, delivered; };
const char* kKind[] = {"static range loop", "static index loop", "dynamic range loop", "dynamic index loop"};
const char* kBackend[] = {"OpenMP", "async", "best"};
std::string text(const Config& c)
{ return mc::str(kKind[c.kind], " on the ", kBackend[c.backend], " backend over [", c.start, ",", c.start + c.length, ") with ", c.threads, " threads (", c.delivered, " delivered)"); }
struct Log
{
  std::vector<std::pair<int64_t, int>> events;      // (index, thread number), start of the call
  std::multiset<int> running; std::vector<ThreadWorkRange> ranges;
};
void drive(const Config& c, const mcs::Options& base)
{
  mcs::Options o = base; o.omp_delivered = c.delivered;
  Log log;
  // One call of the work function with the given thread number.
  auto begin = [&](int number) {
    const mcs::Quiet q;
    if (number < 0 || number >= c.threads) { mc::fail_soft(mc::str(text(c), ": thread number ", number)); }
    if (log.running.count(number)) { mc::fail_soft(mc::str(text(c), ": two work calls run at the same time with thread number ", number)); }
    log.running.insert(number);
  };
  auto end = [&](int number) { const mcs::Quiet q; log.running.erase(log.running.find(number)); };
  auto one = [&](int64_t index, int number) { const mcs::Quiet q; log.events.emplace_back(index, number); };
  const auto range_work = [&](const ThreadWorkRange& r) {
    begin(r.GetThreadNum());
    { const mcs::Quiet q; log.ranges.push_back(r); }
    mcs::point();
    for (int64_t i = r.GetRangeStart(); i < r.GetRangeEnd(); i++) { one(i, r.GetThreadNum()); }
    end(r.GetThreadNum());
  };
  const auto index_work = [&](const int32_t number, const int64_t index) {
    begin(number); one(index, number); mcs::point(); end(number);
  };
  const DegreeOfParallelism p(c.threads);
  const ParallelForBackend b = c.backend == 0 ? ParallelForBackend::OPENMP : c.backend == 1 ? ParallelForBackend::ASYNC : ParallelForBackend::BEST_AVAILABLE;
  mcs::run(o, [&] {
    switch (c.kind)
    {
      case 0: parallelism::StaticParallelForRangeLoop(p, c.start, c.start + c.length, range_work, b); break;
      case 1: parallelism::StaticParallelForIndexLoop(p, c.start, c.start + c.length, index_work, b); break;
      case 2: parallelism::DynamicParallelForRangeLoop(p, c.start, c.start + c.length, range_work, b); break;
      default: parallelism::DynamicParallelForIndexLoop(p, c.start, c.start + c.length, index_work, b); break;
    }
    MC_CHECK(log.running.empty(), text(c), ": returned while work calls still run");
    std::map<int64_t, int> count;
    for (const auto& e : log.events) { count[e.first]++; }
    for (const auto& [i, n] : count)
    {
      MC_CHECK(i >= c.start && i < c.start + c.length, text(c), ": the work function was called for index ", i, " outside of the range");
      MC_CHECK(n == 1, text(c), ": the work function was called ", n, " times for index ", i);
    }
    MC_CHECK(static_cast<int64_t>(count.size()) == c.length, text(c), ": the work function was called for ", count.size(), " of ", c.length, " indices");
  });
  mc::Hash h; h.add(c.kind).add(c.backend).add(c.start).add(c.length).add(c.threads).add(c.delivered);
  for (const auto& e : log.events) { h.add(e.first).add(e.second); }
  mc::state(h.h);
  if (mc::want_note()) { std::string s = text(c) + " ran"; for (const auto& e : log.events) { s += mc::str(" ", e.first, "@", e.second); } mc::note(s); }
}
}
#if defined(_OPENMP)
const bool kOmp = true;
#else
const bool kOmp = false;    // the best backend is the async one here, and the OpenMP backend runs serially
#endif
void mc::run()
{
  mcs::Options wide; wide.preemptions = 0; wide.free_switches = false;
  // Every configuration under the default schedule and under single deviations.
  scenario("configurations", [=] {
    Config c; c.kind = choose(4); c.backend = choose(3); c.start = pick(std::vector<int64_t>{0, 1, -3, 1000000007ll, -(1ll << 40)});
    c.length = choose(by_tier(8, 12)); c.threads = 1 + choose(by_tier(6, 9)); c.delivered = pick(std::vector<int>{64, 1, 2, 3});
    if (c.delivered != 64 && c.backend == 1) { throw Skip(); }
    drive(c, wide);
  }, 6);
  scenario("many indices", [=] {
    Config c; c.kind = choose(4); c.backend = choose(3); c.start = pick(std::vector<int64_t>{0, -70, INT64_MAX - 300, INT64_MIN, (1ll << 32) - 40});
    c.length = pick(std::vector<int64_t>{33, 100, 257}); c.threads = pick(std::vector<int>{1, 3, 8, 16, 30}); c.delivered = pick(std::vector<int>{64, 2});
    if (c.delivered != 64 && c.backend == 1) { throw Skip(); }
    drive(c, wide);
  }, 5);
  mcs::Options one = wide; one.preemptions = 1;
  scenario("single deviations", [=] {
    Config c; c.kind = choose(4); c.backend = choose(3); c.start = pick(std::vector<int64_t>{0, -3});
    c.length = 2 + choose(by_tier(3, 5)); c.threads = 2 + choose(3); c.delivered = pick(std::vector<int>{64, 2});
    if (c.delivered != 64 && c.backend == 1) { throw Skip(); }
    drive(c, one);
  }, 6);
  mcs::Options deep; deep.preemptions = (kOmp ? 1 : 0) + by_tier(1, 2); deep.free_switches = true;
  scenario("schedules", [=] {
    Config c; c.kind = choose(4); c.backend = kOmp ? choose(2) : 2; c.start = kOmp ? pick(std::vector<int64_t>{0, 5}) : 5;
    c.length = 2 + choose(2); c.threads = 2 + (c.length == 2 ? 0 : choose(2)); c.delivered = 64;
    drive(c, deep);
  }, 14);
  mcs::Options spur; spur.preemptions = 1; spur.spurious = 2; spur.free_switches = true;
  scenario("spurious wake-ups", [=] {
    Config c; c.kind = 2 + choose(2); c.backend = 1; c.start = 3; c.length = 2 + choose(2); c.threads = 2; c.delivered = 64;
    drive(c, spur);
  }, 14);
  scenario("static division", [] {
    const int64_t start = pick(std::vector<int64_t>{0, -1, 17, -(1ll << 62), (1ll << 62)}), n = choose(by_tier(60, 200)), threads = 1 + choose(by_tier(24, 70));
    int64_t at = start, lo = INT64_MAX, hi = -1;
    for (int64_t t = 0; t < threads; t++)
    {
      const auto r = parallelism::CalcStaticThreadRangeStartAndEnd(start, start + n, threads, t);
      MC_CHECK(r.first == at && r.second >= r.first, "dividing [", start, ",", start + n, ") among ", threads, ": thread ", t, " gets [", r.first, ",", r.second, "), expected start ", at);
      lo = std::min(lo, r.second - r.first); hi = std::max(hi, r.second - r.first); at = r.second;
      transition();
    }
    MC_CHECK(at == start + n, "dividing [", start, ",", start + n, ") among ", threads, " ends at ", at);
    MC_CHECK(hi - lo <= 1, "dividing ", n, " indices among ", threads, ": sizes from ", lo, " to ", hi);
    state(Hash().add(start).add(n).add(threads).h);
  });
  scenario("huge ranges", [] {
    const int64_t n = pick(std::vector<int64_t>{INT64_MAX, INT64_MAX - 1, 1ll << 62, (1ll << 62) + 1}), threads = pick(std::vector<int64_t>{1, 2, 3, 7, 64, 1000, INT32_MAX}), start = flip() ? 0 : -(n / 2);
    const int64_t end = start + n;
    std::set<int64_t> ts; for (int64_t t : {int64_t{0}, int64_t{1}, threads / 2, threads - 2, threads - 1}) { if (t >= 0 && t < threads) { ts.insert(t); } }
    for (int64_t t : ts)
    {
      const auto r = parallelism::CalcStaticThreadRangeStartAndEnd(start, end, threads, t);
      // The sizes differ by at most one and neighbours meet, so a share begins within the shares before it.
      const __int128 q = n / threads, rem = n % threads, s = r.first, size = static_cast<__int128>(r.second) - s, before = s - start;
      MC_CHECK((size == q || (rem != 0 && size == q + 1)) && before >= q * t && before <= q * t + (t < rem ? t : rem) && (t + 1 < threads || r.second == end) && (t > 0 || r.first == start),
               "dividing ", n, " indices from ", start, " among ", threads, ": thread ", t, " gets [", r.first, ",", r.second, ")");
      if (t + 1 < threads) { const int64_t next = parallelism::CalcStaticThreadRangeStartAndEnd(start, end, threads, t + 1).first; MC_CHECK(next == r.second, "dividing ", n, " indices from ", start, " among ", threads, ": thread ", t, " ends at ", r.second, ", the next starts at ", next); }
      transition();
    }
    state(Hash().add(start).add(n).add(threads).h);
  });
  // Ranges that are wider than 32 bits can count. The work is only recorded per range, and an index loop is left at its first index.
  scenario("wide ranges", [=] {
    struct Left {};
    const int backend = choose(3), threads = pick(std::vector<int>{1, 2, 3, 5}); const bool indices = flip();
    const int64_t length = pick(std::vector<int64_t>{(1ll << 31) - 1, 1ll << 31, (1ll << 31) + 1, 3ll << 30, (1ll << 32) - 1, 1ll << 32, (1ll << 32) + 1, (1ll << 32) + 3, 1ll << 33, (1ll << 40) + 7, INT64_MAX});
    const int64_t start = length == INT64_MAX ? pick(std::vector<int64_t>{0, -5, -(1ll << 62)}) : pick(std::vector<int64_t>{0, -5, -(1ll << 31), 1ll << 32});
    const std::string what = mc::str("static ", indices ? "index" : "range", " loop on the ", kBackend[backend], " backend over ", length, " indices from ", start, " with ", threads, " threads");
    const ParallelForBackend b = backend == 0 ? ParallelForBackend::OPENMP : backend == 1 ? ParallelForBackend::ASYNC : ParallelForBackend::BEST_AVAILABLE;
    std::vector<std::pair<int64_t, int64_t>> ranges; std::set<int64_t> firsts; bool left = false;
    const auto rw = [&](const ThreadWorkRange& r) { const mcs::Quiet q; ranges.emplace_back(r.GetRangeStart(), r.GetRangeEnd()); };
    const auto iw = [&](int32_t, int64_t i) { { const mcs::Quiet q; firsts.insert(i); } throw Left(); };
    mcs::run(wide, [&] {
      const DegreeOfParallelism p(threads);
      try { if (indices) { parallelism::StaticParallelForIndexLoop(p, start, start + length, iw, b); } else { parallelism::StaticParallelForRangeLoop(p, start, start + length, rw, b); } }
      catch (const Left&) { left = true; }
    });
    if (indices)
    {
      MC_CHECK(left && firsts.count(start), what, ": no work for the first index");
      for (int64_t i : firsts) { MC_CHECK(i >= start && i < start + length, what, ": worked on index ", i); }
    }
    else
    {
      std::sort(ranges.begin(), ranges.end());
      int64_t at = start;
      for (const auto& r : ranges) { if (r.first == r.second) { continue; } MC_CHECK(r.first == at && r.second > r.first, what, ": work from ", r.first, " to ", r.second, " follows work that ended at ", at); at = r.second; }
      MC_CHECK(at == start + length, what, ": work ended at ", at);
    }
    state(Hash().add(backend).add(threads).add(indices).add(length).add(start).h); transition();
  }, 1);
  // A dynamic loop over as wide a range is left by its work after some indices.
  scenario("wide ranges, dynamic", [=] {
    struct Left {};
    const int backend = kOmp ? 1 : 2, threads = pick(std::vector<int>{2, 3, 7}), most = pick(std::vector<int>{0, 1, 40}); const bool indices = flip();
    const int64_t length = pick(std::vector<int64_t>{1ll << 31, (1ll << 31) + 1, 3ll << 30, (1ll << 32) - 1, 1ll << 32, (1ll << 32) + 1, 1ll << 33, (1ll << 40) + 7, INT64_MAX});
    const int64_t start = pick(std::vector<int64_t>{0, -5, -(1ll << 31), length < INT64_MAX ? 1ll << 32 : -(1ll << 62)});
    const std::string what = mc::str("dynamic ", indices ? "index" : "range", " loop on the ", kBackend[backend], " backend over ", length, " indices from ", start, " with ", threads, " threads, left at the work call ", most);
    std::map<int64_t, int> seen; bool left = false; int calls = 0;
    const auto iw = [&](int32_t number, int64_t i) { bool leave = false; { const mcs::Quiet q; if (number < 0 || number >= threads) { mc::fail_soft(mc::str(what, ": thread number ", number)); } seen[i]++; leave = calls++ >= most; } if (leave) { throw Left(); } };
    const auto rw = [&](const ThreadWorkRange& r) { for (int64_t i = r.GetRangeStart(); i < r.GetRangeEnd(); i++) { iw(r.GetThreadNum(), i); } };
    mcs::run(wide, [&] {
      const DegreeOfParallelism p(threads); const ParallelForBackend b = backend == 1 ? ParallelForBackend::ASYNC : ParallelForBackend::BEST_AVAILABLE;
      try { if (indices) { parallelism::DynamicParallelForIndexLoop(p, start, start + length, iw, b); } else { parallelism::DynamicParallelForRangeLoop(p, start, start + length, rw, b); } }
      catch (const Left&) { left = true; }
    });
    MC_CHECK(left, what, ": was not left");
    int64_t at = start; for (const auto& [i, n] : seen) { MC_CHECK(n == 1 && i == at, what, ": ", n, " calls for index ", i, " after work up to ", at); at++; }
    state(Hash().add(threads).add(indices).add(length).add(start).add(most).h); transition();
  }, 1);
  scenario("very many indices", [=] {
    Config c; c.kind = 2 + choose(2); c.backend = kOmp ? choose(2) : 2; c.start = flip() ? 0 : (1ll << 32) - 5; c.length = by_tier(33000, 70000); c.threads = 2; c.delivered = 64;
    mcs::Options long_run = wide; long_run.horizon = 60L * c.length; drive(c, long_run);
  }, 3);
  scenario("refused", [] {
    const int64_t s = choose(5) - 2, e = choose(5) - 2, n = choose(4) - 1, t = choose(5) - 1;
    const bool bad = e < s || n < 1 || t < 0 || t >= n;
    MC_CHECK((mc::throws([&] { (void)parallelism::CalcStaticThreadRangeStartAndEnd(s, e, n, t); }) == 1) == bad, "dividing [", s, ",", e, ") among ", n, " for thread ", t, bad ? " is not refused" : " is refused");
    const int k = choose(3) - 1;
    MC_CHECK((mc::throws([&] { (void)DegreeOfParallelism(k); }) == 1) == (k < 1), "a degree of parallelism of ", k, " is treated wrongly");
    if (e < s)
      for (int kind = 0; kind < 4; kind++)
      {
        int calls = 0;
        const auto rw = [&](const ThreadWorkRange&) { calls++; }; const auto iw = [&](int32_t, int64_t) { calls++; };
        const int r = mc::throws([&] { mcs::run(mcs::Options(), [&] {
          const DegreeOfParallelism p(2);
          if (kind == 0) { parallelism::StaticParallelForRangeLoop(p, s, e, rw); } else if (kind == 1) { parallelism::StaticParallelForIndexLoop(p, s, e, iw); }
          else if (kind == 2) { parallelism::DynamicParallelForRangeLoop(p, s, e, rw); } else { parallelism::DynamicParallelForIndexLoop(p, s, e, iw); } }); });
        MC_CHECK(r == 1 && calls == 0, kKind[kind], " over the reversed range [", s, ",", e, ") is not refused");
      }
    state(Hash().add(s).add(e).add(n).add(t).add(k).h); transition();
  });
}
