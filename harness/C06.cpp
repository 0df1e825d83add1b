// C06: OpenMP settings helpers report truthfully and restore what they change.
#include <algorithm>
#include <memory>
#include <set>
#include <vector>
#include "mc.hpp"
#include "mcs.hpp"
#include <common_robotics_utilities/openmp_helpers.hpp>
#include <common_robotics_utilities/parallelism.hpp>
MC_HARNESS("C06", "every sequence up to the depth of opening a scope (counts 1,2,3,6, refused 0 and -1, or disabling), leaving it normally or by an exception, parallel regions, queries and refused scopes inside of "
                  "regions, for every initial setting and runtime limit, with every schedule of the regions within the preemption bound; a state is a distinct (runtime configuration, history of observed settings)")
using namespace common_robotics_utilities;
using namespace common_robotics_utilities::openmp_helpers;
namespace
{
#if defined(_OPENMP)
const bool kOmp = true;
int Setting() { return mcs::omp_nthreads_setting(); }
#else
const bool kOmp = false;
int Setting() { return 1; }
#endif
struct Leave {};
struct Model
{
  int delivered, limit; std::string history; std::vector<int> seen; int budget; bool regions_deep;
  int team(int setting) const { return kOmp ? std::max(1, std::min({setting, delivered, limit})) : 1; }
};
#define HERE m.history
void check_setting(Model& m, int setting)
{
  m.seen.push_back(Setting());
  MC_CHECK(Setting() == setting, "after", HERE, ": the thread count setting is ", Setting(), ", expected ", setting);
}
void queries(Model& m, int setting)
{
  m.history += " queries";
  MC_CHECK(IsOmpEnabledInBuild() == kOmp, "IsOmpEnabledInBuild is wrong");
  MC_CHECK(!IsOmpInParallel(), "after", HERE, ": claims to be in a parallel region");
  MC_CHECK(GetContextOmpThreadNum() == 0 && GetContextNumOmpThreads() == 1, "after", HERE, ": wrong context outside of a region");
  MC_CHECK(GetContextMaxNumOmpThreads() == setting, "after", HERE, ": GetContextMaxNumOmpThreads is ", GetContextMaxNumOmpThreads(), ", the setting is ", setting);
  const int max = GetMaxNumOmpThreads();
  MC_CHECK(max == setting, "after", HERE, ": GetMaxNumOmpThreads is ", max, ", the setting is ", setting);
  const int num = GetNumOmpThreads();
  MC_CHECK(num == m.team(setting), "after", HERE, ": GetNumOmpThreads is ", num, " where the runtime delivers ", m.team(setting));
  MC_CHECK(GetOmpThreadLimit() == (kOmp ? m.limit : 1), "after", HERE, ": GetOmpThreadLimit is ", GetOmpThreadLimit());
  MC_CHECK(parallelism::DegreeOfParallelism::FromOmp().GetNumThreads() == m.team(setting), "after", HERE, ": the degree of parallelism from OpenMP is not what the runtime delivers");
  check_setting(m, setting);
}
void region(Model& m, int setting, bool inner)
{
  m.history += inner ? " region with scopes" : " region";
  int size = 0; std::vector<int> numbers; std::string bad;
#if defined(_OPENMP)
#pragma omp parallel
#endif
  {
    const int number = GetContextOmpThreadNum(), n = GetContextNumOmpThreads(), max = GetContextMaxNumOmpThreads(); const bool in = IsOmpInParallel();
    std::string wrong;
    if (number < 0 || number >= n) { wrong = "wrong thread number"; }
    if (in != (n > 1)) { wrong = "IsOmpInParallel is wrong"; }
    if (max != setting) { wrong = mc::str("GetContextMaxNumOmpThreads is ", max); }
    if (inner && n > 1)
    {
      for (int k : {2, 0})
      {
        int r = 0;
        try { if (k) { const ChangeOmpNumThreadsWrapper w(k); } else { const DisableOmpWrapper w; } } catch (const std::runtime_error&) { r = 1; } catch (const std::exception&) { r = 2; }
        if (r == 0) { wrong = "a scope was created inside of a parallel region"; }
        if (GetContextMaxNumOmpThreads() != setting) { wrong = "a refused scope changed the setting"; }
      }
      const int q = GetNumOmpThreads(), mx = GetMaxNumOmpThreads();
      if (q < 1 || q > setting) { wrong = mc::str("GetNumOmpThreads in a region is ", q); }
      if (mx != setting) { wrong = mc::str("GetMaxNumOmpThreads in a region is ", mx); }
    }
    { const mcs::Quiet q; size = n; numbers.push_back(number); if (!wrong.empty()) { bad = wrong; } }
  }
  MC_CHECK(bad.empty(), "after", HERE, ": ", bad);
  MC_CHECK(size <= setting && size == m.team(setting), "after", HERE, ": a region ran ", size, " threads, the setting is ", setting);
  MC_CHECK(static_cast<int>(numbers.size()) == size && static_cast<int>(std::set<int>(numbers.begin(), numbers.end()).size()) == size, "after", HERE, ": thread numbers ", mc::vstr(numbers), " in a region of ", size);
  m.seen.push_back(100 + size);
  check_setting(m, setting);
}
/// Everything done in one scope; returns on leaving it.
void inside(Model& m, int setting)
{
  while (m.budget > 0)
  {
    m.budget--;
    const int op = mc::choose(10);
    if (op <= 4)
    {
      const int n = std::vector<int>{1, 2, 3, 6, 1}[static_cast<size_t>(op)];
      m.history += op == 4 ? " disable{" : mc::str(" scope(", n, "){");
      const int want = kOmp ? n : 1;
      try
      {
        if (op == 4) { const DisableOmpWrapper w; check_setting(m, want); inside(m, want); }
        else { const ChangeOmpNumThreadsWrapper w(n); check_setting(m, want); inside(m, want); }
        m.history += "}";
      }
      catch (const Leave&) { m.history += " throw}"; }
      check_setting(m, setting);
    }
    else if (op == 5)
    {
      for (int n : {0, -1}) { MC_CHECK(mc::throws([&] { const ChangeOmpNumThreadsWrapper w(n); }) == 1, "after", HERE, ": a scope of ", n, " threads is not refused"); }
      m.history += " refused"; check_setting(m, setting);
    }
    else if (op == 6) { queries(m, setting); }
    else if (op == 7) { region(m, setting, m.regions_deep); }
    else if (op == 8) { return; }
    else { throw Leave(); }
  }
}
void drive(const mcs::Options& o, int depth, bool deep)
{
  Model m{o.omp_delivered, o.omp_limit, {}, {}, depth, deep};
  mcs::run(o, [&] {
    const int setting = kOmp ? o.omp_default : 1;
    try { inside(m, setting); } catch (const Leave&) {}
    check_setting(m, setting);
  });
  mc::state(mc::Hash().add(o.omp_default).add(o.omp_delivered).add(o.omp_limit).add(m.history).addv(m.seen).h);
  if (mc::want_note()) { mc::note(mc::str("initial ", o.omp_default, ", delivers ", o.omp_delivered, ", limit ", o.omp_limit, ":", m.history, " observed ", mc::vstr(m.seen))); }
}
}
void mc::run()
{
  scenario("histories", [] {
    mcs::Options o; o.preemptions = 0; o.free_switches = false;
    o.omp_default = pick(std::vector<int>{1, 2, 4, 7}); o.omp_delivered = pick(std::vector<int>{64, 1, 2}); o.omp_limit = pick(std::vector<int>{64, 3});
    drive(o, by_tier(4, 5), true);
  }, 4);
  scenario("longer histories", [] {
    mcs::Options o; o.preemptions = 0; o.free_switches = false; o.omp_default = 4; o.omp_delivered = thorough() ? pick(std::vector<int>{64, 2}) : 2;
    drive(o, by_tier(5, 6), false);
  }, 4);
  scenario("schedules", [] {
    // One region with many schedules, or two operations with fewer.
    const int depth = 1 + choose(2);
    mcs::Options o; o.free_switches = thorough() && depth == 1; o.preemptions = by_tier(4 - depth, 5 - depth); o.omp_default = 2 + choose(2); o.omp_delivered = pick(std::vector<int>{64, 2});
    drive(o, depth, flip());
  }, 8);
}
