// D08: a scope guard runs its action exactly once unless disabled.
#include "mc.hpp"
#include <exception>
#include <stdexcept>
#include <common_robotics_utilities/utility.hpp>
MC_HARNESS("D08", "every nesting of up to the bounded number of guards, with every exit path (end of scope, return, exception at every point, exception while unwinding), "
                  "each guard disabled at every possible time or never; a state is a distinct (structure, order of actions) pair")
using common_robotics_utilities::utility::OnScopeExit;
namespace
{
struct Boom {};
std::vector<std::string> log_;
int counts[8];
bool in_scope[8];
/// Level d: makes a guard, optionally disables it at one of three times, and leaves by one of several ways.
void level(int d, int max, std::vector<int>& expect_runs, std::string& tr)
{
  const int when = mc::choose(6);      // 0 never, 1 at once, 2 after inner level, 3 twice, 4 in an inner guard's action, 5 disabled during own action
  const int exit = mc::choose(4);      // 0 fall through, 1 throw before inner level, 2 throw after it, 3 return early
  const int kind = mc::choose(2);      // 0 lvalue function, 1 temporary lambda
  tr += mc::str(" [", d, ": disable ", when, " exit ", exit, "]");
  OnScopeExit* self = nullptr;
  const bool runs = when == 0 || when == 5 || (exit == 1 && (when == 2 || when == 4));   // thrown before it could be disabled
  const std::function<void(void)> action = [&counts = counts, d, &self, when]
  {
    counts[d]++;
    if (!in_scope[d]) mc::fail_soft("action ran outside the guard's scope end");
    if (when == 5 && self == nullptr) mc::fail_soft("state captured by the action is gone");
    log_.push_back(mc::str(d));
  };
  struct Mark { int d; ~Mark() { in_scope[d] = false; } } mark{d};
  in_scope[d] = false;
  expect_runs[d] = -1;                 // unknown until the guard exists
  struct AtExit { int d; ~AtExit() {} };
  const auto before_leave = [&] { MC_CHECK(counts[d] == 0, tr, ": action of guard ", d, " ran before its scope was left"); in_scope[d] = true; };
  auto body = [&](OnScopeExit& g)
  {
    self = &g;
    expect_runs[d] = runs ? 1 : 0;
    MC_CHECK(g.IsEnabled(), tr, ": a new guard is not enabled");
    MC_CHECK(counts[d] == 0, tr, ": creating the guard ran the action");
    if (when == 1 || when == 3) { g.Disable(); MC_CHECK(!g.IsEnabled(), tr, ": disabled guard reports enabled"); }
    if (exit == 1) { before_leave(); throw Boom(); }
    if (exit == 3) { before_leave(); if (when == 2 || when == 4) g.Disable(); return; }
    if (d + 1 < max)
    {
      std::unique_ptr<OnScopeExit> disabler;
      if (when == 4) disabler.reset(new OnScopeExit([&] { g.Disable(); }));
      try { level(d + 1, max, expect_runs, tr); }
      catch (const Boom&)
      {
        if (mc::flip()) { if (when == 2) g.Disable(); before_leave(); tr += " rethrow"; throw; }
      }
      if (when == 4) { disabler.reset(); MC_CHECK(!g.IsEnabled(), tr, ": disabled by an inner guard but reports enabled"); }
    }
    else if (when == 4) g.Disable();
    if (when == 2) g.Disable();
    if (when == 3) g.Disable();
    if (when == 2 || when == 3) MC_CHECK(!g.IsEnabled(), tr, ": disabled guard reports enabled");
    else if (when == 0) MC_CHECK(g.IsEnabled(), tr, ": enabled guard reports disabled");
    MC_CHECK(counts[d] == 0, tr, ": action of guard ", d, " ran before its scope was left");
    before_leave();
    if (exit == 2) throw Boom();
  };
  const auto after = [&] { MC_CHECK(counts[d] == (runs ? 1 : 0), tr, ": action of guard ", d, " ran ", counts[d], " times on leaving, expected ", runs); };
  try
  {
    if (kind == 0) { const OnScopeExit g(action); body(const_cast<OnScopeExit&>(g)); }
    else { OnScopeExit g([&action] { action(); }); body(g); }
  }
  catch (const Boom&) { after(); throw; }
  after();
}
void nest(int max);
/// The nesting is run by destructors while 1 or more exceptions unwind the stack.
void unwinding(int max)
{
  std::exception_ptr wrong; const int depth = 1 + mc::choose(3), kind = mc::choose(3);
  struct Cleaner { std::function<void()> f; ~Cleaner() { f(); } };
  std::function<void(int)> deep = [&](int k)
  {
    if (k == 0) { try { nest(max); } catch (...) { wrong = std::current_exception(); } return; }
    try { const Cleaner c{[&] { deep(k - 1); }}; if (kind == 0) { throw Boom(); } if (kind == 1) { throw std::runtime_error("outer"); } throw 7; }
    catch (const Boom&) { } catch (const std::exception&) { } catch (int) { }
  };
  deep(depth); if (wrong) { std::rethrow_exception(wrong); }
}
void nest(int max)
{
  log_.clear(); for (int i = 0; i < 8; i++) { counts[i] = 0; in_scope[i] = false; }
  std::vector<int> expect(8, 0); std::string tr;
  bool threw = false;
  try { level(0, max, expect, tr); } catch (const Boom&) { threw = true; }
  std::vector<int> order;
  for (int d = 0; d < max; d++) MC_CHECK(counts[d] == (expect[d] == 1 ? 1 : 0), tr, ": action ", d, " ran ", counts[d], " times, expected ", expect[d]);
  // innermost first
  for (size_t i = 1; i < log_.size(); i++) MC_CHECK(log_[i - 1] > log_[i], tr, ": actions ran out of order");
  mc::Hash h; h.add(threw); for (auto& l : log_) h.add(l); for (int d = 0; d < max; d++) h.add(expect[d]); mc::state(h.h);
  mc::transition(); mc::note(tr);
}
void refusal()
{
  const int form = mc::choose(3);
  const int t = mc::throws([&]
  {
    if (form == 0) { OnScopeExit g(nullptr); }
    else if (form == 1) { const std::function<void(void)> f; OnScopeExit g(f); }
    else { void (*p)() = nullptr; OnScopeExit g(p); }
  });
  MC_CHECK(t == 1, "guard without an action accepted, form ", form);
}
/// guards on the heap, in a vector of pointers, destroyed in every order, actions that own state
void heap()
{
  auto token = std::make_shared<int>(0);
  std::vector<std::unique_ptr<OnScopeExit>> gs; int runs[3] = {0, 0, 0}; bool off[3];
  for (int i = 0; i < 3; i++) { gs.emplace_back(new OnScopeExit([&runs, i, token] { runs[i]++; ++*token; })); off[i] = false; }
  std::vector<int> left{0, 1, 2}; int want = 0;
  while (!left.empty())
  {
    const int k = mc::choose(int(left.size())); const int i = left[k]; left.erase(left.begin() + k);
    if (mc::flip()) { gs[i]->Disable(); off[i] = true; MC_CHECK(!gs[i]->IsEnabled(), "disabled guard reports enabled"); }
    if (mc::flip()) { gs[i]->Disable(); off[i] = true; }
    want += !off[i];
    gs[i].reset();
    MC_CHECK(runs[i] == !off[i], "guard ", i, " ran its action ", runs[i], " times");
    MC_CHECK(*token == want, "actions ran ", *token, " times in total");
  }
  gs.clear();
  MC_CHECK(token.use_count() == 1, "a guard leaked its action");
  mc::transition(3);
}
}  // namespace
void mc::run()
{
  scenario("while unwinding 1", [] { unwinding(1); });
  scenario("while unwinding 2", [] { unwinding(2); }, 2);
  scenario("refusal", refusal);
  scenario("one", [] { nest(1); });
  scenario("two", [] { nest(2); }, 2);
  scenario("three", [] { nest(3); }, 3);
  scenario("heap", heap);
  if (thorough()) scenario("four", [] { nest(4); }, 4);
}
