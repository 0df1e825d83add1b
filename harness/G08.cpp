// G08: task planning and execution.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <deque>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <common_robotics_utilities/simple_task_planner.hpp>
MC_HARNESS("G08", "every small task: applicability, outcomes with costs, completion and execution results chosen lazily at each first question (all answers explored), against an optimality oracle and an event log; every sequence of operations on a primitive collection; "
                  "a state is a distinct plan or execution trace with the questions asked")
namespace stp = common_robotics_utilities::simple_task_planner;
namespace
{
const double INF = std::numeric_limits<double>::infinity();
/// A state with an identity that counts and a tag that does not.
struct S { int id; int tag; };
struct SHash { size_t operator()(const S& s) const { return static_cast<size_t>(s.id) * 7919U; } };
struct SEqual { bool operator()(const S& a, const S& b) const { return a.id == b.id; } };
int id(int s) { return s; } int id(const S& s) { return s.id; }
template<typename State> State make(int i, int tag) { if constexpr (std::is_same_v<State, S>) { return S{i, tag}; } else { (void)tag; return i; } }
struct Move { int to; double cost; };
using Moves = std::vector<Move>;
struct World
{
  int n, p; std::function<std::vector<Moves>(int, int)> menu;  // answers for (state, primitive), besides "not applicable"
  double least = 0; bool one_goal = false; int rule = 0, stop = 4;   // with a rule, applicability follows it instead of being chosen
  std::map<std::pair<int, int>, bool> candidate; std::map<std::pair<int, int>, Moves> moves; std::map<int, bool> complete;
  bool is_candidate(int s, int a) { const auto k = std::make_pair(s, a); auto it = candidate.find(k); if (it == candidate.end()) { it = candidate.emplace(k, rule ? a >= p - 3 && (s * 3 + a * 5 + s / 7) % (rule + 2) != 0 : mc::flip()).first; } return it->second; }
  const Moves& outcomes(int s, int a) { const auto k = std::make_pair(s, a); auto it = moves.find(k); if (it == moves.end()) { it = moves.emplace(k, mc::pick(menu(s, a))).first; } return it->second; }
  bool is_complete(int s) { auto it = complete.find(s); if (it == complete.end()) { it = complete.emplace(s, one_goal ? s == n - 1 : mc::flip()).first; } return it->second; }
  /// Cheapest completion from the states; questions never asked count as completing at once if `hopeful`.
  double best(const std::set<int>& from, bool hopeful) const
  {
    std::vector<double> d(static_cast<size_t>(n), INF); std::vector<bool> done(static_cast<size_t>(n), false); double answer = INF; for (int s : from) { d[static_cast<size_t>(s)] = 0; }
    for (;;)
    {
      int s = -1; for (int i = 0; i < n; i++) { if (!done[static_cast<size_t>(i)] && d[static_cast<size_t>(i)] < INF && (s < 0 || d[static_cast<size_t>(i)] < d[static_cast<size_t>(s)])) { s = i; } }
      if (s < 0 || d[static_cast<size_t>(s)] >= answer) { return answer; }
      const double here = d[static_cast<size_t>(s)];
      done[static_cast<size_t>(s)] = true; const auto c = complete.find(s); if (c == complete.end() ? hopeful : c->second) { return std::min(answer, here); }
      for (int a = 0; a < p; a++)
      {
        const auto k = candidate.find({s, a}); if (k == candidate.end()) { if (hopeful) { answer = std::min(answer, here + least); } continue; } if (!k->second) { continue; }
        const auto m = moves.find({s, a}); if (m == moves.end()) { if (hopeful) { answer = std::min(answer, here + least); } continue; }
        for (const auto& e : m->second) { auto& to = d[static_cast<size_t>(e.to)]; to = std::min(to, here + e.cost); }
      }
    }
  }
  std::string text() const
  {
    std::string t; for (const auto& [k, v] : complete) { if (v) { t += mc::str(" ", k, " completes"); } }
    for (const auto& [k, v] : moves) { t += mc::str(" ", k.second, "(", k.first, ")={"); for (const auto& e : v) { t += mc::str(" ", e.to, ":", e.cost); } t += "}"; } return t;
  }
};
struct Stop {};
template<typename State> struct Kit
{
  World w; std::string what; std::function<std::vector<int>(int, int)> execute; int tag = 0;
};
/// Either a class of its own or the wrapper.
template<typename State, typename Container> struct Own final : stp::ActionPrimitiveInterface<State, Container>
{
  Kit<State>* k; int a; std::string name; Own(Kit<State>* kit, int index, std::string n) : k(kit), a(index), name(std::move(n)) {}
  bool IsCandidate(const State& s) const override { return k->w.is_candidate(id(s), a); }
  stp::OutcomesWithCosts<State> GetOutcomes(const State& s) const override
  {
    if (!k->w.is_candidate(id(s), a)) { mc::fail(k->what + mc::str(": outcomes asked of primitive ", a, ", which is not applicable in ", id(s))); }
    stp::OutcomesWithCosts<State> out; for (const auto& m : k->w.outcomes(id(s), a)) { out.emplace_back(make<State>(m.to, 0), m.cost); } return out;
  }
  Container Execute(const State& s) override { Container c; for (int i : k->execute(a, id(s))) { c.push_back(make<State>(i, ++k->tag)); } return c; }
  const std::string& Name() const override { return name; }
};
template<typename State, typename Container> stp::ActionPrimitiveCollection<State, Container> collection(Kit<State>& k)
{
  stp::ActionPrimitiveCollection<State, Container> c;
  for (int a = 0; a < k.w.p; a++)
  {
    auto own = std::make_shared<Own<State, Container>>(&k, a, mc::str("p", a));
    if (a % 2 == 0) { c.RegisterPrimitive(own); }
    else { c.RegisterPrimitive(std::make_shared<stp::ActionPrimitiveWrapper<State, Container>>([own](const State& s) { return own->IsCandidate(s); }, [own](const State& s) { return own->GetOutcomes(s); }, [own](const State& s) { return own->Execute(s); }, own->Name())); }
  }
  return c;
}
/// Judges a plan; returns the complaint.
template<typename State> std::string judge(const stp::TaskStateAstarResult<State>& r, World& w, const std::set<int>& from)
{
  const double hopeful = w.best(from, true);
  if (std::isinf(r.PathCost()) || r.Path().empty()) { return !r.Path().empty() || !std::isinf(r.PathCost()) ? "a path and its cost disagree" : hopeful < INF ? mc::str("no plan, although one of cost ", w.best(from, false), " (or with unasked states ", hopeful, ") may exist") : ""; }
  double sum = 0; std::string text;
  for (size_t i = 0; i < r.Path().size(); i++)
  {
    const int now = id(r.Path()[i].Outcome()); const int64_t a = r.Path()[i].PrimitiveIndex(); text += mc::str(" ", a, ">", now);
    if (i == 0) { if (!from.count(now)) { return mc::str("plan starts at ", now); } if (a >= 0) { return mc::str("first state with primitive ", a); } continue; }
    const int before = id(r.Path()[i - 1].Outcome()); const auto c = w.candidate.find({before, static_cast<int>(a)}); const auto m = w.moves.find({before, static_cast<int>(a)});
    if (c == w.candidate.end() || !c->second || m == w.moves.end()) { return mc::str("step by primitive ", a, " in ", before, ", where it is not applicable:", text); }
    double cheapest = INF; for (const auto& e : m->second) { if (e.to == now) { cheapest = std::min(cheapest, e.cost); } }
    if (cheapest == INF) { return mc::str("step to ", now, ", which is no outcome:", text); } sum += cheapest;
  }
  if (!w.complete.count(id(r.Path().back().Outcome())) || !w.complete[id(r.Path().back().Outcome())]) { return "plan ends in a state that does not complete the task:" + text; }
  if (std::abs(sum - r.PathCost()) > 1e-9) { return mc::str("plan costs ", sum, ", reported ", r.PathCost(), ":", text); }
  if (r.PathCost() > hopeful + 1e-9) { return mc::str("plan costs ", r.PathCost(), ", ", hopeful, " is possible:", text); }
  return "";
}
/// Among many starts only the last one is further on.
int many_start(const World& w, int i, int starts) { if (starts > 2) { return i + 1 < starts ? i % 2 : w.n / 2; } return i == 0 ? 0 : w.rule ? mc::pick(std::vector<int>{0, w.n / 2, w.n - 1}) : mc::choose(w.n); }
template<typename State, typename Container, typename Hash, typename Equal> void plan(World world, int heuristic)
{
  Kit<State> k; k.w = std::move(world); World& w = k.w; std::set<int> from; Container start;
  const int starts = w.rule ? mc::pick(std::vector<int>{1, 2, 300}) : 1 + mc::choose(2); for (int i = 0; i < starts; i++) { const int s = many_start(w, i, starts); from.insert(s); start.push_back(make<State>(s, 100 + i)); }
  k.what = mc::str("planning among ", w.n, " states with ", w.p, " primitives", heuristic == 2 ? ", heuristic" : heuristic == 1 ? ", zero heuristic" : "", ", starts ", starts);
  const auto c = collection<State, Container>(k); const stp::TaskSequenceCompleteFunction<State> complete = [&](const State& s) { return w.is_complete(id(s)); };
  stp::StateHeuristicFunction<State> h; if (heuristic == 1) { h = [](const State&) { return 0.0; }; } if (heuristic == 2) { h = [&](const State& s) { return w.is_complete(id(s)) ? 0.0 : 1.0; }; }
  const auto r = stp::PlanTaskStateSequence<State, Container, Hash, Equal>(c, complete, start, h); std::string complaint = judge<State>(r, w, from); MC_CHECK(complaint.empty(), k.what, ":", w.text(), ": ", complaint);
  // The next primitive to execute.
  const int64_t none = -1; int64_t selected = none; std::shared_ptr<stp::ActionPrimitiveInterface<State, Container>> next; bool consistent = true;
  const int outcome = mc::throws([&]
  {
    const auto e = stp::GetNextPrimitiveToExecute<State, Container, Hash, Equal>(c, complete, start, h); selected = e.SelectedOutcomeIndex(); next = e.ActionPrimitive(); complaint = judge<State>(e.PlanningResult(), w, from);
    consistent = selected >= 0 && selected < starts && id(e.PlanningResult().Path().at(0).Outcome()) == id(start.at(static_cast<size_t>(selected)));
    if (e.PlanningResult().Path().size() == 1) { consistent = consistent && !next; } else { consistent = consistent && next == c.Primitives().at(static_cast<size_t>(e.PlanningResult().Path().at(1).PrimitiveIndex())); }
  });
  MC_CHECK(complaint.empty(), k.what, ":", w.text(), ": ", complaint); MC_CHECK((outcome == 1) == r.Path().empty() && outcome != 2, k.what, ":", w.text(), ": next primitive ", outcome ? "refused" : "given"); MC_CHECK(consistent, k.what, ":", w.text(), ": next primitive and its plan disagree");
  mc::transition(2); mc::state(mc::Hash().add(w.text()).add(r.PathCost()).h); if (mc::want_note()) { mc::note(k.what + ":" + w.text() + mc::str(" -> cost ", r.PathCost())); }
}
template<typename State, typename Container, typename Hash, typename Equal> void execute(World world, int most, std::vector<std::vector<int>> results, bool single_start)
{
  Kit<State> k; k.w = std::move(world); World& w = k.w; const int limit = w.rule ? mc::pick(std::vector<int>{-1, 0, 1, 7, most}) : mc::choose(most + 2) - 1;
  Container start; const int starts = single_start ? 1 : w.rule ? mc::pick(std::vector<int>{1, 2, 300}) : 1 + mc::choose(2); for (int i = 0; i < starts; i++) { start.push_back(make<State>(many_start(w, i, starts), 100 + i)); }
  const bool callbacks = mc::flip(); k.what = mc::str("executing among ", w.n, " states with ", w.p, " primitives, limit ", limit, callbacks ? "" : ", no callbacks");
  const auto c = collection<State, Container>(k);
  std::vector<State> current(start.begin(), start.end()); std::vector<std::pair<int, int>> trace; int executions = 0; bool stopped = false, refused = false; int phase = 0;  // 0 outcomes known, 1 selected, 2 about to execute, 3 executed
  int expected_primitive = -1; bool finished = false;
  const auto set_of = [&] { std::set<int> s; for (const auto& x : current) { s.insert(id(x)); } return s; };
  k.execute = [&](int a, int s)
  {
    MC_CHECK(limit < 0 || executions < limit, k.what, ": more executions than allowed"); MC_CHECK(!finished, k.what, ": executes after completion");
    MC_CHECK(w.is_candidate(s, a), k.what, ": executes primitive ", a, " in ", s, ", where it is not applicable"); MC_CHECK(set_of().count(s), k.what, ": executes in ", s, ", which is no real state");
    if (callbacks) { MC_CHECK(phase == 2 && a == expected_primitive, k.what, ": executes primitive ", a, " in phase ", phase, ", planned ", expected_primitive); }
    else
    {
      // The executed step must begin an optimal sequence from the real states.
      const double here = w.best(set_of(), true); double via = INF; for (const auto& m : w.outcomes(s, a)) { via = std::min(via, m.cost + w.best({m.to}, false)); }
      MC_CHECK(via <= here + 1e-9, k.what, ":", w.text(), ": executes primitive ", a, " in ", s, ", which leads on at cost ", via, ", ", here, " is possible"); trace.emplace_back(s, -1);
    }
    if (executions >= w.stop) { stopped = true; throw Stop(); }
    const auto& known = w.outcomes(s, a); auto r = w.rule ? std::vector<int>(w.rule == 4 ? 150 : 1, 0) : mc::pick(results); if (w.rule) { r.back() = known[static_cast<size_t>(executions * w.rule) % known.size()].to; } executions++; current.clear(); int t = k.tag; for (int i : r) { current.push_back(make<State>(i, ++t)); } if (r.empty()) { refused = true; } phase = 3; return r;
  };
  const stp::TaskSequenceCompleteFunction<State> complete = [&](const State& s) { return w.is_complete(id(s)); };
  stp::PreExecutionCallbackFunction<State, Container> pre; stp::PostExecutionCallbackFunction<State, Container> post; stp::PostOutcomeCallbackFunction<State, Container> chosen; int chosen_id = -1;
  if (callbacks)
  {
    chosen = [&](const Container& outcomes, const int64_t index, const stp::TaskStateAstarResult<State>& r)
    {
      MC_CHECK(phase == 0, k.what, ": outcome callback in phase ", phase); phase = 1; MC_CHECK(outcomes.size() == current.size() && index >= 0 && index < static_cast<int64_t>(current.size()), k.what, ": outcome callback for ", index, " of ", outcomes.size());
      for (size_t i = 0; i < current.size(); i++) { MC_CHECK(id(outcomes.at(i)) == id(current[i]), k.what, ": outcome callback with other states"); }
      const std::string complaint = judge<State>(r, w, set_of()); MC_CHECK(complaint.empty(), k.what, ":", w.text(), ": ", complaint); chosen_id = id(outcomes.at(static_cast<size_t>(index)));
      int tag = -1; if constexpr (std::is_same_v<State, S>) { tag = outcomes.at(static_cast<size_t>(index)).tag; } trace.emplace_back(chosen_id, tag);
      MC_CHECK(!r.Path().empty() && id(r.Path()[0].Outcome()) == chosen_id, k.what, ": the plan starts elsewhere"); finished = r.Path().size() == 1; expected_primitive = finished ? -1 : static_cast<int>(r.Path()[1].PrimitiveIndex());
    };
    pre = [&](const State& s, const stp::ActionPrimitiveSharedPtr<State, Container>& p, const stp::TaskStateAstarResult<State>& r)
    { MC_CHECK(phase == 1 && id(s) == chosen_id && !finished && p == c.Primitives().at(static_cast<size_t>(expected_primitive)) && r.Path().size() > 1, k.what, ": pre-execution callback in phase ", phase, " for ", id(s)); phase = 2; };
    post = [&](const Container& outcomes)
    {
      MC_CHECK(phase == 3 && outcomes.size() == current.size(), k.what, ": post-execution callback in phase ", phase, " with ", outcomes.size(), " states"); for (size_t i = 0; i < current.size(); i++) { MC_CHECK(id(outcomes.at(i)) == id(current[i]), k.what, ": post-execution callback with other states"); } phase = 0;
    };
  }
  Container out; std::string error; bool mine = false;
  const auto run = [&]
  {
    try
    {
      if (single_start) { out = stp::PerformSingleTaskExecution<State, Container, Hash, Equal>(c, complete, start.at(0), limit, {}, Hash(), Equal(), pre, post, chosen); }
      else { out = stp::PerformSingleTaskExecution<State, Container, Hash, Equal>(c, complete, start, limit, {}, Hash(), Equal(), pre, post, chosen); }
    }
    catch (const Stop&) { mine = true; }
  };
  const int outcome = mc::throws(run, &error); mc::transition(static_cast<uint64_t>(executions) + 1);
  const std::string told = k.what + ":" + w.text() + mc::str(" after ", executions, " executions");
  if (stopped) { MC_CHECK(mine, told, ": an exception of a primitive was swallowed"); mc::state(mc::Hash().add(told).h); return; }
  if (outcome != 0)
  {
    const bool stuck = refused || w.best(set_of(), false) == INF; MC_CHECK(outcome == 1 && stuck && (limit < 0 || executions < limit), told, ": threw ", error); mc::state(mc::Hash().add(told).h); return;
  }
  std::vector<std::pair<int, int>> got; for (const auto& s : out) { int tag = -1; if constexpr (std::is_same_v<State, S>) { tag = callbacks ? s.tag : -1; } got.emplace_back(id(s), tag); }
  const std::set<int> real = set_of(); const bool spent = limit >= 0 && executions == limit;
  // Without callbacks the last recorded state is known only if it completes the task.
  if (!callbacks && got.size() == trace.size() + 1) { MC_CHECK(real.count(got.back().first) && w.complete.count(got.back().first) && w.complete[got.back().first], told, ": last recorded state ", got.back().first, " does not complete the task"); trace.push_back(got.back()); finished = true; }
  MC_CHECK(got == trace, told, ": recorded ", got.size(), " states, expected ", trace.size()); MC_CHECK(finished || spent, told, ": stopped although not finished");
  if (finished) { MC_CHECK(!got.empty() && w.complete[got.back().first], told, ": the last state does not complete the task"); MC_CHECK(static_cast<int>(got.size()) == executions + 1, told, ": ", got.size(), " recorded states"); }
  else { MC_CHECK(static_cast<int>(got.size()) == executions, told, ": ", got.size(), " recorded states"); }
  mc::Hash h; h.add(told); for (const auto& g : got) { h.add(g.first); } mc::state(h.h); if (mc::want_note()) { mc::note(told + (finished ? " finished" : " out of executions")); }
}
void registry(int length)
{
  stp::ActionPrimitiveCollection<int> c; std::vector<std::string> model, log; std::string what = "collection:"; bool logging = false;
  const auto primitive = [](const std::string& n) { return std::make_shared<stp::ActionPrimitiveWrapper<int>>([](const int&) { return true; }, [](const int&) { return stp::OutcomesWithCosts<int>(); }, [](const int&) { return std::vector<int>(); }, n); };
  const std::vector<std::string> names{"a", "b", "ab", ""};
  for (int s = 0; s < length; s++)
  {
    const int op = mc::choose(11); const size_t logged = log.size();
    if (op < 4)
    {
      const bool there = std::count(model.begin(), model.end(), names[static_cast<size_t>(op)]) > 0; what += " +" + names[static_cast<size_t>(op)];
      MC_CHECK(mc::throws([&] { c.RegisterPrimitive(primitive(names[static_cast<size_t>(op)])); }) == (there ? 1 : 0), what, ": registration ", there ? "of a second one accepted" : "refused"); if (!there) { model.push_back(names[static_cast<size_t>(op)]); MC_CHECK(log.size() == logged + (logging ? 1U : 0U), what, ": log"); }
    }
    else if (op < 8) { what += " -" + names[static_cast<size_t>(op - 4)]; c.UnregisterPrimitiveByName(names[static_cast<size_t>(op - 4)]); model.erase(std::remove(model.begin(), model.end(), names[static_cast<size_t>(op - 4)]), model.end()); }
    else if (op == 8) { what += " -{a,ab,x}"; c.UnregisterPrimitivesByName({"a", "ab", "x"}); model.erase(std::remove_if(model.begin(), model.end(), [](const std::string& n) { return n == "a" || n == "ab"; }), model.end()); }
    else if (op == 9) { what += " clear"; c.ClearPrimitives(); model.clear(); }
    else { what += " log"; logging = !logging; c.SetLoggingFunction(logging ? common_robotics_utilities::utility::LoggingFunction([&](const std::string& m) { log.push_back(m); }) : common_robotics_utilities::utility::LoggingFunction()); }
    std::vector<std::string> now; for (const auto& p : c.Primitives()) { now.push_back(p->Name()); } MC_CHECK(now == model, what, ": holds ", mc::vstr(now), ", expected ", mc::vstr(model)); mc::transition(); mc::state(mc::Hash().add(mc::vstr(now)).add(logging).h);
  }
  if (mc::want_note()) { mc::note(what); }
}
World world(int n, int p, int richness)
{
  World w; w.n = n; w.p = p; w.least = richness == 2 ? 0 : 1;
  w.menu = [n, richness](int s, int a)
  {
    std::vector<Moves> v; const int next = (s + 1) % n, last = (s + n - 1) % n;
    if (richness == 0) { return std::vector<Moves>{{{next, 1}}, {{last, 1}}, {{next, 3}}}; }
    if (richness == 3) { return a == 0 ? std::vector<Moves>{{{next, 1}}, {{next, 3}}} : std::vector<Moves>{{{(s + 2) % n, 1}}, {{(s + 2) % n, 3}, {last, 1}}}; }
    v.push_back({}); for (int t = 0; t < n; t++) { for (double c : richness == 1 ? std::vector<double>{1, 3} : std::vector<double>{0, 1, 3}) { v.push_back({{t, c}}); } }
    v.push_back({{next, 3}, {last, 1}}); v.push_back({{last, 2}, {next, 1}}); v.push_back({{next, 3}, {next, 1}}); return v;
  };
  return w;
}
/// Many states; costs and outcomes follow a rule, of which each variant is taken.
World long_world()
{
  const bool crowd = mc::flip(); World w = world(crowd ? 12 : mc::by_tier(60, 250), crowd ? mc::pick(std::vector<int>{3, 300}) : 3, 0); const int n = w.n; w.one_goal = true; w.least = 1; w.rule = 1 + mc::choose(4); w.stop = mc::by_tier(150, 600); const int shape = mc::choose(3), rule = w.rule;
  w.menu = [n, shape, rule](int s, int a)
  {
    Moves m{{(s + 1 + a) % n, 1.0 + (s * rule + a) % 3}}; if (shape > 0) { m.push_back({(s * 7 + a) % n, 1.0 + a}); } if (shape > 1) { m.push_back({(s + 2) % n, 2.5}); m.push_back({s, 1.0}); } return std::vector<Moves>{m};
  };
  return w;
}
}
void mc::run()
{
  using V = std::vector<int>; using H = std::hash<int>; using E = std::equal_to<int>; using D = std::deque<S>;
  scenario("plan: 2 states, 2 primitives", [] { plan<int, V, H, E>(world(2, 2, 2), choose(2)); }, 6);
  scenario("plan: 2 states with tags, 2 primitives", [] { plan<S, D, SHash, SEqual>(world(2, 2, 1), 2 * choose(2)); }, 6);
  scenario("plan: 3 states, 1 primitive", [] { plan<int, V, H, E>(world(3, 1, 2), 0); }, 6);
  scenario("plan: 3 states, 2 primitives", [] { plan<int, V, H, E>(world(3, 2, 0), 2 * choose(2)); }, 6);
  scenario("plan: 4 states, 1 primitive", [] { plan<int, V, H, E>(world(4, 1, 1), 2); }, 6);
  scenario("plan: 4 states, 2 primitives", [] { World w = world(4, 2, 3); w.one_goal = true; plan<int, V, H, E>(w, choose(2) * 2); }, 6);
  const std::vector<std::vector<int>> few{{1}, {2, 0}, {}}, pairs{{0}, {1}, {1, 0}, {1, 1}};
  scenario("execute: 2 states, 1 primitive", [=] { execute<int, V, H, E>(world(2, 1, 1), 3, pairs, false); }, 6);
  scenario("execute: 3 states, 1 primitive", [=] { execute<S, D, SHash, SEqual>(world(3, 1, 0), 3, few, false); }, 6);
  scenario("execute: 3 states, 2 primitives", [=] { World w = world(3, 2, 0); w.one_goal = true; execute<int, V, H, E>(w, 2, few, true); }, 6);
  scenario("execute: 2 states, 2 primitives", [=] { execute<int, V, H, E>(world(2, 2, 0), 2, pairs, true); }, 6);
  scenario("plan: many states", [] { World w = long_world(); plan<int, V, H, E>(w, choose(3)); }, 3);
  scenario("execute: many states", [=] { World w = long_world(); execute<S, D, SHash, SEqual>(w, 40, few, false); }, 3);
  scenario("collection", [] { registry(by_tier(4, 5)); });
  scenario("empty start", []
  {
    Kit<int> k; k.w = world(2, 1, 0); const auto c = collection<int, V>(k); const stp::TaskSequenceCompleteFunction<int> yes = [](const int&) { return true; };
    MC_CHECK(throws([&] { stp::GetNextPrimitiveToExecute<int>(c, yes, V()); }) == 1, "no outcome states accepted"); MC_CHECK(stp::PerformSingleTaskExecution<int>(c, yes, V{}, 0).empty(), "zero executions recorded states");
    MC_CHECK(throws([&] { stp::PerformSingleTaskExecution<int>(c, yes, V{}, -1); }) == 1, "execution without a start accepted"); bool found = false; throws([&] { found = !std::isinf(stp::PlanTaskStateSequence<int>(c, yes, V()).PathCost()); }); MC_CHECK(!found, "planning without a start found a path"); transition(3); state(1);
  });
  if (thorough())
  {
    scenario("plan: 3 states, 2 primitives, rich", [] { plan<int, V, H, E>(world(3, 2, 1), 0); }, 8);
    scenario("execute: 3 states, 2 primitives, deep", [=] { execute<int, V, H, E>(world(3, 2, 3), 3, few, false); }, 8);
  }
}
