// G07: helpers that build kinematic planning functions.
#include "rrt.hpp"
#include <chrono>
#include <cmath>
#include <limits>
MC_HARNESS("G07", "every combination of states, step sizes and edge validity answers (chosen lazily) for the propagation helpers, also with arbitrary distance answers; every boundary draw and bias for the sampling helpers; "
                  "every assignment of distances to small trees for the nearest-neighbour helpers; every sequence of operations and clock advances for the timeout helpers")
// A clock under control of the harness.
namespace { bool g_fake = false; int64_t g_now = 0; }
extern "C" std::chrono::steady_clock::time_point __real__ZNSt6chrono3_V212steady_clock3nowEv();
extern "C" std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
{ return g_fake ? std::chrono::steady_clock::time_point(std::chrono::nanoseconds(g_now)) : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
namespace
{
using cru::parallelism::DegreeOfParallelism;
using Active = rrt::BiRRTActiveTreeType; using Type = rrt::BiRRTSampleType;
const double NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();
struct P2 { double x = 0, y = 0; bool operator==(const P2& o) const { return x == o.x && y == o.y; } };
std::ostream& operator<<(std::ostream& o, const P2& p) { return o << "(" << p.x << "," << p.y << ")"; }
double dist(const P2& a, const P2& b) { return std::hypot(a.x - b.x, a.y - b.y); }
P2 between(const P2& a, const P2& b, double r) { return P2{a.x + (b.x - a.x) * r, a.y + (b.y - a.y) * r}; }
template<typename S> using DistanceFn = std::function<double(const S&, const S&)>;
template<typename S> using BlendFn = std::function<S(const S&, const S&, const double)>;
template<typename S> using EdgeFn = std::function<bool(const S&, const S&)>;
/// One of the four helpers, called on the states.
template<typename S> rrt::ForwardPropagation<S> call(int which, const DistanceFn<S>& d, const BlendFn<S>& b, const EdgeFn<S>& e, double step, const S& from, const S& to)
{
  switch (which)
  {
    case 0: return rrt::MakeKinematicRRTExtendPropagationFunction<S>(d, b, e, step)(from, to);
    case 1: return rrt::MakeKinematicBiRRTExtendPropagationFunction<S>(d, b, e, step)(from, to, Active::START_TREE);
    case 2: return rrt::MakeKinematicBiRRTExtendPropagationFunction<S>(d, b, e, step)(from, to, Active::GOAL_TREE);
    case 3: return rrt::MakeKinematicRRTConnectPropagationFunction<S>(d, b, e, step)(from, to);
    case 4: return rrt::MakeKinematicBiRRTConnectPropagationFunction<S>(d, b, e, step)(from, to, Active::START_TREE);
    default: return rrt::MakeKinematicBiRRTConnectPropagationFunction<S>(d, b, e, step)(from, to, Active::GOAL_TREE);
  }
}
const char* name(int w) { static const char* n[] = {"RRT extend", "BiRRT extend (start)", "BiRRT extend (goal)", "RRT connect", "BiRRT connect (start)", "BiRRT connect (goal)"}; return n[w]; }
void propagation(const std::vector<P2>& targets, const std::vector<double>& steps, int most_steps)
{
  const int which = mc::choose(6); const bool connect = which >= 3; const P2 from = mc::pick(std::vector<P2>{{0, 0}, {0.3, -0.7}}), to = mc::pick(targets); const double step = mc::pick(steps);
  const double total = dist(from, to); if (total / step > most_steps) { return; }
  std::vector<std::tuple<P2, P2, bool>> edges;
  const std::string what = mc::str(name(which), " from ", from, " to ", to, " with step ", step);
  const EdgeFn<P2> edge = [&](const P2& a, const P2& b) { const bool ok = mc::flip(); edges.emplace_back(a, b, ok); return ok; };
  const auto out = call<P2>(which, dist, between, edge, step, from, to);
  const auto checked = [&](const P2& a, const P2& b) { for (const auto& [x, y, ok] : edges) { if (x == a && y == b) { return ok ? 1 : 0; } } return -1; };
  P2 last = from; std::string all = mc::str(from);
  for (size_t i = 0; i < out.size(); i++)
  {
    const P2 now = out[i].State(); all += mc::str(" ", now);
    MC_CHECK(i == 0 ? out[i].RelativeParentIndex() < 0 : out[i].RelativeParentIndex() == static_cast<int64_t>(i) - 1, what, ": state ", i, " has relative parent ", out[i].RelativeParentIndex(), ": ", all);
    MC_CHECK(checked(last, now) == 1, what, ": edge ", last, "-", now, checked(last, now) < 0 ? " was never checked" : " is invalid");
    MC_CHECK(dist(last, now) <= step * (1 + 1e-9), what, ": step of ", dist(last, now), " from ", last, " to ", now);
    MC_CHECK(std::abs(dist(from, now) + dist(now, to) - total) <= 1e-9 * (1 + total), what, ": ", now, " is off the way");
    MC_CHECK(i + 1 == out.size() || dist(last, now) >= step * (1 - 1e-9), what, ": a needlessly short step to ", now);
    last = now;
  }
  bool blocked = false; for (size_t i = 0; i < edges.size(); i++) { MC_CHECK(!blocked, what, ": went on after an invalid edge"); blocked = !std::get<2>(edges[i]); }
  const double left = dist(last, to);
  if (!connect)
  {
    MC_CHECK(edges.size() == 1 && out.size() == (blocked ? 0U : 1U), what, ": ", edges.size(), " checks and ", out.size(), " states");
    if (!blocked) { MC_CHECK(total <= step ? last == to : std::abs(dist(from, last) - step) <= 1e-9 * step, what, ": extended to ", last); }
  }
  else if (!blocked) { MC_CHECK(left <= 1e-9 * (1 + total), what, ": stopped at ", last, " without an invalid edge: ", all); }
  mc::transition(); mc::state(mc::Hash().add(what + all).h); if (mc::want_note()) { mc::note(what + ": " + all + (blocked ? " blocked" : "")); }
}
/// Distances answered arbitrarily: still only checked edges, in order, and bounded.
void arbitrary(int most)
{
  const int which = mc::choose(6); const bool connect = which >= 3; const double step = 1.0; int next = 10, distances = 0, checks = 0;
  std::map<std::pair<int, int>, bool> valid; double total = 0;
  const std::string what = mc::str(name(which), " with arbitrary distances");
  const DistanceFn<int> d = [&](const int& a, const int& b) { MC_CHECK((a == 1 || a >= 10) && b == 2, what, ": distance from ", a, " to ", b); const double v = mc::pick(std::vector<double>{0.0, 0.5, 1.0, 1.5, 2.0, 3.0}); if (distances++ == 0) { total = v; } return v; };
  const BlendFn<int> b = [&](const int&, const int& y, const double r) { MC_CHECK(y == 2 && r > 0.0 && r < 1.0, what, ": interpolation by ", r); return next++; };
  const EdgeFn<int> e = [&](const int& x, const int& y) { MC_CHECK(++checks <= most + 1, what, ": does not stop"); const bool ok = mc::flip(); valid[{x, y}] = ok; return ok; };
  const auto out = call<int>(which, d, b, e, step, 1, 2); int last = 1;
  MC_CHECK(out.size() <= (connect ? static_cast<size_t>(std::ceil(total / step)) : 1U), what, ": ", out.size(), " states for distance ", total);
  for (size_t i = 0; i < out.size(); i++)
  {
    const int now = out[i].State(); MC_CHECK(i == 0 ? out[i].RelativeParentIndex() < 0 : out[i].RelativeParentIndex() == static_cast<int64_t>(i) - 1, what, ": state ", i, " has relative parent ", out[i].RelativeParentIndex());
    MC_CHECK(valid[std::make_pair(last, now)], what, ": edge ", last, "-", now, " was not found valid"); last = now;
  }
  mc::transition(); mc::state(mc::Hash().add(which).add(distances).add(checks).add(out.size()).h);
}
std::vector<double> draws(double bias)
{
  std::vector<double> v{0.0, 0x1p-53, 0.25, 0.5, 0.75, 1.0 - 0x1p-53};
  for (double d : {std::nextafter(bias, 0.0), std::nextafter(bias, 2.0), bias}) { if (d >= 0.0 && d < 1.0) { v.push_back(d); } }
  return v;
}
const std::vector<double> kBiases{0.0, 0x1p-60, 0.1, 0.5, 0.9, 1.0};
void samplers()
{
  const double bias = mc::pick(kBiases), draw = mc::pick(draws(bias)); const int which = mc::choose(3); int calls = 0; double second = 0.0;
  const cru::utility::UniformUnitRealFunction uniform = [&] { return calls++ == 0 ? draw : second; };
  const bool below = draw < bias; const std::string what = mc::str("bias ", bias, ", draw ", draw, ": ");
  if (which == 0)
  {
    const int goals = 1 + mc::choose(4); second = mc::pick(draws(0.3)); std::deque<int> offered; for (int i = 0; i < goals; i++) { offered.push_back(50 + i); }
    bool state = false; const auto f = rrt::MakeStateAndGoalsSamplingFunction<int, std::deque<int>>([&] { state = true; return 7; }, offered, bias, uniform); const auto g = f;
    const int got = mc::flip() ? f() : g();
    MC_CHECK(below ? (got >= 50 && got < 50 + goals && !state) : (got == 7 && state), what, "goal sampling returned ", got, state ? " (state sampled)" : "");
    if (below) { const auto want = 50 + static_cast<int>(second * goals); MC_CHECK(got == want, what, "draw ", second, " among ", goals, " goals gave ", got, ", expected ", want); }
  }
  else
  {
    Tree a, b; a.AddNode(1); b.AddNode(2); const Active active = mc::flip() ? Active::START_TREE : Active::GOAL_TREE;
    if (which == 1) { const Type t = rrt::MakeUniformRandomBiRRTSelectSampleTypeFunction<int>(uniform, bias)(a, b, active); MC_CHECK(t == (below ? Type::TREE_SAMPLE : Type::STATE_SAMPLE), what, "wrong sample type"); }
    else { const Active n = rrt::MakeUniformRandomBiRRTSelectActiveTreeFunction<int>(uniform, bias)(a, b, active); MC_CHECK((n != active) == below, what, "trees ", n != active ? "" : "not ", "swapped"); }
  }
  mc::transition(); mc::state(mc::Hash().add(which).add(bias).add(draw).h); if (mc::want_note()) { mc::note(what + mc::str(which)); }
}
/// One sampler is used on several trees of different sizes in turn, as planners use it on their two trees.
void tree_samplers_in_turn()
{
  const int sizes[3] = {1 + mc::choose(5), 1 + mc::choose(5), 3}; Tree trees[3]; for (int k = 0; k < 3; k++) { for (int i = 0; i < sizes[k]; i++) { trees[k].AddNode(i); } } double draw = 0;
  auto f = rrt::MakeUniformRandomBiRRTTreeSamplingFunction<int>([&] { return draw; });
  std::string what = mc::str("one sampler on trees of ", sizes[0], " and ", sizes[1], " nodes:");
  for (int step = 0; step < 4; step++)
  {
    const int k = mc::choose(2); const bool grow = step > 0 && mc::flip(); if (grow) { trees[k].AddNode(9); }
    if (step == 2 && mc::flip()) { trees[1 - k] = trees[2]; }
    const auto size = trees[k].Size(); draw = mc::pick(std::vector<double>{0.0, 0.55, 1.0 - 0x1p-53}); what += mc::str(" ", draw, " of ", size);
    const int64_t got = f(trees[k], k == 0 ? Active::START_TREE : Active::GOAL_TREE);
    MC_CHECK(got == static_cast<int64_t>(draw * static_cast<double>(size)), what, ": node ", got); mc::transition();
  }
  mc::state(mc::Hash().add(what).h);
}
void tree_sampler()
{
  const int n = mc::choose(mc::by_tier(64, 600) + 1); Tree t; for (int i = 0; i < n; i++) { t.AddNode(i); } double draw = 0;
  const auto f = rrt::MakeUniformRandomBiRRTTreeSamplingFunction<int>([&] { return draw; });
  if (n == 0) { MC_CHECK(mc::throws([&] { f(t, Active::START_TREE); }) == 1, "sampling an empty tree was not refused"); return; }
  for (int i = 0; i < n; i++)
  {
    for (double d : {static_cast<double>(i) / n + 1e-9, (i + 0.5) / n, static_cast<double>(i + 1) / n - 1e-9}) { draw = d; MC_CHECK(f(t, Active::GOAL_TREE) == i, "draw ", d, " from ", n, " nodes gave ", f(t, Active::GOAL_TREE)); }
  }
  draw = 0; MC_CHECK(f(t, Active::START_TREE) == 0, "draw 0"); draw = 1.0 - 0x1p-53; MC_CHECK(f(t, Active::START_TREE) == n - 1, "largest draw gave ", f(t, Active::START_TREE), " of ", n); mc::transition(3 * static_cast<uint64_t>(n)); mc::state(static_cast<uint64_t>(n));
}
void refusals()
{
  const double bad = mc::pick(std::vector<double>{-1.0, -0x1p-60, NaN, -INF, INF, 1.0 + 0x1p-52, 2.0}); const cru::utility::UniformUnitRealFunction u = [] { return 0.5; };
  const auto refused = [&](const char* what, const std::function<void()>& f, bool must) { MC_CHECK(mc::throws(f) == (must ? 1 : 0), what, must ? " accepted " : " refused ", bad); mc::transition(); };
  refused("goal bias", [&] { rrt::MakeStateAndGoalsSamplingFunction<int>([] { return 1; }, std::vector<int>{1}, bad, u); }, true);
  refused("tree sampling bias", [&] { rrt::MakeUniformRandomBiRRTSelectSampleTypeFunction<int>(u, bad); }, true);
  refused("switching probability", [&] { rrt::MakeUniformRandomBiRRTSelectActiveTreeFunction<int>(u, bad); }, true);
  const double step = mc::pick(std::vector<double>{0.0, -0.0, -0x1p-1074, -1.0, NaN, -INF, 1.0});
  for (int w : {0, 1, 3, 4})
  {
    MC_CHECK(mc::throws([&] { call<P2>(w, dist, between, [](const P2&, const P2&) { return true; }, step, P2{0, 0}, P2{1, 0}); }) == (step > 0 ? 0 : 1), name(w), step > 0 ? " refused step " : " accepted step ", step);
  }
  const double timeout = step;
  MC_CHECK(mc::throws([&] { rrt::TimeoutCheckHelper t(timeout); }) == (timeout > 0 ? 0 : 1), "timeout ", timeout);
  MC_CHECK(mc::throws([&] { rrt::MakeRRTTimeoutTerminationFunction(timeout); }) == (timeout > 0 ? 0 : 1) && mc::throws([&] { rrt::MakeBiRRTTimeoutTerminationFunction(timeout); }) == (timeout > 0 ? 0 : 1), "termination function with timeout ", timeout);
  MC_CHECK(mc::throws([&] { rrt::MakeStateAndGoalsSamplingFunction<int>([] { return 1; }, std::vector<int>{}, 0.5, u); }) == 1, "no goals accepted"); mc::state(mc::Hash().add(bad).add(step).h);
}
void neighbours(int most, int distances)
{
  const int n = mc::choose(most + 1); const DegreeOfParallelism p = mc::pick(std::vector<DegreeOfParallelism>{DegreeOfParallelism::None(), DegreeOfParallelism(2), DegreeOfParallelism(4)}); const int which = mc::choose(4);
  std::vector<double> d; Tree t; for (int i = 0; i < n; i++) { d.push_back(mc::choose(distances)); if (i % 2) { t.AddNodeAndConnect(i, i - 1); } else { t.AddNode(i); } }
  const std::string what = mc::str("nearest of ", mc::vstr(d), " with ", p.GetNumThreads(), " threads, helper ", which); std::atomic<int> wrong{0};
  struct S { int id; };
  const std::function<double(const int&, const int&)> same = [&](const int& a, const int& s) { if (s != 77) { wrong++; return 1e9; } return d.at(static_cast<size_t>(a)); };
  const std::function<double(const int&, const S&)> mixed = [&](const int& a, const S& s) { if (s.id != 77) { wrong++; } return d.at(static_cast<size_t>(a)); };
  int64_t at = -1;
  const int outcome = mc::throws([&]
  {
    switch (which)
    {
      case 0: at = rrt::MakeLinearRRTNearestNeighborsFunction<int, Tree, S>(mixed, p)(t, S{77}); break;
      case 1: at = rrt::MakeKinematicLinearRRTNearestNeighborsFunction<int>(same, p)(t, 77); break;
      case 2: at = rrt::MakeKinematicLinearBiRRTNearestNeighborsFunction<int>(same, p)(t, 77, Active::START_TREE); break;
      default: at = rrt::MakeKinematicLinearBiRRTNearestNeighborsFunction<int>(same, p)(t, 77, Active::GOAL_TREE); break;
    }
  });
  MC_CHECK(wrong == 0, what, ": distance asked the wrong way round");
  if (n == 0) { MC_CHECK(outcome == 1, what, ": empty tree not refused"); return; }
  MC_CHECK(outcome == 0 && at >= 0 && at < n && d[static_cast<size_t>(at)] == *std::min_element(d.begin(), d.end()), what, ": returned ", at); mc::transition(); mc::state(mc::Hash().addv(d).add(at).h); if (mc::want_note()) { mc::note(what + mc::str(" -> ", at)); }
}
/// The closest node at every position of larger trees.
void many_neighbours()
{
  const int n = mc::pick(std::vector<int>{17, 50, 129, 500}); const DegreeOfParallelism p(mc::pick(std::vector<int>{1, 2, 3, 4, 7, 16})); const bool two = mc::flip();
  Tree t; std::vector<double> d; for (int i = 0; i < n; i++) { d.push_back(5 + (i * 7) % 13); if (i % 3) { t.AddNodeAndConnect(i, i / 2); } else { t.AddNode(i); } }
  const std::function<double(const int&, const int&)> f = [&](const int& a, const int&) { return d[static_cast<size_t>(a)]; };
  const auto one = rrt::MakeKinematicLinearRRTNearestNeighborsFunction<int>(f, p); const auto both = rrt::MakeKinematicLinearBiRRTNearestNeighborsFunction<int>(f, p);
  for (int i = 0; i < n; i++)
  {
    const double was = d[static_cast<size_t>(i)]; d[static_cast<size_t>(i)] = 1;
    const int64_t at = two ? both(t, 77, Active::GOAL_TREE) : one(t, 77);
    MC_CHECK(at == i, "nearest of ", n, " nodes with ", p.GetNumThreads(), " threads is ", at, ", expected ", i); d[static_cast<size_t>(i)] = was;
  }
  mc::transition(static_cast<uint64_t>(n)); mc::state(mc::Hash().add(n).add(p.GetNumThreads()).add(two).h);
}
/// Timeout helper operations with the clock under control.
void timeouts(int length)
{
  struct Guard { Guard() { g_fake = true; g_now = 1000; } ~Guard() { g_fake = false; } } guard;
  const double timeout = mc::pick(std::vector<double>{1e-9, 0.5, 2.0}); rrt::TimeoutCheckHelper helper(timeout); bool started = false; int64_t since = 0; std::string what = mc::str("timeout ", timeout, ":");
  const auto expired = [&] { return static_cast<double>(g_now - since) * 1e-9 > timeout * (1 + 1e-12); }; const auto edge = [&] { return std::abs(static_cast<double>(g_now - since) * 1e-9 - timeout) <= timeout * 1e-12; };
  for (int s = 0; s < length; s++)
  {
    switch (mc::choose(7))
    {
      case 0: g_now += 500000000; what += " +0.5"; break;
      case 1: g_now += 1600000000; what += " +1.6"; break;
      case 2: helper.Start(); started = true; since = g_now; what += " start"; break;
      case 3: helper.Reset(); started = false; what += " reset"; break;
      case 4: { bool r = false; what += " check"; const int t = mc::throws([&] { r = helper.Check(); }); MC_CHECK(t == (started ? 0 : 1), what, ": checking ", started ? "threw" : "before the start did not throw"); if (started && !edge()) { MC_CHECK(r == expired(), what, ": reported ", r); } break; }
      case 5: { what += " check-or-start"; const bool r = helper.CheckOrStart(); if (!started) { MC_CHECK(!r, what, ": expired at the start"); started = true; since = g_now; } else if (!edge()) { MC_CHECK(r == expired(), what, ": reported ", r); } break; }
      default: { rrt::TimeoutCheckHelper copy(helper); helper = copy; what += " copy"; break; }
    }
    mc::transition();
  }
  mc::state(mc::Hash().add(what).h); if (mc::want_note()) { mc::note(what); }
}
void terminations(int length)
{
  struct Guard { Guard() { g_fake = true; g_now = 5000; } ~Guard() { g_fake = false; } } guard;
  const double timeout = mc::pick(std::vector<double>{0.5, 2.0}); const bool two = mc::flip(); auto one = rrt::MakeRRTTimeoutTerminationFunction(timeout); auto both = rrt::MakeBiRRTTimeoutTerminationFunction(timeout); int64_t since = -1; std::string what = mc::str("termination after ", timeout, ":");
  for (int s = 0; s < length; s++)
  {
    switch (mc::choose(3))
    {
      case 0: g_now += 700000000; what += " +0.7"; break;
      case 1: g_now += 100000000; what += " +0.1"; break;
      default:
      {
        const bool r = two ? both(1, 2) : one(3); what += r ? " yes" : " no"; if (since < 0) { since = g_now; }
        const double elapsed = static_cast<double>(g_now - since) * 1e-9; if (std::abs(elapsed - timeout) > 1e-6) { MC_CHECK(r == (elapsed > timeout), what, " after ", elapsed); }
      }
    }
    mc::transition();
  }
  mc::state(mc::Hash().add(what).h);
}
}
void mc::run()
{
  std::vector<P2> targets{{0, 0}, {1, 0}, {0.3, -0.7}, {0.3, 0.3}, {-1.1, 0}, {0, 2}, {3, 4}, {0.6, -0.3}, {0x1p-60, 0}};
  std::vector<double> steps{0.1, 0.25, 0.3, 0.5, 1.0, 1.0 / 3.0, 5.0, 0.7071067811865476, 10.0, 1e300};
  scenario("steps", [=] { propagation(targets, steps, 60); }, 4);
  scenario("many steps", [] { propagation({{1, 0}, {0.3, 0.3}, {100, 0}, {7, 7}}, {0.01, 0.003, 0.07, 0.11}, by_tier(150, 2000)); }, 4);
  scenario("arbitrary distances", [] { arbitrary(4); }, 5);
  scenario("biased samplers", [] { samplers(); });
  scenario("tree sampling", [] { tree_sampler(); });
  scenario("tree samplers in turn", tree_samplers_in_turn, 4);
  scenario("refused parameters", [] { refusals(); });
  scenario("nearest neighbours", [] { neighbours(by_tier(5, 6), 3); }, 4);
  scenario("nearest neighbours of many", [] { many_neighbours(); });
  scenario("timeout helper", [] { timeouts(by_tier(6, 7)); });
  scenario("timeout functions", [] { terminations(by_tier(8, 10)); });
}
