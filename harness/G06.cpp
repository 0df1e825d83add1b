// G06: bidirectional tree planning.
#include "rrt.hpp"
MC_HARNESS("G06", "every pair of small initial forests x every sequence of answers of the termination, sample type, tree and state sampling, nearest-neighbour, propagation, connection and tree selection functions (chosen lazily at each call, malformed ones included) "
                  "x callbacks given or left out, against two reference trees and an event log; a state is a distinct resulting pair of trees with its bridges")
namespace
{
using Active = rrt::BiRRTActiveTreeType; using Type = rrt::BiRRTSampleType;
struct Options { int iterations = 2; bool wide = false, single = false, hostile = false, meddle = false, late = false, script = false; int initial = 1, rare = 9; };
struct Side
{
  Tree tree; Model model; int64_t first_new = 0; std::set<int64_t> by_planner; std::map<int64_t, int> added_calls;
  explicit Side(const std::vector<int64_t>& forest, int base) : tree(plant(forest, base)), model(read(tree, "planted")), first_new(tree.Size()) {}
};
template<typename Container> void plan(const Options& o)
{
  const auto fs = mc::pick(forests(o.initial)), fg = mc::pick(forests(o.initial));
  const bool with_added = mc::flip(), with_bridge = mc::flip();
  // Either every answer is chosen, or a long run follows one of the answer sequences.
  const long mul = o.script ? mc::pick(std::vector<long>{1, 2, 3, 5, 7, 11, 13}) : 0, add = o.script ? mc::pick(std::vector<long>{0, 1, 4}) : 0; long answers = 0;
  const auto choose = [&](int n) { if (!o.script) { return mc::choose(n); } answers++; return static_cast<int>((mul * answers + add * (answers / 3)) % n); };
  const auto flip = [&] { return choose(2) == 1; };
  Side start(fs, 100), goal(fg, 400);
  std::string what = mc::str(o.single ? "single" : "multi", "-path planning from forests ", mc::vstr(fs), " and ", mc::vstr(fg), with_added ? "" : ", no state-added callback", with_bridge ? "" : ", no bridge callback");
  Active active = Active::START_TREE; bool from_tree = false, planning = false;
  std::vector<std::pair<int64_t, int64_t>> bridges; std::map<std::pair<int64_t, int64_t>, int> bridge_calls, asked;
  int rounds = 0, start_rounds = 0, samples = 0, good = 0, bad = 0, swaps = 0, next_value = 1000;
  bool refused_target = false, refused_nn = false, refused_propagation = false, settled = false, selected = true;
  std::vector<int> pending_values; std::vector<int64_t> pending_parents; size_t pending = 0; int64_t nearest = -1, target_index = -1; const int* target = nullptr; int target_value = 0;
  std::vector<int64_t> index_of;
  const auto me = [&]() -> Side& { return active == Active::START_TREE ? start : goal; };
  const auto other = [&]() -> Side& { return active == Active::START_TREE ? goal : start; };
  const auto sync = [&]
  {
    Side& s = me();
    while (s.tree.Size() > static_cast<int64_t>(s.model.values.size()))
    {
      const int64_t at = static_cast<int64_t>(s.model.values.size()); const auto& node = s.tree.GetNodeImmutable(at);
      MC_CHECK(pending < pending_values.size(), what, ": a node ", node.GetValueImmutable(), " was added that was not propagated");
      const int64_t relative = pending_parents[pending], parent = relative < 0 ? nearest : index_of.at(static_cast<size_t>(relative));
      MC_CHECK(node.GetValueImmutable() == pending_values[pending], what, ": propagated ", pending_values[pending], ", added ", node.GetValueImmutable());
      MC_CHECK(node.GetParentIndex() == parent, what, ": node ", pending_values[pending], " with relative parent ", relative, " from ", nearest, " was put under ", node.GetParentIndex(), ", expected ", parent);
      s.model.values.push_back(pending_values[pending]); s.model.parents.push_back(parent); index_of.push_back(at); s.by_planner.insert(at); pending++;
    }
    MC_CHECK(other().tree.Size() == static_cast<int64_t>(other().model.values.size()), what, ": the tree that was not active grew");
  };
  const auto compare = [&]
  {
    for (const Side* s : {&start, &goal}) { const Model now = read(s->tree, what); MC_CHECK(same(now, s->model), what, ": ", s == &start ? "start" : "goal", " tree is ", text(now), ", expected ", text(s->model)); }
  };
  const auto settle = [&]
  {
    if (settled) { return; }
    sync(); compare();
    MC_CHECK(pending == pending_values.size(), what, ": only ", pending, " of ", pending_values.size(), " propagated states were added");
    for (const Side* s : {&start, &goal}) { for (int64_t i : s->by_planner) { if (with_added) { const auto it = s->added_calls.find(i); MC_CHECK(it != s->added_calls.end() && it->second == 1, what, ": state-added callback for node ", i, " not called once"); } } }
    for (const auto& b : bridges) { if (with_bridge) { MC_CHECK(bridge_calls[b] == 1, what, ": bridge callback called ", bridge_calls[b], " times for ", b.first, "-", b.second); } }
    if (from_tree) { for (int64_t i : index_of) { const auto pair = active == Active::START_TREE ? std::make_pair(i, target_index) : std::make_pair(target_index, i); MC_CHECK(asked[pair] == 1, what, ": connection of new node ", i, " with its target ", target_index, " was checked ", asked[pair], " times"); } }
    settled = true;
  };
  const rrt::BiRRTTerminationCheckFunction termination = [&](const int64_t a, const int64_t b)
  {
    settle(); MC_CHECK(selected || rounds == 0, what, ": no tree was selected after round ", rounds);
    MC_CHECK(a == start.tree.Size() && b == goal.tree.Size(), what, ": termination check was told sizes ", a, " and ", b);
    if (!planning) { for (int64_t i = 0; i < start.first_new; i++) { for (int64_t j = 0; j < goal.first_new; j++) { MC_CHECK((asked[{i, j}] == 1), what, ": initial states ", i, " and ", j, " were not checked for a connection"); } } }
    planning = true; const bool stop = rounds >= o.iterations || (!o.script && mc::flip()); if (mc::want_note()) { what += stop ? " stop" : mc::str(" | ", active == Active::START_TREE ? "start" : "goal"); }
    if (!stop) { MC_CHECK(!(o.single && !bridges.empty()), what, ": asked again after a solution"); settled = false; selected = false; rounds++; if (active == Active::START_TREE) { start_rounds++; } pending_values.clear(); pending = 0; index_of.clear(); from_tree = false; target = nullptr; }
    return stop;
  };
  const rrt::BiRRTSelectSampleTypeFunction<int, Tree> type = [&](const Tree& a, const Tree& b, const Active t)
  {
    MC_CHECK(&a == &start.tree && &b == &goal.tree && t == active && planning && !settled, what, ": sample type asked for wrong trees");
    from_tree = flip(); if (mc::want_note()) { what += from_tree ? " tree" : " state"; } return from_tree ? Type::TREE_SAMPLE : Type::STATE_SAMPLE;
  };
  const rrt::SamplingFunction<int> sampling = [&] { MC_CHECK(planning && !settled && !from_tree, what, ": sampled a state out of turn"); samples++; target_index = -1; target_value = 7000 + samples; return target_value; };
  const rrt::BiRRTTreeSamplingFunction<int, Tree> tree_sampling = [&](const Tree& t, const Active a)
  {
    MC_CHECK(&t == &other().tree && a == active && planning && !settled && from_tree, what, ": tree sampling with the wrong tree"); samples++;
    const int n = static_cast<int>(t.Size()), pick = choose(o.hostile ? n + 2 : n); target_index = pick < n ? pick : pick == n ? -1 : n; refused_target = pick >= n;
    if (!refused_target) { target_value = t.GetNodeImmutable(target_index).GetValueImmutable(); } if (mc::want_note()) { what += mc::str(" target ", target_index); } return target_index;
  };
  const rrt::BiRRTNearestNeighborFunction<int, Tree> nn = [&](const Tree& t, const int& s, const Active a) -> int64_t
  {
    MC_CHECK(&t == &me().tree && a == active && s == target_value && !settled, what, ": nearest neighbour of ", s, " asked, target is ", target_value);
    const int n = static_cast<int>(t.Size()), pick = choose(o.hostile ? n + 2 : n); nearest = pick < n ? pick : pick == n ? -1 : n; refused_nn = pick >= n; if (mc::want_note()) { what += mc::str(" near ", nearest); } return nearest;
  };
  const rrt::BiRRTPropagationFunction<int> propagate = [&](const int& from, const int& to, const Active a)
  {
    MC_CHECK(!refused_target && !refused_nn && a == active && to == target_value && &from == &me().tree.GetNodeImmutable(nearest).GetValueImmutable(), what, ": propagation from ", from, " to ", to); target = &to;
    const auto good_shapes = propagations(o.wide); const auto bad_shapes = o.hostile ? bad_propagations() : std::vector<std::vector<int64_t>>();
    const size_t pick = static_cast<size_t>(choose(static_cast<int>(good_shapes.size() + bad_shapes.size())));
    refused_propagation = pick >= good_shapes.size(); pending_parents = refused_propagation ? bad_shapes[pick - good_shapes.size()] : good_shapes[pick];
    rrt::ForwardPropagation<int> out; for (int64_t p : pending_parents) { pending_values.push_back(next_value); out.emplace_back(next_value++, p); }
    (out.empty() ? bad : good)++; if (mc::want_note()) { what += " grow " + mc::vstr(pending_parents); } return out;
  };
  rrt::BiRRTStateAddedCallbackFunction<int, Tree> added;
  if (with_added)
  {
    added = [&](Tree& t, const int64_t i, const Active a)
    {
      MC_CHECK(&t == &me().tree && a == active && i >= 0 && i < t.Size(), what, ": state-added callback for index ", i); sync(); Side& s = me();
      MC_CHECK(i == static_cast<int64_t>(s.model.values.size()) - 1 && s.by_planner.count(i), what, ": state-added callback for node ", i, " of ", t.Size()); s.added_calls[i]++;
      if (o.meddle)
      {
        const int how = mc::choose(3);
        if (how == 1) { t.GetNodeMutable(i).GetValueMutable() += 5000; s.model.values[static_cast<size_t>(i)] += 5000; }
        if (how == 2) { t.AddNodeAndConnect(900, i); s.model.values.push_back(900); s.model.parents.push_back(i); }
      }
    };
  }
  const rrt::BiRRTStatesConnectedFunction<int> connected = [&](const int& a, const int& b, const Active t)
  {
    MC_CHECK(t == active, what, ": connection check for the wrong active tree"); std::pair<int64_t, int64_t> pair(-1, -1);
    if (!planning)
    {
      for (int64_t i = 0; i < start.tree.Size(); i++) { if (start.model.values[static_cast<size_t>(i)] == a) { pair.first = i; } }
      for (int64_t i = 0; i < goal.tree.Size(); i++) { if (goal.model.values[static_cast<size_t>(i)] == b) { pair.second = i; } }
    }
    else
    {
      sync(); MC_CHECK(from_tree && !settled, what, ": connection check without a tree sample"); int64_t at = -1;
      for (int64_t i : index_of) { if (me().model.values[static_cast<size_t>(i)] == a) { at = i; } }
      MC_CHECK(at >= 0 && b == target_value, what, ": connection check of ", a, " with ", b, ", target is ", target_value); pair = active == Active::START_TREE ? std::make_pair(at, target_index) : std::make_pair(target_index, at);
    }
    MC_CHECK(pair.first >= 0 && pair.second >= 0, what, ": connection check between ", a, " and ", b); MC_CHECK(++asked[pair] == 1, what, ": connection of ", a, " and ", b, " was checked again");
    const bool yes = o.late && !planning ? false : o.script ? choose(o.rare) == 0 : mc::flip(); if (yes) { bridges.push_back(pair); } if (mc::want_note()) { what += mc::str(" ", yes ? "" : "!", "connected(", pair.first, ",", pair.second, ")"); } return yes;
  };
  rrt::BiRRTGoalBridgeCallbackFunction<int, Tree> bridge;
  if (with_bridge)
  {
    bridge = [&](Tree& a, const int64_t i, Tree& b, const int64_t j, const Active t)
    {
      MC_CHECK(&a == &start.tree && &b == &goal.tree && t == active, what, ": bridge callback with wrong trees");
      MC_CHECK(!bridges.empty() && bridges.back() == std::make_pair(i, j), what, ": bridge callback for ", i, "-", j, ", last connection ", bridges.empty() ? -1 : bridges.back().first, "-", bridges.empty() ? -1 : bridges.back().second); bridge_calls[{i, j}]++;
    };
  }
  const rrt::BiRRTSelectActiveTreeFunction<int, Tree> select = [&](const Tree& a, const Tree& b, const Active t)
  {
    MC_CHECK(&a == &start.tree && &b == &goal.tree && t == active && planning && !selected, what, ": tree selection out of turn"); settle(); selected = true;
    if (flip()) { active = active == Active::START_TREE ? Active::GOAL_TREE : Active::START_TREE; swaps++; } return active;
  };
  std::vector<Path> paths; rrt::PlanningStatistics stats; std::string error;
  const int outcome = mc::throws([&]
  {
    if (o.single)
    {
      const auto r = rrt::BiRRTPlanSinglePath<int, Tree, Container>(start.tree, goal.tree, type, sampling, tree_sampling, nn, propagate, added, connected, bridge, select, termination);
      if (!r.Path().empty()) { paths.emplace_back(r.Path().begin(), r.Path().end()); } stats = r.Statistics();
    }
    else
    {
      const auto r = rrt::BiRRTPlanMultiPath<int, Tree, Container>(start.tree, goal.tree, type, sampling, tree_sampling, nn, propagate, added, connected, bridge, select, termination);
      for (const auto& p : r.Paths()) { paths.emplace_back(p.begin(), p.end()); } stats = r.Statistics();
    }
  }, &error);
  if (refused_target || refused_nn || refused_propagation)
  {
    MC_CHECK(outcome == 1, what, ": ", refused_propagation ? "propagation with forward parent" : "index outside of the tree", " was not refused");
    const Model a = read(start.tree, what), b = read(goal.tree, what); if (!refused_propagation) { MC_CHECK(same(a, start.model) && same(b, goal.model), what, ": a tree changed"); }
    mc::state(mc::Hash().add(text(a) + text(b)).h); mc::transition(); return;
  }
  MC_CHECK(outcome == 0, what, ": threw ", error);
  settle(); compare();
  const auto path = [&](const std::pair<int64_t, int64_t>& b) { Path p = to_root(start.model, b.first), q = to_root(goal.model, b.second); p.insert(p.end(), q.rbegin(), q.rend()); return p; };
  std::multiset<Path> want, have(paths.begin(), paths.end()); for (const auto& b : bridges) { want.insert(path(b)); }
  if (o.single)
  {
    MC_CHECK(paths.size() == (bridges.empty() ? 0U : 1U), what, ": ", paths.size(), " paths for ", bridges.size(), " connections");
    if (!bridges.empty()) { MC_CHECK(paths[0] == path(bridges[0]), what, ": path ", text(paths), ", expected ", mc::vstr(path(bridges[0]))); }
  }
  else { MC_CHECK(want == have, what, ": paths ", text(paths), " in ", text(start.model), " and ", text(goal.model)); }
  const auto stat = [&](const char* name, double v) { MC_CHECK(stats.count(name) == 1 && stats[name] == v, what, ": statistic ", name, " is ", stats.count(name) ? stats[name] : -1.0, ", expected ", v); };
  stat("total_samples", samples); stat("successful_samples", good); stat("failed_samples", bad); stat("solutions", static_cast<double>(bridges.size()));
  stat("start_tree_active_iterations", start_rounds); stat("goal_tree_active_iterations", rounds - start_rounds); stat("active_tree_swaps", swaps); stat("total_states", static_cast<double>(start.tree.Size() + goal.tree.Size()));
  MC_CHECK(stats.count("planning_time") && stats["planning_time"] >= 0.0 && stats["planning_time"] < 60.0, what, ": planning time");
  mc::Hash h; h.add(text(start.model) + text(goal.model)); for (const auto& b : bridges) { h.add(b.first).add(b.second); } mc::state(h.h); mc::transition(static_cast<uint64_t>(rounds) + 1);
  if (mc::want_note()) { mc::note(what + " -> " + text(start.model) + " / " + text(goal.model) + " paths " + text(paths)); }
}
/// Large trees, long propagations and many bridges.
template<typename Container> void large()
{
  const auto sizes = mc::pick(std::vector<std::pair<int, int>>{{1, 70000}, {70000, 1}, {300, 280}, {1, 1}}); const bool huge = sizes.first + sizes.second > 1000;
  const int count = huge ? 3 : mc::pick(std::vector<int>{1, 130, 300}), shape = mc::choose(5), which = huge ? 1 : mc::choose(3); const bool single = mc::flip(), goal_first = mc::flip(); const int back = mc::choose(2);
  Tree trees[2] = {chain(sizes.first, 0), chain(sizes.second, 100000)}; const int bases[2] = {0, 100000}, size[2] = {sizes.first, sizes.second}; std::vector<std::pair<int64_t, int>> added[2]; int rounds = 0, next = 1000000; int64_t nearest = 0, target = 0; bool planning = false;
  std::vector<std::pair<int64_t, int64_t>> bridges, told; const auto relative = long_propagation(shape, count);
  const std::string what = mc::str(single ? "single" : "multi", " path planning on ", sizes.first, " and ", sizes.second, " nodes, propagations of ", count, " (shape ", shape, "), connections ", which);
  const auto side = [](Active a) { return a == Active::START_TREE ? 0 : 1; };
  const rrt::BiRRTTerminationCheckFunction termination = [&](const int64_t a, const int64_t b) { planning = true; MC_CHECK(a == trees[0].Size() && b == trees[1].Size(), what, ": told sizes ", a, " and ", b); return rounds++ >= 3; };
  const rrt::BiRRTSelectSampleTypeFunction<int, Tree> type = [&](const Tree&, const Tree&, const Active) { return goal_first && rounds == 1 ? Type::STATE_SAMPLE : Type::TREE_SAMPLE; };
  const rrt::SamplingFunction<int> sampling = [&] { target = -1; return 7; };
  const rrt::BiRRTTreeSamplingFunction<int, Tree> tree_sampling = [&](const Tree& t, const Active a) { MC_CHECK(&t == &trees[1 - side(a)], what, ": the wrong tree is sampled"); target = std::max<int64_t>(0, t.Size() - 1 - back); return target; };
  const rrt::BiRRTNearestNeighborFunction<int, Tree> nn = [&](const Tree& t, const int&, const Active a) { MC_CHECK(&t == &trees[side(a)], what, ": the wrong tree is searched"); nearest = std::max<int64_t>(0, t.Size() - 1 - back); return nearest; };
  const rrt::BiRRTPropagationFunction<int> propagate = [&](const int& from, const int& to, const Active a)
  {
    const int s = side(a); MC_CHECK(from == trees[s].GetNodeImmutable(nearest).GetValueImmutable() && to == (target < 0 ? 7 : trees[1 - s].GetNodeImmutable(target).GetValueImmutable()), what, ": propagation from ", from, " to ", to);
    rrt::ForwardPropagation<int> out; const int64_t first = trees[s].Size(); for (int64_t r : relative) { out.emplace_back(next, r); added[s].emplace_back(r < 0 ? nearest : first + r, next); next++; } return out;
  };
  const rrt::BiRRTStatesConnectedFunction<int> connected = [&](const int& a, const int& b, const Active t)
  {
    if (!planning) { return false; } const int s = side(t); const auto own = std::find_if(added[s].begin(), added[s].end(), [&](const auto& n) { return n.second == a; }); MC_CHECK(own != added[s].end(), what, ": connection check of ", a); const int64_t at = size[s] + (own - added[s].begin()); MC_CHECK(target >= 0 && at < trees[s].Size() && a == trees[s].GetNodeImmutable(at).GetValueImmutable() && b == trees[1 - s].GetNodeImmutable(target).GetValueImmutable(), what, ": connection check of ", a, " and ", b);
    const int64_t k = (a - 1000000) % count; const bool yes = which == 0 || (which == 1 && k == count - 1) || (which == 2 && k % 150 == 129); if (yes) { bridges.emplace_back(s == 0 ? at : target, s == 0 ? target : at); } return yes;
  };
  const rrt::BiRRTGoalBridgeCallbackFunction<int, Tree> bridge = [&](Tree&, const int64_t i, Tree&, const int64_t j, const Active) { told.emplace_back(i, j); };
  const rrt::BiRRTSelectActiveTreeFunction<int, Tree> select = [&](const Tree&, const Tree&, const Active) { return rounds % 2 == 1 ? Active::GOAL_TREE : Active::START_TREE; };
  std::vector<Path> paths;
  if (single) { const auto r = rrt::BiRRTPlanSinglePath<int, Tree, Container>(trees[0], trees[1], type, sampling, tree_sampling, nn, propagate, {}, connected, bridge, select, termination); if (!r.Path().empty()) { paths.emplace_back(r.Path().begin(), r.Path().end()); } }
  else { const auto r = rrt::BiRRTPlanMultiPath<int, Tree, Container>(trees[0], trees[1], type, sampling, tree_sampling, nn, propagate, {}, connected, bridge, select, termination); for (const auto& p : r.Paths()) { paths.emplace_back(p.begin(), p.end()); } }
  for (int s = 0; s < 2; s++) { check_large(trees[s], bases[s], size[s], added[s], what + (s ? ", goal tree" : ", start tree")); }
  MC_CHECK(told == bridges, what, ": the callback was told of ", told.size(), " bridges, connected are ", bridges.size());
  MC_CHECK(paths.size() == (single ? std::min<size_t>(1, bridges.size()) : bridges.size()), what, ": ", paths.size(), " paths for ", bridges.size(), " bridges");
  std::vector<Path> want;
  for (size_t i = 0; i < paths.size(); i++) { Path p = large_path(bases[0], size[0], added[0], bridges[i].first); const Path rest = large_path(bases[1], size[1], added[1], bridges[i].second); p.insert(p.end(), rest.rbegin(), rest.rend()); want.push_back(p); }
  std::sort(want.begin(), want.end()); std::sort(paths.begin(), paths.end());
  for (size_t i = 0; i < paths.size(); i++) { MC_CHECK(paths[i] == want[i], what, ": a path has ", paths[i].size(), " states, expected ", want[i].size()); }
  mc::transition(static_cast<uint64_t>(rounds)); mc::state(mc::Hash().add(what).h);
}
}
void mc::run()
{
  using V = std::vector<int>; using D = std::deque<int>;
  Options o;
  o.initial = 2; o.iterations = 1; scenario("multi: 1 round", [=] { plan<V>(o); }, 6);
  o.initial = 1; o.wide = true; scenario("multi: 1 round, wide", [=] { plan<D>(o); }, 6);
  o.iterations = 2; o.wide = false; o.late = true; scenario("multi: 2 rounds", [=] { plan<V>(o); }, 6);
  o = Options(); o.single = true; o.initial = 2; o.iterations = 1; scenario("single: 1 round", [=] { plan<V>(o); }, 6);
  o.initial = 1; o.iterations = 2; scenario("single: 2 rounds", [=] { plan<D>(o); }, 6);
  o = Options(); o.hostile = true; o.iterations = 1; o.initial = 2; o.late = true; scenario("malformed answers", [=] { plan<V>(o); }, 6);
  o.initial = 1; o.iterations = 2; o.single = true; scenario("malformed answers, single", [=] { plan<V>(o); }, 6);
  o = Options(); o.meddle = true; o.iterations = 1; scenario("callbacks that change the tree", [=] { plan<V>(o); }, 6);
  o.single = true; scenario("callbacks that change the tree, single", [=] { plan<V>(o); }, 6);
  o = Options(); o.script = true; o.initial = 2; o.iterations = by_tier(60, 300); scenario("long runs", [=] { plan<V>(o); }, 3);
  o.late = true; o.rare = 101; o.single = true; scenario("long runs, single", [=] { plan<D>(o); }, 3);
  scenario("large trees", [] { if (flip()) { large<V>(); } else { large<D>(); } }, 3);
  scenario("empty trees", []
  {
    Tree a, b; const int which = choose(3); const bool single = flip(); bool asked = false; if (which == 1) { a.AddNode(1); } if (which == 2) { b.AddNode(1); }
    const auto call = [&]
    {
      const rrt::BiRRTStatesConnectedFunction<int> c = [&](const int&, const int&, Active) { asked = true; return true; }; const rrt::BiRRTTerminationCheckFunction e = [](int64_t, int64_t) { return true; };
      if (single) { rrt::BiRRTPlanSinglePath<int>(a, b, {}, {}, {}, {}, {}, {}, c, {}, {}, e); } else { rrt::BiRRTPlanMultiPath<int>(a, b, {}, {}, {}, {}, {}, {}, c, {}, {}, e); }
    };
    MC_CHECK(throws(call) == 1 && !asked, "planning with an empty tree was not refused"); transition(); state(Hash().add(which).add(single).h);
  });
  scenario("equal states in both trees", []
  {
    // The trees meet in a state that both of them hold: each of the two keeps its own copy in the path.
    Tree a, b; std::vector<int> va, vb; const auto chain = [](Tree& t, std::vector<int>& v, int first) { const int n = 1 + choose(3); for (int i = 0; i < n; i++) { v.push_back(i == 0 && n > 1 ? first : 1 + choose(2)); if (i == 0) { t.AddNode(v[0]); } else { t.AddNodeAndConnect(v.back(), i - 1); } } };
    chain(a, va, 8); chain(b, vb, 9); const bool single = flip(), grow = flip(); const int from = grow ? choose(static_cast<int>(va.size())) : 0, to = grow ? choose(static_cast<int>(vb.size())) : 0; int rounds = 0; Active active = Active::START_TREE;
    std::vector<Path> want; const auto add = [&](int i, int j) { Path p(va.begin(), va.begin() + i + 1); p.insert(p.end(), vb.rend() - j - 1, vb.rend()); want.push_back(p); };
    const bool early = !grow; if (early) { for (size_t i = 0; i < va.size(); i++) { for (size_t j = 0; j < vb.size(); j++) { if (va[i] == vb[j] ) { add(static_cast<int>(i), static_cast<int>(j)); } } } }
    else { Path p(va.begin(), va.begin() + from + 1); p.push_back(vb[static_cast<size_t>(to)]); p.insert(p.end(), vb.rend() - to - 1, vb.rend()); want.push_back(p); }
    const rrt::BiRRTStatesConnectedFunction<int> connected = [&](const int& x, const int& y, Active) { return (early || rounds > 0) && x == y; };
    const rrt::BiRRTTerminationCheckFunction done = [&](int64_t, int64_t) { return early || rounds++ > 0; };
    const rrt::BiRRTSelectSampleTypeFunction<int, Tree> type = [&](const Tree&, const Tree&, Active) { return Type::TREE_SAMPLE; }; const rrt::SamplingFunction<int> sampling = [] { return 77; };
    const rrt::BiRRTTreeSamplingFunction<int, Tree> pick_target = [&](const Tree&, Active) -> int64_t { return to; }; const rrt::BiRRTNearestNeighborFunction<int, Tree> nn = [&](const Tree&, const int&, Active) -> int64_t { return from; };
    const rrt::BiRRTPropagationFunction<int> reach = [&](const int&, const int& target, Active) { rrt::ForwardPropagation<int> out; out.emplace_back(target, -1); return out; }; const rrt::BiRRTSelectActiveTreeFunction<int, Tree> keep = [&](const Tree&, const Tree&, Active) { return active; };
    std::vector<Path> got;
    if (single) { const auto r = rrt::BiRRTPlanSinglePath<int, Tree>(a, b, type, sampling, pick_target, nn, reach, {}, connected, {}, keep, done); if (!r.Path().empty()) { got.emplace_back(r.Path().begin(), r.Path().end()); } }
    else { const auto r = rrt::BiRRTPlanMultiPath<int, Tree>(a, b, type, sampling, pick_target, nn, reach, {}, connected, {}, keep, done); for (const auto& p : r.Paths()) { got.emplace_back(p.begin(), p.end()); } }
    const std::string what = str("trees ", vstr(va), " and ", vstr(vb), early ? " meeting at once" : str(" grown from ", from, " to ", to), single ? ", single" : "");
    if (single) { bool found = got.size() == (want.empty() ? 0u : 1u); if (found && !got.empty()) { found = std::count(want.begin(), want.end(), got[0]) > 0; } MC_CHECK(found, what, ": paths ", text(got), ", expected ", text(want)); }
    else { MC_CHECK(std::multiset<Path>(got.begin(), got.end()) == std::multiset<Path>(want.begin(), want.end()), what, ": paths ", text(got), ", expected ", text(want)); }
    transition(); state(Hash().add(what).h);
  }, 3);
  o = Options(); o.initial = 1; o.iterations = 2; scenario("multi: 2 rounds with early connections", [=] { plan<V>(o); }, 6);
  o = Options(); o.initial = 1; o.iterations = 3; o.late = true; o.single = true; scenario("single: 3 rounds", [=] { plan<V>(o); }, 6);
  if (thorough())
  {
    o = Options(); o.initial = 2; o.late = true; scenario("multi: 2 rounds from 2", [=] { plan<V>(o); }, 6);
    o.initial = 1; o.wide = true; scenario("multi: 2 rounds, wide", [=] { plan<V>(o); }, 6);
    o = Options(); o.initial = 1; o.iterations = 3; o.late = true; scenario("multi: 3 rounds", [=] { plan<V>(o); }, 6);
  }
}
