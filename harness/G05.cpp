// G05: single-direction tree planning.
#include "rrt.hpp"
MC_HARNESS("G05", "every small initial forest x every sequence of answers of the termination, sampling, nearest-neighbour, propagation and goal functions (chosen lazily at each call, malformed ones included) x callbacks given or left out, "
                  "against a reference tree and an event log; all small node lists for the linkage check; a state is a distinct resulting tree with its goals")
namespace
{
struct Sample { int id; };
struct Boom {};
struct Options { int iterations = 2; bool wide = true, single = false, hostile = false, meddle = false, late_goals = false, script = false; int initial = 2, rare = 9; };

template<typename Container> void plan(const Options& o)
{
  const auto initial = mc::pick(forests(o.initial));
  const bool with_added = mc::flip(), with_goal = mc::flip();
  // Either every answer is chosen, or a long run follows one of the answer sequences.
  const long mul = o.script ? mc::pick(std::vector<long>{1, 2, 3, 5, 7, 11, 13}) : 0, add = o.script ? mc::pick(std::vector<long>{0, 1, 4}) : 0; long asked = 0;
  const auto choose = [&](int n) { if (!o.script) { return mc::choose(n); } asked++; return static_cast<int>((mul * asked + add * (asked / 3)) % n); };
  Tree tree = plant(initial, 100);
  std::string what = mc::str(o.single ? "single" : "multi", "-path planning from forest ", mc::vstr(initial), with_added ? "" : ", no state-added callback", with_goal ? "" : ", no goal callback");
  Model model = read(tree, what);
  // What happened.
  const int64_t first_new = tree.Size();
  std::map<int64_t, int> added_calls, goal_calls; std::map<int64_t, bool> goal; std::map<int64_t, int> goal_checks;
  std::vector<int64_t> goals;               // in the order found
  std::set<int64_t> by_planner;             // nodes the planner added
  int samples = 0, good = 0, bad = 0, terminations = 0, next_value = 200;
  bool refused_nn = false, refused_propagation = false, settled = false;
  std::vector<int> pending_values; std::vector<int64_t> pending_parents; size_t pending = 0; int64_t nearest = -1, at_sample = -1;
  std::vector<int64_t> index_of;            // propagated -> tree index
  // Brings the model up to date with nodes the planner has added since, and judges them.
  const auto sync = [&]
  {
    while (tree.Size() > static_cast<int64_t>(model.values.size()))
    {
      const int64_t at = static_cast<int64_t>(model.values.size());
      MC_CHECK(pending < pending_values.size(), what, ": a node ", tree.GetNodeImmutable(at).GetValueImmutable(), " was added that was not propagated");
      const int64_t relative = pending_parents[pending];
      const int64_t parent = relative < 0 ? nearest : index_of.at(static_cast<size_t>(relative));
      MC_CHECK(tree.GetNodeImmutable(at).GetValueImmutable() == pending_values[pending], what, ": propagated ", pending_values[pending], ", added ", tree.GetNodeImmutable(at).GetValueImmutable());
      MC_CHECK(tree.GetNodeImmutable(at).GetParentIndex() == parent, what, ": node ", pending_values[pending], " with relative parent ", relative, " from ", nearest, " was put under ", tree.GetNodeImmutable(at).GetParentIndex(), ", expected ", parent);
      model.values.push_back(pending_values[pending]); model.parents.push_back(parent); index_of.push_back(at); by_planner.insert(at); pending++;
    }
  };
  // All propagated states were added and their events raised.
  const auto settle = [&]
  {
    if (settled) { return; }
    sync();
    MC_CHECK(pending == pending_values.size(), what, ": only ", pending, " of ", pending_values.size(), " propagated states were added");
    for (int64_t i : by_planner) { if (with_added) { MC_CHECK(added_calls[i] == 1, what, ": state-added callback called ", added_calls[i], " times for node ", i); } MC_CHECK(goal_checks[i] == 1, what, ": goal check called ", goal_checks[i], " times for node ", i); }
    for (int64_t i : goals) { if (with_goal) { MC_CHECK(goal_calls[i] == 1, what, ": goal callback called ", goal_calls[i], " times for node ", i); } }
    MC_CHECK(same(read(tree, what), model), what, ": the tree is ", text(read(tree, what)), ", expected ", text(model));
    settled = true;
  };
  const rrt::RRTTerminationCheckFunction termination = [&](const int64_t size)
  {
    settle(); terminations++;
    MC_CHECK(size == tree.Size(), what, ": termination check was told size ", size, " of ", tree.Size());
    MC_CHECK(static_cast<int64_t>(goal_checks.size()) >= first_new, what, ": planning began before the initial states were checked");
    for (int64_t i = 0; i < first_new; i++) { MC_CHECK(goal_checks[i] == 1, what, ": goal check called ", goal_checks[i], " times for initial node ", i); }
    const bool stop = samples >= o.iterations || (!o.script && mc::flip()); if (mc::want_note()) { what += stop ? " stop" : " go"; }
    if (!stop) { MC_CHECK(!(o.single && !goals.empty()), what, ": asked again after a solution"); settled = false; }
    return stop;
  };
  const rrt::SamplingFunction<Sample> sampling = [&]
  {
    MC_CHECK(!settled, what, ": sampled without asking whether to terminate");
    MC_CHECK(!(o.single && !goals.empty()), what, ": sampling goes on after a solution"); samples++; return Sample{1000 + samples};
  };
  const rrt::RRTNearestNeighborFunction<int, Tree, Sample> nn = [&](const Tree& t, const Sample& s) -> int64_t
  {
    MC_CHECK(&t == &tree && s.id == 1000 + samples, what, ": nearest neighbour asked about sample ", s.id); sync();
    const int n = static_cast<int>(t.Size()); const int pick = choose(o.hostile ? n + 2 : n);
    nearest = pick < n ? pick : pick == n ? -1 : n; refused_nn = pick >= n; at_sample = s.id; if (mc::want_note()) { what += mc::str(" near ", nearest); } return nearest;
  };
  const rrt::RRTForwardPropagationFunction<int, Sample> propagate = [&](const int& from, const Sample& s)
  {
    MC_CHECK(s.id == at_sample && nearest >= 0 && nearest < tree.Size() && &from == &tree.GetNodeImmutable(nearest).GetValueImmutable(), what, ": propagation from ", from, " to sample ", s.id, " although ", nearest, " is nearest to ", at_sample);
    const auto good_shapes = propagations(o.wide); const auto bad_shapes = o.hostile ? bad_propagations() : std::vector<std::vector<int64_t>>();
    const size_t pick = static_cast<size_t>(choose(static_cast<int>(good_shapes.size() + bad_shapes.size())));
    refused_propagation = pick >= good_shapes.size(); pending_parents = refused_propagation ? bad_shapes[pick - good_shapes.size()] : good_shapes[pick];
    pending_values.clear(); pending = 0; index_of.clear(); rrt::ForwardPropagation<int> out;
    for (int64_t p : pending_parents) { pending_values.push_back(next_value); out.emplace_back(next_value++, p); }
    (out.empty() ? bad : good)++; if (mc::want_note()) { what += " grow " + mc::vstr(pending_parents); } return out;
  };
  rrt::RRTStateAddedCallbackFunction<int, Tree> added;
  if (with_added)
  {
    added = [&](Tree& t, const int64_t i)
    {
      MC_CHECK(&t == &tree && i >= 0 && i < t.Size(), what, ": state-added callback for index ", i); sync();
      MC_CHECK(i == static_cast<int64_t>(model.values.size()) - 1 && by_planner.count(i), what, ": state-added callback for node ", i, " of ", t.Size()); added_calls[i]++;
      if (o.meddle)
      {
        const int how = mc::choose(4);   // the callback may change the tree it is given
        if (how == 1) { t.GetNodeMutable(i).GetValueMutable() += 5000; model.values[static_cast<size_t>(i)] += 5000; }
        if (how == 2) { t.AddNodeAndConnect(900, i); model.values.push_back(900); model.parents.push_back(i); }
        if (how == 3) { t.AddNode(901); model.values.push_back(901); model.parents.push_back(-1); }
      }
    };
  }
  const rrt::RRTCheckGoalReachedFunction<int> check = [&](const int& v)
  {
    sync(); int64_t at = -1;
    for (int64_t i = 0; i < tree.Size(); i++) { if (&tree.GetNodeImmutable(i).GetValueImmutable() == &v || tree.GetNodeImmutable(i).GetValueImmutable() == v) { at = i; } }
    MC_CHECK(at >= 0 && (at < first_new || by_planner.count(at)), what, ": goal check about ", v, ", which is not a planned state"); goal_checks[at]++;
    MC_CHECK(goal_checks[at] == 1, what, ": goal check repeated for node ", at);
    const bool yes = o.late_goals && at < first_new ? false : o.script ? choose(o.rare) == 0 : mc::flip(); goal[at] = yes; if (yes) { goals.push_back(at); } if (mc::want_note()) { what += mc::str(" goal(", at, ")=", yes); } return yes;
  };
  rrt::RRTGoalReachedCallbackFunction<int, Tree> reached;
  if (with_goal)
  {
    reached = [&](Tree& t, const int64_t i)
    {
      MC_CHECK(&t == &tree, what, ": goal callback with another tree"); sync();
      MC_CHECK(!goals.empty() && goals.back() == i, what, ": goal callback for node ", i, ", last goal ", goals.empty() ? -1 : goals.back()); goal_calls[i]++;
      if (o.meddle && i >= first_new && mc::choose(2) == 1) { t.AddNodeAndConnect(902, i); model.values.push_back(902); model.parents.push_back(i); }
    };
  }
  std::vector<Path> paths; rrt::PlanningStatistics stats; std::string error;
  const int outcome = mc::throws([&]
  {
    if (o.single)
    {
      const auto r = rrt::RRTPlanSinglePath<int, Tree, Sample, Container>(tree, sampling, nn, propagate, added, check, reached, termination);
      if (!r.Path().empty()) { paths.emplace_back(r.Path().begin(), r.Path().end()); } stats = r.Statistics();
    }
    else
    {
      const auto r = rrt::RRTPlanMultiPath<int, Tree, Sample, Container>(tree, sampling, nn, propagate, added, check, reached, termination);
      for (const auto& p : r.Paths()) { paths.emplace_back(p.begin(), p.end()); } stats = r.Statistics();
    }
  }, &error);
  if (refused_nn || refused_propagation)
  {
    MC_CHECK(outcome == 1, what, ": ", refused_nn ? "nearest neighbour outside of the tree" : "propagation with forward parent", " was not refused"); const Model left = read(tree, what);
    if (refused_nn) { MC_CHECK(same(left, model), what, ": the tree changed to ", text(left)); }
    mc::state(mc::Hash().add(text(left)).h); mc::transition(); return;
  }
  MC_CHECK(outcome == 0, what, ": threw ", error);
  settle();
  MC_CHECK(same(read(tree, what), model), what, ": afterwards the tree is ", text(read(tree, what)), ", expected ", text(model));
  std::multiset<Path> want, have(paths.begin(), paths.end()); for (int64_t g : goals) { want.insert(to_root(model, g)); }
  if (o.single)
  {
    MC_CHECK(paths.size() == (goals.empty() ? 0U : 1U), what, ": ", paths.size(), " paths although ", goals.size(), " goals were reached");
    if (!goals.empty()) { MC_CHECK(paths[0] == to_root(model, goals[0]), what, ": path ", text(paths), ", expected ", mc::vstr(to_root(model, goals[0]))); }
  }
  else { MC_CHECK(want == have, what, ": paths ", text(paths), " for goals ", mc::vstr(goals), " in ", text(model)); }
  const auto stat = [&](const char* name, double v) { MC_CHECK(stats.count(name) == 1 && stats[name] == v, what, ": statistic ", name, " is ", stats.count(name) ? stats[name] : -1.0, ", expected ", v); };
  stat("total_samples", samples); stat("successful_samples", good); stat("failed_samples", bad); stat("total_states", static_cast<double>(tree.Size())); stat("solutions", static_cast<double>(goals.size()));
  MC_CHECK(stats.count("planning_time") && stats["planning_time"] >= 0.0 && stats["planning_time"] < 60.0, what, ": planning time");
  mc::transition(static_cast<uint64_t>(samples) + 1); mc::state(mc::Hash().add(text(model)).addv(goals).h);
  if (mc::want_note()) { mc::note(what + " -> " + text(model) + " paths " + text(paths)); }
}
/// Linkage check on every small node list.
void linkage(int n, std::vector<std::vector<int64_t>> child_lists)
{
  rrt::SimpleRRTPlannerStateVector<int> nodes; std::vector<int64_t> parents; std::vector<std::vector<int64_t>> children;
  for (int i = 0; i < n; i++) { parents.push_back(mc::choose(n + 3) - 2); children.push_back(mc::pick(child_lists)); nodes.emplace_back(10 + i, parents.back(), children.back()); }
  bool ok = true;
  for (int64_t i = 0; i < n; i++)
  {
    const auto& kids = children[static_cast<size_t>(i)]; const int64_t p = parents[static_cast<size_t>(i)];
    if (p >= i) { ok = false; }
    if (p >= 0 && p < n) { const auto& siblings = children[static_cast<size_t>(p)]; ok = ok && std::find(siblings.begin(), siblings.end(), i) != siblings.end(); }
    for (int64_t c : kids) { ok = ok && c > i && c < n && parents[static_cast<size_t>(c)] == i; }
  }
  std::string what = mc::str("nodes with parents ", mc::vstr(parents), ", children"); for (const auto& c : children) { what += " " + mc::vstr(c); }
  MC_CHECK(Tree::CheckNodeLinkage(nodes) == ok, what, ": linkage judged ", !ok, ", expected ", ok);
  Tree t; t.AddNode(3); MC_CHECK(t.SetNodes(nodes) == ok, what, ": SetNodes"); MC_CHECK(t.Size() == (ok ? n : 1), what, ": SetNodes left ", t.Size(), " nodes");
  MC_CHECK(mc::throws([&] { const Tree u(nodes); MC_CHECK(u.Size() == n, what, ": constructed with ", u.Size(), " nodes"); }) == (ok ? 0 : 1), what, ": construction");
  mc::transition(3); mc::state(mc::Hash().add(what).h); if (mc::want_note()) { mc::note(what); }
}
/// Tree operations against the model.
void operations(int length)
{
  Tree t; Model m; std::string what = "tree:";
  for (int s = 0; s < length; s++)
  {
    const int n = static_cast<int>(m.values.size()), op = mc::choose(n + 3 + (n > 0 ? 3 : 0)), last = n - 1;
    // the tree's own values and nodes, handed back to it by reference
    if (op == n + 3) { const int v = m.values[0]; MC_CHECK(t.AddNodeAndConnect(t.GetNodeImmutable(0).GetValueImmutable(), last) == n, what, ": index"); m.values.push_back(v); m.parents.push_back(last); what += mc::str(" own0 under", last); }
    else if (op == n + 4) { const int v = m.values.back(); MC_CHECK(t.AddNode(t.GetNodeImmutable(last).GetValueImmutable()) == n, what, ": index"); m.values.push_back(v); m.parents.push_back(-1); what += mc::str(" own", last, " root"); }
    else if (op == n + 5) { MC_CHECK(t.SetNodes(t.GetNodesImmutable()), what, ": own nodes refused"); what += " own nodes"; }
    else if (op < n) { MC_CHECK(t.AddNodeAndConnect(10 + s, op) == n, what, ": index"); m.values.push_back(10 + s); m.parents.push_back(op); what += mc::str(" under", op); }
    else if (op == n) { MC_CHECK(t.AddNode(10 + s) == n, what, ": index"); m.values.push_back(10 + s); m.parents.push_back(-1); what += " root"; }
    else if (op == n + 1) { t.Clear(); m = Model(); what += " clear"; }
    else { Tree u = t; Tree v; MC_CHECK(v.SetNodes(u.GetNodesImmutable()), what, ": own nodes refused"); t = v; what += " copy"; }
    for (const int64_t parent : {t.Size(), t.Size() + 1, static_cast<int64_t>(-1), std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()})
    {
      MC_CHECK(mc::throws([&] { t.AddNodeAndConnect(99, parent); }) == 1, what, ": a node was added below ", parent, ", which is not in the tree of ", m.values.size());
    }
    MC_CHECK(same(read(t, what), m) && t.Size() == static_cast<int64_t>(m.values.size()) && t.Empty() == m.values.empty(), what, ": tree is ", text(read(t, what)), ", expected ", text(m));
    for (int64_t i = 0; i < t.Size(); i++) { MC_CHECK((rrt::ExtractSolutionPath<int, Tree>(t, i) == to_root(m, i)), what, ": path to ", i); }
    std::vector<int64_t> all; std::vector<Path> want; for (int64_t i = t.Size() - 1; i >= 0; i--) { all.push_back(i); want.push_back(to_root(m, i)); }
    MC_CHECK((rrt::ExtractSolutionPaths<int, Tree>(t, all) == want), what, ": paths"); mc::transition(); mc::state(mc::Hash().add(text(m)).h);
  }
  MC_CHECK(mc::throws([&] { rrt::ExtractSolutionPath<int, Tree>(t, t.Size()); }) == 1 && mc::throws([&] { t.GetNodeImmutable(-1); }) == 1, what, ": index outside of the tree accepted");
  if (mc::want_note()) { mc::note(what); }
}
/// Large trees, long propagations and many goals.
template<typename Container> void large()
{
  const int size = mc::pick(std::vector<int>{1, 300, 70000}), count = size > 1000 ? 3 : mc::pick(std::vector<int>{1, 130, 300}), shape = mc::choose(5), which = size > 1000 ? 1 : mc::choose(3); const bool single = mc::flip(), callbacks = mc::flip(); const int back = size > 4 ? 3 * mc::choose(2) : 0;
  Tree tree = chain(size, 0); int rounds = 0, added_calls = 0, goal_calls = 0; std::vector<std::pair<int64_t, int>> added; std::vector<int64_t> goals; const auto relative = long_propagation(shape, count); int64_t nearest = 0;
  const std::string what = mc::str(single ? "single" : "multi", " path planning on ", size, " nodes, propagations of ", count, " (shape ", shape, "), goals ", which, callbacks ? ", callbacks" : "");
  const rrt::RRTTerminationCheckFunction termination = [&](const int64_t now) { MC_CHECK(now == tree.Size(), what, ": told size ", now); return rounds++ >= 2; };
  const rrt::SamplingFunction<Sample> sampling = [&] { return Sample{rounds}; };
  const rrt::RRTNearestNeighborFunction<int, Tree, Sample> nn = [&](const Tree& t, const Sample&) { nearest = t.Size() - 1 - back; return nearest; };
  const rrt::RRTForwardPropagationFunction<int, Sample> propagate = [&](const int& from, const Sample&)
  {
    MC_CHECK(from == tree.GetNodeImmutable(nearest).GetValueImmutable(), what, ": propagation from ", from); rrt::ForwardPropagation<int> out; const int64_t first = size + static_cast<int64_t>(added.size());
    for (int64_t r : relative) { const int value = 1000000 + static_cast<int>(added.size()); out.emplace_back(value, r); added.emplace_back(r < 0 ? nearest : first + r, value); } return out;
  };
  const rrt::RRTCheckGoalReachedFunction<int> check = [&](const int& v) { const int at = v - 1000000; return at >= 0 && (which == 0 || (which == 1 && at == count - 1) || (which == 2 && at % 150 == 129)); };
  rrt::RRTStateAddedCallbackFunction<int, Tree> on_added; rrt::RRTGoalReachedCallbackFunction<int, Tree> on_goal;
  if (callbacks) { on_added = [&](Tree& t, const int64_t i) { MC_CHECK(i == size + added_calls && t.Size() > i, what, ": state-added callback for ", i); added_calls++; }; on_goal = [&](Tree& t, const int64_t i) { MC_CHECK(i >= size && i < t.Size() && check(t.GetNodeImmutable(i).GetValueImmutable()), what, ": goal callback for ", i); goal_calls++; }; }
  std::vector<Path> paths;
  if (single) { const auto r = rrt::RRTPlanSinglePath<int, Tree, Sample, Container>(tree, sampling, nn, propagate, on_added, check, on_goal, termination); if (!r.Path().empty()) { paths.emplace_back(r.Path().begin(), r.Path().end()); } }
  else { const auto r = rrt::RRTPlanMultiPath<int, Tree, Sample, Container>(tree, sampling, nn, propagate, on_added, check, on_goal, termination); for (const auto& p : r.Paths()) { paths.emplace_back(p.begin(), p.end()); } }
  check_large(tree, 0, size, added, what);
  for (const auto& a : added) { if (check(a.second)) { goals.push_back(size + (a.second - 1000000)); } }
  MC_CHECK(paths.size() == (single ? std::min<size_t>(1, goals.size()) : goals.size()), what, ": ", paths.size(), " paths for ", goals.size(), " goals");
  std::vector<Path> want; for (size_t i = 0; i < paths.size(); i++) { want.push_back(large_path(0, size, added, goals[i])); }
  std::sort(want.begin(), want.end()); std::sort(paths.begin(), paths.end());
  for (size_t i = 0; i < paths.size(); i++) { MC_CHECK(paths[i] == want[i], what, ": a path has ", paths[i].size(), " states ending with ", paths[i].back(), ", expected ", want[i].size(), " ending with ", want[i].back()); }
  MC_CHECK(!callbacks || (added_calls == static_cast<int>(added.size()) && goal_calls == static_cast<int>(goals.size())), what, ": ", added_calls, " and ", goal_calls, " callbacks");
  MC_CHECK(single && !goals.empty() ? added.size() <= static_cast<size_t>(2 * count) : added.size() == static_cast<size_t>(2 * count), what, ": ", added.size(), " states added");
  mc::transition(static_cast<uint64_t>(rounds)); mc::state(mc::Hash().add(what).h);
}
}
void mc::run()
{
  using V = std::vector<int>; using D = std::deque<int>;
  Options o;
  o.initial = 3; o.iterations = 1; scenario("multi: 1 sample", [=] { plan<V>(o); }, 6);
  o.initial = 2; o.iterations = 2; o.wide = false; scenario("multi: 2 samples", [=] { plan<V>(o); }, 6);
  o.initial = 1; o.iterations = 2; o.wide = true; scenario("multi: 2 samples, wide", [=] { plan<D>(o); }, 6);
  o.iterations = by_tier(3, 3); o.wide = false; o.late_goals = true; scenario("multi: 3 samples", [=] { plan<V>(o); }, 6);
  o = Options(); o.single = true; o.initial = 3; o.iterations = 1; scenario("single: 1 sample", [=] { plan<V>(o); }, 6);
  o.initial = 1; o.iterations = 2; scenario("single: 2 samples, wide", [=] { plan<D>(o); }, 6);
  o.iterations = 3; o.wide = false; scenario("single: 3 samples", [=] { plan<V>(o); }, 6);
  o = Options(); o.hostile = true; o.initial = 2; o.iterations = 1; scenario("malformed answers", [=] { plan<V>(o); }, 6);
  o.single = true; o.initial = 1; o.iterations = 2; o.wide = false; scenario("malformed answers, single", [=] { plan<V>(o); }, 6);
  o = Options(); o.meddle = true; o.initial = 1; o.iterations = 1; scenario("callbacks that change the tree", [=] { plan<V>(o); }, 6);
  o.single = true; scenario("callbacks that change the tree, single", [=] { plan<V>(o); }, 6);
  o = Options(); o.script = true; o.initial = 3; o.iterations = by_tier(60, 300); scenario("long runs", [=] { plan<V>(o); }, 3);
  o.late_goals = true; o.rare = 101; o.single = true; scenario("long runs, single", [=] { plan<D>(o); }, 3);
  scenario("large trees", [] { if (flip()) { large<V>(); } else { large<D>(); } }, 3);
  scenario("empty tree", []
  {
    Tree t; const bool single = flip(); bool asked = false;
    const auto call = [&]
    {
      const rrt::SamplingFunction<int> s = [&] { asked = true; return 0; }; const rrt::RRTCheckGoalReachedFunction<int> g = [&](const int&) { asked = true; return true; }; const rrt::RRTTerminationCheckFunction e = [&](int64_t) { return true; };
      if (single) { rrt::RRTPlanSinglePath<int>(t, s, {}, {}, {}, g, {}, e); } else { rrt::RRTPlanMultiPath<int>(t, s, {}, {}, {}, g, {}, e); }
    };
    MC_CHECK(throws(call) == 1 && !asked && t.Empty(), "planning from an empty tree was not refused"); transition(); state(single);
  });
  scenario("linkage of 1 node", [] { linkage(1, {{}, {0}, {1}, {-1}, {0, 1}}); });
  scenario("linkage of 2 nodes", [] { linkage(2, {{}, {0}, {1}, {2}, {-1}, {0, 1}, {1, 1}, {1, 2}}); });
  scenario("linkage of 3 nodes", [] { linkage(3, {{}, {1}, {2}, {1, 2}, {2, 1}, {0}, {3}}); });
  if (thorough()) { scenario("linkage of 4 nodes", [] { linkage(4, {{}, {1}, {2}, {3}, {1, 2}, {1, 3}, {2, 3}, {1, 2, 3}}); }); }
  scenario("tree operations", [] { operations(by_tier(5, 6)); });
  if (thorough())
  {
    o = Options(); o.initial = 2; o.iterations = 2; scenario("multi: 2 samples from 2, wide", [=] { plan<V>(o); }, 6);
    o.initial = 1; o.iterations = 3; o.wide = false; scenario("multi: 3 samples with early goals", [=] { plan<V>(o); }, 6);
    o.meddle = true; o.iterations = 2; scenario("callbacks that change the tree, 2 samples", [=] { plan<V>(o); }, 6);
  }
}
