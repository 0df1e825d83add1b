// G03: roadmap construction adds exactly the valid nearby connections.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <tuple>
#include <common_robotics_utilities/simple_graph.hpp>
#include <common_robotics_utilities/simple_prm_planner.hpp>
MC_HARNESS("G03", "every small roadmap x state x neighbour count x options with the answers of distance, validity, sampling and termination functions chosen lazily at each call (all answers explored), "
                  "against a reference roadmap model; a state is a distinct resulting roadmap")
using namespace common_robotics_utilities;
using parallelism::DegreeOfParallelism;
namespace sg = simple_graph;
namespace prm = simple_prm_planner;
namespace
{
const double INF = std::numeric_limits<double>::infinity();
using G = sg::Graph<int>;
using Overlay = sg::NonOwningGraphOverlay<int, G>;
using Knn = prm::LinearGraphKNNProvider<int, G>;
/// (from, to, weight) edges of a roadmap, once from the in records and once from the out records.
using Edge = std::tuple<int64_t, int64_t, double>;
struct Map
{
  std::vector<int> values; std::multiset<Edge> edges;
  bool operator==(const Map& o) const { return values == o.values && edges == o.edges; }
};
std::string text(const Map& m) { std::string s = mc::vstr(m.values); for (const auto& [a, b, w] : m.edges) { s += mc::str(" ", a, "->", b, ":", w); } return s; }
template<typename Gr> Map read(const Gr& g, const std::string& what)
{
  Map m; std::multiset<Edge> in;
  for (int64_t i = 0; i < g.Size(); i++)
  {
    const auto& n = g.GetNodeImmutable(i); m.values.push_back(n.GetValueImmutable());
    for (const auto& e : n.GetOutEdgesImmutable()) { MC_CHECK(e.GetFromIndex() == i, what, ": node ", i, " holds an out edge of node ", e.GetFromIndex()); m.edges.emplace(i, e.GetToIndex(), e.GetWeight()); }
    for (const auto& e : n.GetInEdgesImmutable()) { MC_CHECK(e.GetToIndex() == i, what, ": node ", i, " holds an in edge of node ", e.GetToIndex()); in.emplace(e.GetFromIndex(), i, e.GetWeight()); }
  }
  if (in != m.edges) { Map other{m.values, in}; mc::fail(mc::str(what, ": not consistently linked: out records ", text(m), ", in records ", text(other))); }
  MC_CHECK(g.CheckGraphLinkage(), what, ": CheckGraphLinkage refuses ", text(m));
  return m;
}
/// User functions whose answers are chosen when first asked.
struct World
{
  std::vector<double> lengths; bool symmetric = false; int validity = 0;  // 0 chosen, 1 all valid, 2 none
  std::map<std::pair<int, int>, double> d; std::map<std::pair<int, int>, bool> v; bool spare = false;
  std::set<int> threads;
  std::pair<int, int> key(int a, int b) const { return symmetric && a > b ? std::make_pair(b, a) : std::make_pair(a, b); }
  double distance(int a, int b) { const auto k = key(a, b); auto it = d.find(k); if (it == d.end()) { it = d.emplace(k, a == b ? 0.0 : mc::pick(lengths)).first; } return it->second; }
  bool valid(int a, int b) { const auto k = key(a, b); auto it = v.find(k); if (it == v.end()) { it = v.emplace(k, validity == 0 ? mc::flip() : validity == 1).first; } return it->second; }
  std::function<double(const int&, const int&)> distance_fn() { return [this](const int& a, const int& b) { return distance(a, b); }; }
  std::function<bool(const int32_t, const int&, const int&)> valid_fn() { return [this](const int32_t t, const int& a, const int& b) { threads.insert(t); return valid(a, b); }; }
  std::string text() const
  { std::string s; for (const auto& e : d) { s += mc::str(" d(", e.first.first, ",", e.first.second, ")=", e.second); } for (const auto& e : v) { s += mc::str(" ", e.second ? "" : "!", "ok(", e.first.first, ",", e.first.second, ")"); } return s; }
};
/// Is `after` what adding `state` to `before` may give?  Returns the empty string or the complaint.
std::string judge_insertion(const Map& before, const Map& after, int64_t returned, int state, bool to_roadmap, int64_t k, int64_t most, bool duplicates, World& w)
{
  std::vector<std::pair<double, int64_t>> near;
  const auto toward = [&](int64_t i) { return w.distance(before.values[static_cast<size_t>(i)], state); };   // roadmap -> state
  const auto away = [&](int64_t i) { return w.distance(state, before.values[static_cast<size_t>(i)]); };
  for (int64_t i = 0; i < most; i++) { near.emplace_back(to_roadmap ? away(i) : toward(i), i); }
  std::sort(near.begin(), near.end());
  const size_t count = std::min(static_cast<size_t>(k), near.size());
  const int64_t added = static_cast<int64_t>(before.values.size());
  if (!duplicates && count > 0 && near[0].first == 0.0)
  {
    if (!(after == before)) { return "a duplicate was added: " + text(after); }
    for (const auto& n : near) { if (n.first == 0.0 && n.second == returned) { return ""; } }
    return mc::str("returned ", returned, " for a duplicate");
  }
  if (returned != added) { return mc::str("returned ", returned, ", expected ", added); }
  if (after.values.size() != before.values.size() + 1 || after.values.back() != state) { return "the state was not added: " + text(after); }
  std::multiset<Edge> fresh = after.edges;
  for (const auto& e : before.edges) { const auto it = fresh.find(e); if (it == fresh.end()) { return "an existing edge is gone: " + text(after); } fresh.erase(it); }
  const double cut = count > 0 ? near[count - 1].first : -1.0;
  size_t used = 0, silent = 0;
  for (const auto& [distance, i] : near)
  {
    std::multiset<Edge> have, want;
    for (auto it = fresh.begin(); it != fresh.end();) { if ((std::get<0>(*it) == i && std::get<1>(*it) == added) || (std::get<0>(*it) == added && std::get<1>(*it) == i)) { have.insert(*it); it = fresh.erase(it); } else { ++it; } }
    const bool may = count > 0 && distance <= cut, must = count > 0 && distance < cut;
    if (!may) { if (!have.empty()) { return mc::str("connected to ", i, ", which is not among the nearest: ", text(after)); } continue; }
    if (w.valid(before.values[static_cast<size_t>(i)], state)) { want.emplace(i, added, toward(i)); }
    if (w.valid(state, before.values[static_cast<size_t>(i)])) { want.emplace(added, i, away(i)); }
    if (have == want) { if (want.empty()) { silent++; } else { used++; } }
    else if (have.empty() && !must) { }
    else { return mc::str("wrong connections with ", i, ": ", text(after)); }
  }
  if (!fresh.empty()) { return "stray edges: " + text(after); }
  if (used > count || used + silent < count) { return mc::str("connected to ", used, " of ", count, " nearest: ", text(after)); }
  return "";
}
G make(const std::vector<int>& values, int edges)
{
  G g; for (int v : values) { g.AddNode(v); }
  const int n = static_cast<int>(values.size());
  if (edges) { for (int i = 0; i + 1 < n; i++) { g.AddEdgeBetweenNodes(i, i + 1, 7.0 + i); } }
  return g;
}
struct BadKnn final : prm::GraphKNNProvider<int, G>
{
  int64_t index;
  explicit BadKnn(int64_t i) : index(i) {}
  std::vector<simple_knearest_neighbors::IndexAndDistance> DoGetKNearestNeighbors(const G&, const int&, const int64_t, const prm::NNDistanceDirection, const int64_t) const override { return {simple_knearest_neighbors::IndexAndDistance(index, 1.0)}; }
  std::vector<simple_knearest_neighbors::IndexAndDistance> DoGetKNearestNeighbors(const Overlay&, const int&, const int64_t, const prm::NNDistanceDirection, const int64_t) const override { return {simple_knearest_neighbors::IndexAndDistance(index, 1.0)}; }
};
void insertion(int n, bool twins, std::vector<double> lengths, bool fixed_options)
{
  const bool symmetric = mc::flip(), to = mc::flip(), duplicates = fixed_options || mc::flip(), overlay = fixed_options ? to : mc::flip();
  const int64_t k = mc::choose(n + 2), most = fixed_options ? n : mc::choose(n + 1);
  std::vector<int> values; for (int i = 0; i < n; i++) { values.push_back(twins && i == n - 1 ? 1 : 1 + i); }
  World w; w.symmetric = symmetric; w.lengths = std::move(lengths);
  G g = make(values, fixed_options || mc::flip()); const Map before = read(g, "before");
  const int state = 50;
  const std::string what = mc::str("adding a state ", to ? "(new to roadmap) " : "(roadmap to new) ", "to ", text(before), ", k ", k, ", among ", most, symmetric ? ", symmetric" : "", duplicates ? ", duplicates allowed" : "", overlay ? ", overlay" : "");
  const auto direction = to ? prm::NNDistanceDirection::NEW_STATE_TO_ROADMAP : prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE;
  const Knn knn(w.distance_fn(), DegreeOfParallelism::None());
  int64_t at = -1; Map after;
  if (overlay)
  {
    Overlay o(g); at = prm::AddNodeToRoadmap<int, Overlay>(state, direction, o, knn, w.distance_fn(), w.valid_fn(), k, most, DegreeOfParallelism::None(), symmetric, duplicates);
    after = read(o, what + w.text()); MC_CHECK(read(g, what) == before, what, ": the base roadmap changed");
  }
  else
  {
    at = prm::AddNodeToRoadmap<int, G>(state, direction, g, knn, w.distance_fn(), w.valid_fn(), k, most, DegreeOfParallelism::None(), symmetric, duplicates);
    after = read(g, what + w.text());
  }
  const std::string asked = w.text(), complaint = judge_insertion(before, after, at, state, to, k, most, duplicates, w);
  MC_CHECK(complaint.empty(), what, ":", asked, ": ", complaint);
  for (int t : w.threads) { MC_CHECK(t == 0, what, ": serial check with thread number ", t); }
  mc::transition(); mc::state(mc::Hash().add(text(after)).h);
  if (mc::want_note()) { mc::note(what + ":" + asked + " -> " + text(after)); }
}
/// Distances for whole-roadmap runs: no ties, different in each direction unless symmetric.
double table(int which, bool symmetric, int a, int b)
{
  if (a == b) { return 0.0; }
  if (symmetric && a > b) { std::swap(a, b); }
  switch (which)
  {
    case 0: return std::abs(a - b) + (a < b ? 0.25 : 0.5) + 0.001 * a + 0.0001 * b;
    case 1: return 1.0 + ((a * 7 + b * 3) % 11) + 0.01 * a + 0.001 * b;
    default: return 1.0 + ((a * 3 + b * 5) % 7) + 0.01 * b + 0.001 * a;
  }
}
}
void mc::run()
{
  const std::vector<double> three{1.0, 0.0, 2.5};
  scenario("adding to 0-1 nodes", [=] { insertion(choose(2), false, {1.0, 0.0, 2.5, INF, 1e-12}, false); }, 4);
  scenario("nearly equal states", [=] { insertion(2, false, {1e-300, 0.0, 1.0, 1.0 + 1e-15}, true); }, 6);
  scenario("adding to 2 nodes", [=] { insertion(2, false, three, false); }, 6);
  scenario("adding to nodes of equal value", [=] { insertion(thorough() ? 3 : 2 + choose(2), true, {1.0, 2.5}, false); }, 6);
  scenario("adding to 3 nodes", [=] { insertion(3, false, thorough() ? three : std::vector<double>{1.0, 2.5}, true); }, 6);
  scenario("refused additions", [] {
    const int n = choose(4); G g = make({1, 2, 3}, 1); if (n < 3) { g = make(std::vector<int>{1, 2, 3}, 0); }
    const Map before = read(g, "before"); World w; w.lengths = {1.0};
    const int kind = choose(5); const Knn knn(w.distance_fn(), DegreeOfParallelism::None());
    const auto add = [&](const auto& provider, int64_t k, int64_t most) { prm::AddNodeToRoadmap<int, G>(9, prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE, g, provider, w.distance_fn(), w.valid_fn(), k, most, DegreeOfParallelism::None(), false, true); };
    int threw = 0;
    switch (kind)
    {
      case 0: threw = throws([&] { add(knn, -1 - n, 3); }); break;
      case 1: threw = throws([&] { add(knn, 1, 4 + n); }); break;
      case 2: threw = throws([&] { add(knn, 1, -1 - n); }); break;
      case 3: threw = throws([&] { add(BadKnn(3 + n), 1, 3); }); break;
      case 4: threw = throws([&] { add(BadKnn(n), 1, n); }); break;
    }
    MC_CHECK(threw == 1, "bad insertion ", kind, ",", n, " is not refused");
    MC_CHECK(read(g, "after") == before, "a refused insertion changed the roadmap");
    MC_CHECK(throws([&] { Knn(nullptr, DegreeOfParallelism::None()); }) == 1, "a nearest neighbour provider without distance is accepted");
    mc::transition();
  });
  scenario("growing", [] {
    // Samples 1-3 and 9 (may be invalid), termination and validity answers chosen as asked.
    const bool symmetric = flip(), duplicates = flip(); const int64_t k = choose(3); const int which = choose(2), limit = by_tier(3, 4);
    World w; w.symmetric = symmetric; w.validity = 0; G g = make({}, 0); if (flip()) { g = make({2, 5}, 1); }
    for (int a : {1, 2, 3, 5, 9}) { for (int b : {1, 2, 3, 5, 9}) { w.d[{a, b}] = table(which, symmetric, a, b); } }
    std::map<int, bool> state_ok; std::vector<std::pair<char, int64_t>> calls; Map model = read(g, "before"); int sampled = 0; double good = 0, dup = 0, bad = 0;
    std::string complaint; int pending = -1;
    const auto settle = [&] {
      if (pending < 0) { return; }
      // the sample must have been added to the roadmap by now
      const Map now = read(g, "while growing"); const int s = pending; pending = -1;
      const int64_t size = static_cast<int64_t>(model.values.size());
      const bool grew = now.values.size() > model.values.size();
      const int64_t same = std::find(model.values.begin(), model.values.end(), s) - model.values.begin();
      const std::string c = judge_insertion(model, now, grew ? size : same, s, false, k, size, duplicates, w);
      if (!c.empty() && complaint.empty()) { complaint = mc::str("adding ", s, " to ", text(model), ": ", c); }
      if (grew) { good++; } else { dup++; }
      model = now;
    };
    const std::function<int(const int32_t)> sample = [&](const int32_t t) { if (t != 0) { complaint = "sampled with another thread number"; } settle(); sampled++; calls.emplace_back('s', 0); return pick(std::vector<int>{1, 3, 2, 9}); };
    const std::function<bool(const int32_t, const int&)> state_valid = [&](const int32_t t, const int& s) {
      if (t != 0) { complaint = "state checked with another thread number"; }
      const bool ok = s != 9 || flip(); calls.emplace_back(ok ? 'v' : 'i', s); if (ok) { pending = s; } else { bad++; } return ok; };
    const std::function<bool(const int64_t)> done = [&](const int64_t size) {
      settle(); if (size != g.Size()) { complaint = mc::str("termination check gets size ", size, " of ", g.Size()); }
      const bool stop = sampled >= limit || (sampled > 0 && sampled < limit - 1 && flip()); calls.emplace_back(stop ? 'x' : 'c', size); return stop; };
    const Knn knn(w.distance_fn(), DegreeOfParallelism::None());
    const auto st = prm::GrowRoadMap<int, G>(g, sample, knn, w.distance_fn(), state_valid, w.valid_fn(), done, k, DegreeOfParallelism::None(), symmetric, duplicates);
    settle();
    std::string trace; for (const auto& c : calls) { trace += mc::str(c.first, c.second, " "); }
    MC_CHECK(complaint.empty(), "growing (", trace, ")", w.text(), ": ", complaint);
    // The calls follow the pattern: termination check, sample, validity, ...
    char last = 0; for (const auto& c : calls) { const char now = c.first; const bool ok = last == 0 || last == 'v' || last == 'i' ? (now == 'c' || now == 'x') : last == 'c' ? now == 's' : last == 's' ? (now == 'v' || now == 'i') : false; MC_CHECK(ok, "growing calls ", now, " after ", last, " (", trace, ")"); last = now; }
    MC_CHECK(last == 'x', "growing ended before it was told to: ", trace);
    MC_CHECK(st.at("total_samples") == sampled && st.at("successful_samples") == good && st.at("duplicate_samples") == dup && st.at("failed_samples") == bad, "growing (", trace, "): statistics ", st.at("total_samples"), " ", st.at("successful_samples"), " ", st.at("duplicate_samples"), " ", st.at("failed_samples"), ", expected ", sampled, " ", good, " ", dup, " ", bad);
    transition(static_cast<uint64_t>(sampled)); state(Hash().add(text(model)).h);
    if (want_note()) { note("growing (" + trace + ") -> " + text(model)); }
  }, 6);
  scenario("building", [] {
    const bool symmetric = flip(), duplicates = flip(); const int which = choose(3), size = choose(by_tier(4, 5)), tries = 1 + choose(2); const int64_t k = 1 + choose(2);
    const bool chosen = size <= 2 || (thorough() && size == 3); const int pattern = chosen ? 0 : choose(4);
    World w; w.symmetric = symmetric; w.lengths = {1.0};
    for (int a : {1, 2, 3, 4, 9}) { for (int b : {1, 2, 3, 4, 9}) { w.d[{a, b}] = table(which, symmetric, a, b); if (!chosen) { w.v[{a, b}] = pattern == 0 || (pattern == 1 && (a + b) % 2 == 1) || (pattern == 2 && (a * 2 + b) % 3 == 1 && !symmetric) || (pattern == 3 && a * b % 4 == 2); } } }
    std::vector<int> model; int used_tries = 0; bool impossible = false; std::vector<int> samples;
    const std::function<int(const int32_t)> sample = [&](const int32_t) { const int s = size <= 2 ? pick(std::vector<int>{1, 2, 9}) : pick(std::vector<int>{1, 2, 3, 4, 9}); samples.push_back(s); return s; };
    const std::function<bool(const int32_t, const int&)> state_valid = [&](const int32_t, const int& s) { return s != 9; };
    const Knn knn(w.distance_fn(), DegreeOfParallelism::None());
    G g; const int threw = throws([&] { g = prm::BuildRoadMap<int, G>(size, sample, knn, w.distance_fn(), state_valid, w.valid_fn(), k, tries, DegreeOfParallelism::None(), flip(), symmetric, duplicates); });
    for (size_t i = 0; i < samples.size() && static_cast<int>(model.size()) < size; i++)
    {
      const bool good = samples[i] != 9 && (duplicates || std::find(model.begin(), model.end(), samples[i]) == model.end()); used_tries++;
      if (good) { model.push_back(samples[i]); used_tries = 0; } else if (used_tries == tries) { impossible = true; break; }
    }
    const std::string what = mc::str("building ", size, " nodes from samples ", mc::vstr(samples), ", k ", k, ", ", tries, " tries, distances ", which, symmetric ? ", symmetric" : "", duplicates ? ", duplicates allowed" : "");
    if (impossible) { MC_CHECK(threw == 1, what, ": succeeds although a valid state was not found in time"); return; }
    MC_CHECK(threw == 0 && static_cast<int>(model.size()) == size, what, ": ", threw ? "fails" : "returns without enough samples");
    const Map now = read(g, what + w.text());
    MC_CHECK(now.values == model, what, ": nodes ", mc::vstr(now.values));
    std::set<int> unique(model.begin(), model.end());
    if (unique.size() == model.size())
    {
      std::set<Edge> want;
      for (int i = 0; i < size; i++)
      {
        std::vector<std::pair<double, int>> near;
        for (int j = 0; j < size; j++) { if (j != i) { near.emplace_back(w.distance(model[static_cast<size_t>(j)], model[static_cast<size_t>(i)]), j); } }
        std::sort(near.begin(), near.end());
        for (size_t q = 0; q < near.size() && q < static_cast<size_t>(k); q++)
        {
          const int j = near[q].second, a = model[static_cast<size_t>(i)], b = model[static_cast<size_t>(j)];
          if (w.valid(b, a)) { want.emplace(j, i, w.distance(b, a)); }
          if (w.valid(a, b)) { want.emplace(i, j, w.distance(a, b)); }
        }
      }
      Map expected{model, std::multiset<Edge>(want.begin(), want.end())};
      MC_CHECK(now == expected, what, ":", w.text(), ": built ", text(now), ", expected ", text(expected));
    }
    else
    {
      // With equal states any of them may be the nearest, so check each edge by itself.
      std::map<std::pair<int64_t, int64_t>, int> times;
      for (const auto& [a, b, d] : now.edges)
      {
        const int x = model[static_cast<size_t>(a)], y = model[static_cast<size_t>(b)];
        const int count = ++times[std::make_pair(a, b)]; MC_CHECK(a != b && w.valid(x, y) && d == w.distance(x, y) && count == 1, what, ":", w.text(), ": wrong edge ", a, "->", b, ":", d, " in ", text(now));
      }
    }
    transition(); state(Hash().add(text(now)).h);
    if (want_note()) { note(what + " -> " + text(now)); }
  }, 6);
  scenario("many nodes", [] {
    const bool symmetric = flip(), duplicates = flip(); const int form = choose(2), n = form == 0 ? 45 : 24; const int64_t k = pick(std::vector<int64_t>{0, 1, 4, 11, 60}); const int pattern = choose(3);
    World w; w.symmetric = symmetric;
    for (int a = 1; a <= n; a++) { for (int b = 1; b <= n; b++) { const int x = symmetric ? std::min(a, b) : a, y = symmetric ? std::max(a, b) : b; w.d[{a, b}] = a == b ? 0.0 : 1.0 + ((x * 7 + y * 3) % 37) + 0.001 * x + 0.00001 * y; w.v[{a, b}] = pattern == 0 || (pattern == 1 && (x + 2 * y) % 5 != 0) || (pattern == 2 && (x * y) % 3 == 1); } }
    const Knn knn(w.distance_fn(), DegreeOfParallelism::None());
    if (form == 0)
    {
      // one by one: every insertion of the growing roadmap is judged
      G g; Map before = read(g, "before"); const bool to = flip();
      for (int s = 1; s <= n; s++)
      {
        const int value = s % 9 == 8 ? s - 5 : s;   // now and then a state that is already there
        const int64_t at = prm::AddNodeToRoadmap<int, G>(value, to ? prm::NNDistanceDirection::NEW_STATE_TO_ROADMAP : prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE, g, knn, w.distance_fn(), w.valid_fn(), k, g.Size(), DegreeOfParallelism::None(), symmetric, duplicates);
        const Map after = read(g, mc::str("insertion ", s)); const std::string c = judge_insertion(before, after, at, value, to, k, static_cast<int64_t>(before.values.size()), duplicates, w);
        MC_CHECK(c.empty(), "insertion of ", value, " as number ", s, ", k ", k, symmetric ? ", symmetric" : "", duplicates ? ", duplicates allowed" : "", ": ", c);
        before = after; transition();
      }
      state(Hash().add(text(before)).h); return;
    }
    int next = 0; const std::function<int(const int32_t)> sample = [&](const int32_t) { return ++next; }; const std::function<bool(const int32_t, const int&)> ok = [](const int32_t, const int& v) { return v % 7 != 3; };
    if (k == 0) { return; }
    const int size = 18;
    const G g = prm::BuildRoadMap<int, G>(size, sample, knn, w.distance_fn(), ok, w.valid_fn(), k, 2, DegreeOfParallelism::None(), flip(), symmetric, duplicates);
    Map want; for (int v = 1; static_cast<int>(want.values.size()) < size; v++) { if (v % 7 != 3) { want.values.push_back(v); } }
    std::set<Edge> edges;
    for (int i = 0; i < size; i++)
    {
      std::vector<std::pair<double, int>> near; const auto val = [&](int q) { return want.values[static_cast<size_t>(q)]; };
      for (int j = 0; j < size; j++) { if (j != i) { near.emplace_back(w.distance(val(j), val(i)), j); } }
      std::sort(near.begin(), near.end());
      for (size_t q = 0; q < near.size() && q < static_cast<size_t>(k); q++)
      { const int j = near[q].second; if (w.valid(val(j), val(i))) { edges.emplace(j, i, w.distance(val(j), val(i))); } if (w.valid(val(i), val(j))) { edges.emplace(i, j, w.distance(val(i), val(j))); } }
    }
    want.edges = std::multiset<Edge>(edges.begin(), edges.end());
    const Map now = read(g, "many nodes"); MC_CHECK(now == want, "building ", size, " nodes, k ", k, symmetric ? ", symmetric" : "", ", pattern ", pattern, ": built ", text(now), ", expected ", text(want));
    transition(); state(Hash().add(text(now)).h);
  }, 3);
  scenario("large roadmaps", [] {
    const bool symmetric = flip(); const int form = choose(3);
    if (form == 0)
    {
      // Built at once, with many neighbours.
      const int size = 140; const int64_t k = pick(std::vector<int64_t>{2, 70, 139, 300}); const double scale = flip() ? 1.0 : 1e-13;
      const std::function<double(const int&, const int&)> d = [=](const int& a, const int& b) { const int x = symmetric ? std::min(a, b) : a, y = symmetric ? std::max(a, b) : b; return a == b ? 0.0 : scale * (1 + std::abs(a - b) + (a < b ? 0.25 : 0.5) * (symmetric ? 0.0 : 1.0) + 0.001 * x + 0.0000001 * y); };
      const std::function<bool(const int32_t, const int&, const int&)> v = [=](const int32_t, const int& a, const int& b) { return (symmetric ? a + b : a + 2 * b) % 5 != 0; };
      int next = 0; const std::function<int(const int32_t)> sample = [&](const int32_t) { return ++next; }; const std::function<bool(const int32_t, const int&)> ok = [](const int32_t, const int&) { return true; };
      const Knn knn(d, DegreeOfParallelism::None());
      const G g = prm::BuildRoadMap<int, G>(size, sample, knn, d, ok, v, k, 1, DegreeOfParallelism::None(), true, symmetric, false);
      Map want; for (int i = 1; i <= size; i++) { want.values.push_back(i); } std::set<Edge> edges;
      for (int i = 0; i < size; i++)
      {
        std::vector<std::pair<double, int>> near; for (int j = 0; j < size; j++) { if (j != i) { near.emplace_back(d(j + 1, i + 1), j); } } std::sort(near.begin(), near.end());
        for (size_t q = 0; q < near.size() && q < static_cast<size_t>(k); q++) { const int j = near[q].second; if (v(0, j + 1, i + 1)) { edges.emplace(j, i, d(j + 1, i + 1)); } if (v(0, i + 1, j + 1)) { edges.emplace(i, j, d(i + 1, j + 1)); } }
      }
      want.edges = std::multiset<Edge>(edges.begin(), edges.end());
      const Map now = read(g, "a large roadmap"); MC_CHECK(now == want, "building ", size, " nodes, k ", k, symmetric ? ", symmetric" : "", ", scale ", scale, ": ", now.edges.size(), " edges, expected ", want.edges.size());
      transition(); state(Hash().add(k).add(now.edges.size()).h); return;
    }
    // Two states added to a roadmap with very many nodes, the nearest ones at its end.
    const int n = form == 1 ? 300 : 70000; const int64_t k = form == 1 ? pick(std::vector<int64_t>{3, 150, 299, 400}) : 3; const bool to = flip(), overlay = flip();
    const std::function<double(const int&, const int&)> d = [=](const int& a, const int& b) { return a == b ? 0.0 : std::abs(a - b) + (symmetric ? 0.0 : a < b ? 0.25 : 0.5); };
    const std::function<bool(const int32_t, const int&, const int&)> v = [=](const int32_t, const int& a, const int& b) { return symmetric || (a + b) % 3 != 0; };
    G g(n); for (int i = 0; i < n; i++) { g.AddNode(i); }
    const Knn knn(d, DegreeOfParallelism::None());
    const auto add = [&](auto& target) {
      using Target = std::decay_t<decltype(target)>;
      const auto once = [&](int state, bool again) { return prm::AddNodeToRoadmap<int, Target>(state, to ? prm::NNDistanceDirection::NEW_STATE_TO_ROADMAP : prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE, target, knn, d, v, k, target.Size(), DegreeOfParallelism::None(), symmetric, again); };
      for (int turn = 0; turn < 2; turn++)
      {
        const int state = n + turn; const int64_t at = once(state, false); MC_CHECK(at == n + turn && target.Size() == n + turn + 1, "adding to ", n, " nodes returns ", at, ", size ", target.Size());
        std::map<int64_t, double> in, out, want_in, want_out; const int64_t used = std::min<int64_t>(k, n + turn);
        for (int64_t q = 1; q <= used; q++) { const int other = state - static_cast<int>(q); if (v(0, other, state)) { want_in[other] = d(other, state); } if (v(0, state, other)) { want_out[other] = d(state, other); } }
        const auto& node = target.GetNodeImmutable(at); MC_CHECK(node.GetValueImmutable() == state, "another state was added");
        for (const auto& e : node.GetInEdgesImmutable()) { MC_CHECK(e.GetToIndex() == at && in.emplace(e.GetFromIndex(), e.GetWeight()).second, "a strange in edge"); }
        for (const auto& e : node.GetOutEdgesImmutable()) { MC_CHECK(e.GetFromIndex() == at && out.emplace(e.GetToIndex(), e.GetWeight()).second, "a strange out edge"); }
        MC_CHECK(in == want_in && out == want_out, "adding to ", n + turn, " nodes, k ", k, ": ", in.size(), " in and ", out.size(), " out edges, expected ", want_in.size(), " and ", want_out.size());
      }
      MC_CHECK(target.CheckGraphLinkage(), "not consistently linked");
      MC_CHECK(once(n - 1, false) == n - 1 && target.Size() == n + 2, "a duplicate of a late state is added");
      transition(3);
    };
    if (overlay) { Overlay o(g); add(o); } else { add(g); }
    state(Hash().add(n).add(k).h);
  }, 2);
  scenario("many tries", [] {
    // Only the last sample allowed for a node is usable, or the one after it.
    const int tries = pick(std::vector<int>{99, 128, 129, 256, 300, 70000}), at_node = choose(2), missing = choose(2); const bool duplicates = flip(), copies = flip();
    World w; w.lengths = {1.0}; w.validity = 1; const Knn knn(w.distance_fn(), DegreeOfParallelism::None()); int calls = 0, made = 0;
    const std::function<int(const int32_t)> sample = [&](const int32_t) { calls++; const int need = made == at_node ? tries + missing : 1; if (calls < need) { return copies && made == 1 ? 1 : 9; } calls = 0; return ++made; };
    const std::function<bool(const int32_t, const int&)> ok = [&](const int32_t, const int& s) { return s != 9; };
    if (copies && (at_node == 0 || duplicates)) { return; }
    G g; const int threw = throws([&] { g = prm::BuildRoadMap<int, G>(2, sample, knn, w.distance_fn(), ok, w.valid_fn(), 1, tries, DegreeOfParallelism::None(), flip(), true, duplicates); });
    MC_CHECK(threw == missing, tries, " tries allowed and ", tries + missing, " needed for node ", at_node, copies ? " (copies)" : "", ": ", threw ? "refused" : "built");
    if (!threw) { MC_CHECK(g.Size() == 2 && g.GetNodeImmutable(0).GetValueImmutable() == 1 && g.GetNodeImmutable(1).GetValueImmutable() == 2, "built other nodes"); }
    transition(); state(Hash().add(tries).add(threw).h);
  }, 2);
  scenario("states of the roadmap added again", [] {
    const int n = 1 + choose(4), own = choose(n); const bool symmetric = flip(), to = flip(), overlay = flip(), again = flip(); const int64_t k = 1 + choose(n);
    World w; w.symmetric = symmetric; w.lengths = {1.0}; for (int a = 1; a <= n; a++) { for (int b = 1; b <= n; b++) { w.d[{a, b}] = table(1, symmetric, a, b); } }
    if (n > 2) { for (int a = 1; a <= n; a++) { for (int b = 1; b <= n; b++) { w.v[{a, b}] = (a + 2 * b) % 5 != 0; } } }
    std::vector<int> values; for (int i = 0; i < n; i++) { values.push_back(1 + i); }
    G g = make(values, 1);
    const Knn knn(w.distance_fn(), DegreeOfParallelism::None());
    const auto direction = to ? prm::NNDistanceDirection::NEW_STATE_TO_ROADMAP : prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE;
    const auto add = [&](auto& target) {
      using Target = std::decay_t<decltype(target)>;
      for (int turn = 0; turn < (again ? 6 : 1); turn++)
      {
        const Map before = read(target, "before"); const int64_t most = target.Size(); const int value = 1 + own;
        const int64_t at = prm::AddNodeToRoadmap<int, Target>(target.GetNodeImmutable(turn == 5 ? most - 1 : own).GetValueImmutable(), direction, target, knn, w.distance_fn(), w.valid_fn(), k, most, DegreeOfParallelism::None(), symmetric, true);
        const std::string what = mc::str("adding the roadmap's own state ", value, " again to ", text(before), ", k ", k, overlay ? ", overlay" : "");
        const Map after = read(target, what); const std::string c = judge_insertion(before, after, at, value, to, k, most, true, w);
        MC_CHECK(c.empty(), what, ":", w.text(), ": ", c); transition(); state(Hash().add(text(after)).h);
      }
    };
    if (overlay) { Overlay o(g); add(o); } else { add(g); }
  }, 4);
  scenario("refused builds", [] {
    const int which = choose(4); World w; w.lengths = {1.0}; const Knn knn(w.distance_fn(), DegreeOfParallelism::None()); int calls = 0;
    const std::function<int(const int32_t)> sample = [&](const int32_t) { return ++calls; }; const std::function<bool(const int32_t, const int&)> ok = [](const int32_t, const int&) { return true; };
    const int threw = throws([&] { prm::BuildRoadMap<int, G>(which == 0 ? -1 : 2, sample, knn, w.distance_fn(), ok, w.valid_fn(), which == 1 ? 0 : 1, which == 2 ? 0 : 1, DegreeOfParallelism::None()); });
    MC_CHECK((threw == 1) == (which < 3), "building with bad argument ", which, " is ", threw ? "refused" : "accepted"); mc::transition();
  });
  scenario("updating edges", [] {
    const int n = choose(4); std::vector<int> values{1, 2, 3}; values.resize(static_cast<size_t>(n)); G g = make(values, 0);
    for (int a = 0; a < n; a++) { for (int b = 0; b < n; b++) { if (a != b) { const int times = n < 3 ? choose(3) : choose(2); for (int i = 0; i < times; i++) { g.AddEdgeBetweenNodes(a, b, 3.0 + i); } } } }
    Map want = read(g, "before"); const Map before = want;
    World w; w.lengths = n < 3 ? std::vector<double>{1.0, 0.0, 2.5, INF} : std::vector<double>{1.0};
    if (n == 3) { for (int a : values) { for (int b : values) { w.d[{a, b}] = table(1, false, a, b); } } }
    const int break_linkage = n == 2 && !before.edges.empty() ? choose(2) : 0;
    if (break_linkage) { g.GetNodesMutable().at(static_cast<size_t>(std::get<1>(*before.edges.begin()))).SetInEdges({}); }
    const bool broken = break_linkage && !g.CheckGraphLinkage();
    const int threw = throws([&] { prm::UpdateRoadMapEdges<int, G>(g, w.valid_fn(), w.distance_fn(), DegreeOfParallelism::None()); });
    MC_CHECK(threw == (broken ? 1 : 0), "updating the edges of ", text(before), broken ? " with bad linkage is not refused" : " fails");
    if (break_linkage) { return; }
    if (n > 0 && !before.edges.empty() && choose(2))
    {
      // Only one record of each edge already has the right length.
      const bool in = flip();
      for (int64_t i = 0; i < g.Size(); i++) { auto& node = g.GetNodesMutable().at(static_cast<size_t>(i)); for (auto& e : in ? node.GetInEdgesMutable() : node.GetOutEdgesMutable()) { e.SetWeight(11.0); } }
      prm::UpdateRoadMapEdges<int, G>(g, w.valid_fn(), w.distance_fn(), DegreeOfParallelism::None());
    }
    want.edges.clear();
    for (const auto& [a, b, d] : before.edges) { (void)d; const int x = values[static_cast<size_t>(a)], y = values[static_cast<size_t>(b)]; want.edges.emplace(a, b, w.valid(x, y) ? w.distance(x, y) : INF); }
    const Map now = read(g, "updating the edges of " + text(before) + ":" + w.text());
    MC_CHECK(now == want, "updating the edges of ", text(before), ":", w.text(), ": gives ", text(now), ", expected ", text(want));
    transition(); state(Hash().add(text(now)).h);
    if (want_note()) { note("updating " + text(before) + ":" + w.text() + " -> " + text(now)); }
  }, 4);
}
