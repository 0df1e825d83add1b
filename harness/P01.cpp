// P01: shortcut smoothing of paths.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <deque>
#include <map>
#include <set>
#include <common_robotics_utilities/path_processing.hpp>
MC_HARNESS("P01", "small paths x options x every sequence of random draws from a grid (chosen lazily) x every consistent answer of the edge check (chosen lazily at each first question), against provenance of every state and a log of all checks; a state is a distinct smoothed path")
namespace pp = common_robotics_utilities::path_processing;
namespace
{
struct P { double x, y; int id; };
double dist(const P& a, const P& b) { return std::hypot(a.x - b.x, a.y - b.y); }
struct Origin { int from, to; double ratio; };
struct World
{
  int rule = 0;   // 0: edges are chosen, else judged by a rule
  std::vector<P> states; std::map<int, Origin> origin; std::map<std::pair<int, int>, bool> valid; std::vector<std::pair<int, int>> asked; std::vector<double> position; size_t input = 0; std::string what;
  std::set<std::pair<int, int>> no_retry;
  int fresh(double x, double y, double pos) { states.push_back({x, y, static_cast<int>(states.size())}); position.push_back(pos); return states.back().id; }
  bool check(const P& a, const P& b)
  {
    known(a); known(b); MC_CHECK(a.id == b.id || pos(a) < pos(b), what, ": edge checked backwards from ", a.id, " to ", b.id);
    const auto k = std::make_pair(a.id, b.id); asked.push_back(k); auto it = valid.find(k); if (it == valid.end()) { it = valid.emplace(k, rule == 0 ? mc::flip() : rule == 1 ? true : rule == 2 ? b.id - a.id < 7 : (a.id * 5 + b.id * 3) % rule != 0).first; } return it->second;
  }
  void known(const P& p) const { MC_CHECK(p.id >= 0 && p.id < static_cast<int>(states.size()) && states[static_cast<size_t>(p.id)].x == p.x && states[static_cast<size_t>(p.id)].y == p.y, what, ": an unknown state"); }
  double pos(const P& p) const { return position[static_cast<size_t>(p.id)]; }
  P blend(const P& a, const P& b, double r)
  {
    known(a); known(b); MC_CHECK(r > 0.0 && r < 1.0, what, ": interpolation by ", r);
    const auto k = std::make_pair(a.id, b.id); MC_CHECK(valid.count(k) && valid[k], what, ": resampled from ", a.id, " to ", b.id, ", which was not found valid");
    const int i = fresh(a.x + (b.x - a.x) * r, a.y + (b.y - a.y) * r, pos(a) + (pos(b) - pos(a)) * r); origin[i] = {a.id, b.id, r}; return states[static_cast<size_t>(i)];
  }
  /// May `b` follow `a` in the result?
  std::string follows(const P& a, const P& b, double interval, bool marginal)
  {
    if (static_cast<size_t>(a.id) + 1 == static_cast<size_t>(b.id) && static_cast<size_t>(b.id) < input) { return ""; }
    const auto k = valid.find({a.id, b.id}); if (k != valid.end() && k->second) { if (interval > 0 && dist(a, b) > interval * (1 + 1e-9)) { return "is not resampled"; } return ""; }
    if (k != valid.end() && marginal) { return "was found invalid"; }
    const auto oa = origin.find(a.id), ob = origin.find(b.id); bool piece = false;
    if (oa != origin.end() && ob != origin.end()) { piece = oa->second.from == ob->second.from && oa->second.to == ob->second.to && oa->second.ratio < ob->second.ratio; }
    if (!piece && oa != origin.end()) { piece = oa->second.to == b.id; }
    if (!piece && ob != origin.end()) { piece = ob->second.from == a.id; }
    if (!piece) { return k == valid.end() ? "was never checked" : "was found invalid"; }
    if (marginal) { return "is a piece that was not checked"; }
    if (dist(a, b) > interval * (1 + 1e-9)) { return "is longer than the resampling interval"; }
    return "";
  }
};
template<typename Path> std::string text(const Path& p) { std::string s; for (const P& q : p) { s += mc::str(" ", q.id); } return s; }
template<typename Path> std::vector<int> ids(const Path& p) { std::vector<int> s; for (const P& q : p) { s.push_back(q.id); } return s; }
template<typename Path> bool same(const Path& a, const Path& b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](const P& p, const P& q) { return p.id == q.id && p.x == q.x && p.y == q.y; }); }
const std::vector<std::vector<std::pair<double, double>>> kPaths{
  {{0, 0}, {1, 0}, {1, 1}}, {{0, 0}, {1, 0}, {1, 1}, {0, 1}}, {{0, 0}, {0, 1}, {1, 1}, {1, 0}, {2, 0}}, {{0, 0}, {1, 0}, {2, 0}, {3, 0}}, {{0, 0}, {0, 0}, {1, 1}, {1, 1}}, {{0, 0}, {2, 0}, {0, 0}}, {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {0, 2}, {3, 3}}, {}, {{1, 1}}, {{0, 0}, {1, 1}}};
struct Options { std::vector<size_t> paths; int iterations; std::vector<double> draws; std::vector<int> backtracking; std::vector<double> intervals; std::vector<double> fractions; bool marginals = true; size_t length = 0; };
template<typename Path> void smooth(const Options& o)
{
  // Short paths from the list with chosen draws and answers; or a long zigzag with one of the draw sequences and answer rules.
  World w; const bool script = o.length > 0; std::vector<std::pair<double, double>> zigzag; for (size_t i = 0; i < o.length; i++) { zigzag.emplace_back(static_cast<double>(i) * 0.5, static_cast<double>((i * i) % 7)); }
  const auto& shape = script ? zigzag : kPaths[mc::pick(o.paths)];
  const uint32_t iterations = static_cast<uint32_t>(script ? o.iterations : mc::choose(o.iterations + 1)), failures = static_cast<uint32_t>(script ? mc::pick(std::vector<int>{o.iterations, 10}) : mc::choose(o.iterations + 1));
  const double alpha = script ? mc::pick(o.draws) : 0, beta = script ? mc::pick(std::vector<double>{0.0, 0.31, 0.77}) : 0; if (script) { w.rule = 1 + mc::choose(5); }
  const uint32_t back = static_cast<uint32_t>(mc::pick(o.backtracking)); const double interval = mc::pick(o.intervals), fraction = mc::pick(o.fractions); const bool marginal = o.marginals && mc::flip();
  Path path; for (const auto& [x, y] : shape) { path.push_back(w.states[static_cast<size_t>(w.fresh(x, y, static_cast<double>(path.size())))]); } w.input = path.size(); w.states.reserve(script ? 100000 : 64);
  if (mc::want_note()) { w.what = mc::str("smoothing ", shape.size(), " states, ", iterations, " iterations, ", failures, " failures, ", back, " backtracking steps, fraction ", fraction, ", interval ", interval, marginal ? ", marginal check" : ""); }
  uint32_t draws = 0; std::vector<size_t> checks_before; std::vector<bool> outcomes;   // per iteration: number of checks before it
  const Path before = path;
  const auto failed = [&](size_t from, size_t to) { bool bad = false; for (size_t i = from; i < to; i++) { if (!w.valid[w.asked[i]]) { bad = true; } } return bad; };
  const auto count_failures = [&] { uint32_t n = 0; for (size_t i = 0; i < checks_before.size(); i++) { const size_t end = i + 1 < checks_before.size() ? checks_before[i + 1] : w.asked.size(); if (failed(checks_before[i], end)) { n++; } } return n; };
  const common_robotics_utilities::utility::UniformUnitRealFunction uniform = [&]
  {
    MC_CHECK(draws < 2 * iterations, w.what, ": more than ", iterations, " iterations");
    if (draws % 2 == 0)
    {
      if (back == 0) { MC_CHECK(count_failures() < failures, w.what, ": goes on after ", count_failures(), " failures"); } else { MC_CHECK(failures > 0, w.what, ": begins although no failure is allowed"); }
      checks_before.push_back(w.asked.size());
    }
    draws++; const double d = script ? std::fmod(draws * alpha + beta, 1.0) : mc::pick(o.draws); if (mc::want_note()) { w.what += mc::str(" ", d); } return d;
  };
  const std::function<bool(const P&, const P&)> check = [&](const P& a, const P& b) { MC_CHECK(draws > 0, w.what, ": checks before the first iteration"); const bool r = w.check(a, b); if (mc::want_note()) { w.what += mc::str(r ? " ok(" : " no(", a.id, ",", b.id, ")"); } return r; };
  const std::function<P(const P&, const P&, const double)> blend = [&](const P& a, const P& b, const double r) { return w.blend(a, b, r); };
  std::string error; Path out; const int t = mc::throws([&] { out = pp::ShortcutSmoothPath<P, Path>(path, iterations, failures, back, fraction, interval, marginal, check, dist, blend, uniform); }, &error);
  MC_CHECK(t == 0, w.what, ": threw ", error);
  const std::string told = mc::want_note() ? w.what + " ->" + text(out) : std::string(); MC_CHECK(same(path, before), told, ": the input changed");
  MC_CHECK(out.empty() == before.empty(), told, ": ", out.size(), " states"); if (before.empty()) { MC_CHECK(draws == 0, told, ": draws"); return; }
  MC_CHECK(out.front().id == before.front().id && out.back().id == before.back().id, told, ": other ends");
  double was = 0, is = 0; for (size_t i = 1; i < before.size(); i++) { was += dist(before[i - 1], before[i]); }
  for (size_t i = 1; i < out.size(); i++)
  {
    w.known(out[i]); is += dist(out[i - 1], out[i]); const std::string bad = w.follows(out[i - 1], out[i], interval, marginal); MC_CHECK(bad.empty(), told, ": edge from ", out[i - 1].id, " to ", out[i].id, " ", bad);
  }
  MC_CHECK(is <= was * (1 + 1e-9), told, ": length grew from ", was, " to ", is); MC_CHECK(draws % 2 == 0, told, ": ", draws, " draws");
  if (back == 0)
  {
    MC_CHECK(draws == 2 * iterations || count_failures() >= failures || out.size() <= 2, told, ": stopped after ", draws / 2, " iterations and ", count_failures(), " failures");
    // Every iteration makes at most one attempt, from its base to its offset.
    for (size_t i = 0; i < checks_before.size(); i++)
    {
      const size_t end = i + 1 < checks_before.size() ? checks_before[i + 1] : w.asked.size(); if (end == checks_before[i]) { continue; }
      const bool bad = failed(checks_before[i], end); if (!marginal || interval <= 0) { MC_CHECK(end - checks_before[i] == 1, told, ": ", end - checks_before[i], " checks in an iteration without backtracking"); }
      if (!bad) { const auto [a, b] = w.asked[checks_before[i]]; bool skipped = true; for (const P& p : out) { if (static_cast<size_t>(p.id) < w.input && w.position[static_cast<size_t>(a)] < p.id && p.id < w.position[static_cast<size_t>(b)]) { skipped = false; } } MC_CHECK(skipped, told, ": the valid shortcut from ", a, " to ", b, " was not taken"); }
    }
  }
  mc::transition(w.asked.size() + 1); mc::state(mc::Hash().addv(ids(out)).add(shape.size()).add(is).h); if (mc::want_note()) { mc::note(told); }
}
void attempt()
{
  World w; const auto& shape = kPaths[6]; std::vector<P> path; for (const auto& [x, y] : shape) { path.push_back(w.states[static_cast<size_t>(w.fresh(x, y, static_cast<double>(path.size())))]); } w.input = path.size(); w.states.reserve(64);
  const size_t a = static_cast<size_t>(mc::choose(6)), b = static_cast<size_t>(mc::choose(6)); const uint32_t back = static_cast<uint32_t>(mc::choose(mc::thorough() ? 4 : 3)); const double interval = mc::pick(std::vector<double>{0.0, 0.75, -1.0}); const bool marginal = mc::flip();
  w.what = mc::str("shortcut from ", a, " to ", b, ", ", back, " backtracking steps, interval ", interval, marginal ? ", marginal check" : ""); std::vector<P> out; int depth_one = 0;
  const std::function<bool(const P&, const P&)> check = [&](const P& p, const P& q) { depth_one++; const bool r = w.check(p, q); if (mc::want_note()) { w.what += mc::str(r ? " ok(" : " no(", p.id, ",", q.id, ")"); } return r; };
  const std::function<P(const P&, const P&, const double)> blend = [&](const P& p, const P& q, const double r) { return w.blend(p, q, r); };
  const int t = mc::throws([&] { out = pp::AttemptShortcut<P>(path, a, b, back, interval, marginal, check, dist, blend); });
  MC_CHECK(t == (a < b ? 0 : 1), w.what, ": ", a < b ? "threw" : "accepted"); if (a >= b) { return; }
  const std::string told = w.what + " ->" + text(out);
  const auto whole = w.valid.find({path[a].id, path[b].id}); MC_CHECK(whole != w.valid.end(), told, ": the shortcut itself was not checked");
  if (out.empty()) { MC_CHECK(!whole->second || (marginal && interval > 0), told, ": a valid shortcut was refused"); }
  else
  {
    MC_CHECK(out.size() >= 2 && out.front().id == path[a].id && out.back().id == path[b].id, told, ": other ends"); double was = 0, is = 0; for (size_t i = a; i < b; i++) { was += dist(path[i], path[i + 1]); }
    for (size_t i = 1; i < out.size(); i++) { is += dist(out[i - 1], out[i]); const std::string bad = w.follows(out[i - 1], out[i], interval, marginal); MC_CHECK(bad.empty(), told, ": edge from ", out[i - 1].id, " to ", out[i].id, " ", bad); }
    MC_CHECK(is <= was * (1 + 1e-9), told, ": length grew from ", was, " to ", is);
    if (whole->second && !marginal) { for (const P& p : out) { MC_CHECK(static_cast<size_t>(p.id) >= w.input || p.id == path[a].id || p.id == path[b].id, told, ": a valid shortcut was not taken whole"); } }
  }
  if (!marginal || interval <= 0) { MC_CHECK(depth_one <= (2 << back) - 1, told, ": ", depth_one, " checks with ", back, " backtracking steps"); }
  mc::transition(w.asked.size()); mc::state(mc::Hash().add(told).h); if (mc::want_note()) { mc::note(told); }
}
void percentage()
{
  const int n = mc::choose(6); std::vector<int> path; for (int i = 0; i < n; i++) { path.push_back(i); } std::vector<bool> ok; bool stopped = false;
  const double got = pp::ComputePercentCollisionFree<int>(path, [&](const int& a, const int& b) { MC_CHECK(n == 1 ? a == b : a + 1 == b && a == static_cast<int>(ok.size()), "checked ", a, "-", b, " of ", n); MC_CHECK(!stopped, "went on after a collision"); const bool v = mc::flip(); ok.push_back(v); stopped = !v; return v; });
  const double good = static_cast<double>(std::count(ok.begin(), ok.end(), true)); const double want = n == 0 ? 1.0 : n == 1 ? good : good / (n - 1);
  MC_CHECK(std::abs(got - want) < 1e-12 && (got == 1.0) == (want == 1.0), "collision-free share of ", n, " states with ", good, " valid edges: ", got); mc::transition(); mc::state(mc::Hash().add(n).addv(std::vector<int>(ok.begin(), ok.end())).h);
}
/// A shortcut resampled into many pieces, of which none or one is invalid, without and with backtracking (onto edges that are all invalid).
void many_pieces()
{
  const int pieces = mc::pick(std::vector<int>{2, 30, 99, 100, 101, 128, 257, 1000}), marginal = mc::choose(2), back = mc::choose(2);
  const int bad = mc::choose(4), where = bad == 0 ? -1 : bad == 1 ? 0 : bad == 2 ? pieces / 2 : pieces - 1;
  const std::vector<double> path{0.0, 0.25 * pieces, 0.5 * pieces, static_cast<double>(pieces)};
  int64_t asked = 0;
  const std::function<bool(const double&, const double&)> check = [&](const double& a, const double& b)
  { asked++; if (a == 0.0 && b == path.back()) { return true; } if (std::abs(b - a) > 1.5) { return false; } return static_cast<int>(std::lround(a)) != where; };
  const std::function<double(const double&, const double&)> far = [](const double& a, const double& b) { return std::abs(b - a); };
  const std::function<double(const double&, const double&, const double)> blend = [](const double& a, const double& b, const double r) { return a + (b - a) * r; };
  std::vector<double> out; const std::string what = mc::str("a shortcut of ", pieces, " pieces", bad ? mc::str(", of which the one from ", where, " is invalid") : "", marginal ? ", marginal check" : "");
  const int t = mc::throws([&] { out = pp::AttemptShortcut<double>(path, 0, 3, static_cast<uint32_t>(back), 1.0, marginal != 0, check, far, blend); });
  MC_CHECK(t == 0, what, " threw");
  if (bad && marginal) { if (pieces > 2) { MC_CHECK(out.empty(), what, " was taken"); } }
  else
  {
    MC_CHECK(static_cast<int>(out.size()) == pieces + 1, what, ": ", out.size(), " states");
    for (size_t i = 0; i < out.size(); i++) { MC_CHECK(std::abs(out[i] - static_cast<double>(i)) < 1e-9 * pieces, what, ": state ", i, " is ", out[i]); }
  }
  std::vector<double> line; for (int i = 0; i <= pieces; i++) { line.push_back(i); }
  const double share = pp::ComputePercentCollisionFree<double>(line, [&](const double& a, const double&) { return static_cast<int>(std::lround(a)) != where; });
  MC_CHECK((share == 1.0) == (bad == 0) && std::abs(share - (bad ? static_cast<double>(where) / pieces : 1.0)) < 1e-12, "collision-free share of ", pieces, " edges with ", bad ? 1 : 0, " invalid: ", share);
  mc::transition(static_cast<uint64_t>(asked)); mc::state(mc::Hash().add(what).h);
}
}
void mc::run()
{
  using V = std::vector<P>; using D = std::deque<P>; const double top = 1.0 - 0x1p-53; const std::vector<double> coarse{0.0, 0.3, 0.6, top}, fine{0.0, 0.17, 0.34, 0.5, 0.67, 0.84, top};
  scenario("3-5 states, 1 iteration", [=] { smooth<V>({{0, 1, 2, 3, 4, 5}, 1, fine, {0, 1, 2}, {0.0, 0.7}, {1.0, 0.5}, true}); }, 10);
  scenario("6 states, 1 iteration", [=] { smooth<D>({{6}, 1, thorough() ? fine : std::vector<double>{0.0, 0.3, 0.6, top}, {1, thorough() ? 3 : 2}, {0.0, 0.9}, {1.0}, true}); }, 10);
  scenario("3-4 states, 2 iterations", [=] { smooth<V>({{0, 1, 4, 5}, 2, coarse, {0, 1}, {0.0, 0.7}, {1.0}, true}); }, 10);
  scenario("5 states, 2 iterations", [=] { smooth<V>({{2}, 2, {0.0, 0.5, top}, {0, 2}, {0.0, 1.0}, {1.0}, true}); }, 10);
  scenario("4 states, 3 iterations", [=] { smooth<D>({{1, 3}, 3, {0.0, 0.6, top}, {0}, {0.0}, {1.0, 0.7}, false}); }, 10);
  scenario("short paths", [=] { smooth<V>({{7, 8, 9}, 2, coarse, {0, 1}, {0.0, 0.5}, {1.0}, true}); });
  const std::vector<double> sequences{0.6180339887, 0.4142135623, 0.3027756377, 0.1, 0.7320508075};
  scenario("long paths", [=] { Options o{{}, by_tier(80, 400), sequences, {0, 1, 5}, {0.0, 0.4}, {1.0, 0.5, 0.1}, true}; o.length = static_cast<size_t>(pick(std::vector<int>{20, by_tier(60, 300)})); smooth<V>(o); }, 3);
  scenario("just over a whole number of pieces", [=] { smooth<V>({{3, 5, 0}, 1, coarse, {0}, {0.5 - 1e-8, 1 - 2e-8, 1 + 1e-8}, {1.0}, true}); });
  scenario("one attempt", [] { attempt(); }, 8);
  scenario("collision-free share", [] { percentage(); });
  scenario("many pieces", [] { many_pieces(); });
  if (thorough())
  {
    scenario("5 states, 2 iterations, fine", [=] { smooth<V>({{2, 3}, 2, fine, {0, 1, 2}, {0.0, 0.7}, {1.0}, true}); }, 11);
    scenario("6 states, 2 iterations", [=] { smooth<V>({{6}, 2, coarse, {0, 2}, {0.0}, {1.0}, false}); }, 11);
    scenario("4 states, 3 iterations with backtracking", [=] { smooth<V>({{1}, 3, {0.0, 0.6, top}, {1}, {0.0, 0.7}, {1.0}, true}); }, 11);
  }
}
