// N05: k-means clustering.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <unordered_map>
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
MC_HARNESS("N05", "every data set over a grid of points with duplicates x weights incl. zero x number of clusters x seeds covering every initial choice x serial and parallel, against the fixed-point condition of k-means; a state is a distinct labelling of a distinct input")
namespace km = common_robotics_utilities::simple_kmeans_clustering;
using common_robotics_utilities::parallelism::DegreeOfParallelism;
namespace
{
struct P { double x = std::nan(""), y = std::nan(""); int id = -1; };
using V = std::vector<P>;
double apart(const P& a, const P& b) { return std::hypot(a.x - b.x, a.y - b.y); }
struct Refused : std::runtime_error { using std::runtime_error::runtime_error; };
/// Seeds that between them make every initial choice of k out of n (as far as 400 seeds do).
const std::vector<int64_t>& seeds(size_t n, int k)
{
  static std::map<std::pair<size_t, int>, std::vector<int64_t>> cache; auto& out = cache[{n, k}]; if (!out.empty()) { return out; }
  std::set<std::vector<size_t>> seen; for (int64_t s = 0; s < 400; s++) { std::mt19937_64 g(static_cast<std::mt19937_64::result_type>(s)); std::uniform_int_distribution<size_t> d(0, n - 1); std::unordered_map<size_t, uint8_t> m; while (static_cast<int>(m.size()) < k) { m[d(g)] = 1; } std::vector<size_t> c; for (const auto& e : m) { c.push_back(e.first); } if (seen.insert(c).second) { out.push_back(s); } }
  return out;
}
struct Input { V data; std::vector<double> weights; bool weighted; };
std::string text(const Input& in) { std::string s; for (size_t i = 0; i < in.data.size(); i++) { s += mc::str(" (", in.data[i].x, " ", in.data[i].y, in.weighted ? mc::str(" x", in.weights[i]) : "", ")"); } return s; }
P mean(const V& v, const std::vector<double>& w) { P c{0, 0, -1}; double sum = 0; for (size_t i = 0; i < v.size(); i++) { c.x += v[i].x * w[i]; c.y += v[i].y * w[i]; sum += w[i]; } if (!(sum > 0)) { throw Refused("no weight"); } c.x /= sum; c.y /= sum; return c; }
void run(const Input& in, int k, int64_t seed, bool preliminary, int threads, bool thorough_labels = true)
{
  (void)thorough_labels; const DegreeOfParallelism par = threads == 0 ? DegreeOfParallelism::None() : DegreeOfParallelism(threads); const auto told = [&] { return mc::str("clustering", text(in), " into ", k, ", seed ", seed, preliminary ? ", preliminary" : "", threads ? mc::str(", ", threads, " threads") : ""); };
  std::atomic<int> averages{0}; std::atomic<bool> strange{false};   // averaging may run in parallel
  const auto known = [&](const P& p) { return p.id >= 0 && p.id < static_cast<int>(in.data.size()) && in.data[static_cast<size_t>(p.id)].x == p.x && in.data[static_cast<size_t>(p.id)].y == p.y; };
  std::atomic<bool> none{false}, misweighted{false};
  const std::function<double(const P&, const P&)> distance = [&](const P& a, const P& b) { if (std::isnan(a.x) || std::isnan(b.x)) { strange = true; } return apart(a, b); };
  const std::function<P(const V&, const std::vector<double>&)> weighted = [&](const V& v, const std::vector<double>& w)
  {
    averages++; if (v.empty()) { none = true; throw Refused("nothing to average"); } if (w.size() != v.size()) { misweighted = true; throw Refused("weights"); }
    for (size_t i = 0; i < v.size(); i++) { if (!known(v[i])) { strange = true; } else if (w[i] != in.weights[static_cast<size_t>(v[i].id)]) { misweighted = true; } } return mean(v, w);
  };
  const std::function<P(const V&)> plain = [&](const V& v) { averages++; if (v.empty()) { none = true; throw Refused("nothing to average"); } for (const P& p : v) { if (!known(p)) { strange = true; } } return mean(v, std::vector<double>(v.size(), 1.0)); };
  std::vector<int32_t> labels; std::string error; const int t = mc::throws([&] { labels = in.weighted ? km::ClusterWeighted<P, V>(in.data, in.weights, distance, weighted, k, seed, preliminary, par) : km::Cluster<P, V>(in.data, distance, plain, k, seed, preliminary, par); }, &error);
  MC_CHECK(!none, told(), ": averages nothing"); MC_CHECK(!misweighted, told(), ": averages with other weights"); MC_CHECK(!strange, told(), ": uses items that were not given");
  const bool zero = in.weighted && std::any_of(in.weights.begin(), in.weights.end(), [](double w) { return !(w > 0); });
  const size_t n = in.data.size(); mc::transition(1 + averages);
  if (n == 0) { MC_CHECK(t == 1 || labels.empty(), told(), ": ", labels.size(), " labels"); return; }
  if (k < 1 || k > static_cast<int>(n)) { if (k == 1) { return; } MC_CHECK(t == 1, told(), ": accepted"); return; }
  if (t != 0) { MC_CHECK(zero, told(), ": threw ", error); return; }
  MC_CHECK(labels.size() == n, told(), ": ", labels.size(), " labels"); for (int32_t l : labels) { MC_CHECK(l >= 0 && l < k, told(), ": label ", l); }
  std::vector<V> members(static_cast<size_t>(k)); std::vector<std::vector<double>> weights(static_cast<size_t>(k)); for (size_t i = 0; i < n; i++) { members[static_cast<size_t>(labels[i])].push_back(in.data[i]); weights[static_cast<size_t>(labels[i])].push_back(in.weighted ? in.weights[i] : 1.0); }
  std::vector<P> centres(static_cast<size_t>(k)); std::vector<bool> has(static_cast<size_t>(k), false);
  for (size_t c = 0; c < members.size(); c++) { double w = 0; for (double x : weights[c]) { w += x; } if (w > 0) { has[c] = true; centres[c] = mean(members[c], weights[c]); } }
  if (k > 1) { for (size_t i = 0; i < n; i++) { const size_t l = static_cast<size_t>(labels[i]); if (!has[l]) { continue; } const double own = apart(centres[l], in.data[i]); for (size_t c = 0; c < members.size(); c++) { if (has[c]) { MC_CHECK(own <= apart(centres[c], in.data[i]) + 1e-9, told(), ": item ", i, " is in cluster ", l, " at ", own, " although the centre of ", c, " is at ", apart(centres[c], in.data[i])); } } } }
  mc::Hash h; h.add(text(in)).add(k).addv(labels); mc::state(h.h); if (mc::want_note()) { std::string s = told() + " ->"; for (int32_t l : labels) { s += mc::str(" ", l); } mc::note(s); }
}
void small(int n, const std::vector<std::pair<double, double>>& grid, const std::vector<double>& weights, const std::vector<int>& threads, int most)
{
  Input in; in.weighted = !weights.empty(); for (int i = 0; i < n; i++) { const auto [x, y] = mc::pick(grid); in.data.push_back({x, y, i}); } for (int i = 0; i < n; i++) { in.weights.push_back(in.weighted ? mc::pick(weights) : 1.0); }
  const int k = 1 + mc::choose(std::min(n, most)); const int64_t seed = k == 1 ? 42 : mc::pick(seeds(static_cast<size_t>(n), k)); run(in, k, seed, mc::flip(), mc::pick(threads));
}
/// Enough items for a preliminary clustering of an eighth of them: each block of items is put at one of the points.
void large()
{
  const int k = 2 + mc::choose(2), n = k == 2 ? 73 + mc::choose(2) * 7 : 113 + mc::choose(2) * 7; const int blocks = 4; std::vector<int> at; for (int b = 0; b < blocks; b++) { at.push_back(mc::choose(4)); } const bool mixed = mc::flip();
  Input in; in.weighted = mc::flip(); const double px[] = {0, 1, 10, 1}, py[] = {0, 0, 0, 7};
  for (int i = 0; i < n; i++) { const int b = mixed ? i % blocks : i * blocks / n; const int a = at[static_cast<size_t>(b)]; in.data.push_back({px[a] + 0.01 * (a == 3 ? i % 5 : 0), py[a], i}); in.weights.push_back(in.weighted ? 1.0 + i % 3 : 1.0); }
  run(in, k, mc::choose(mc::thorough() ? 12 : 4), true, mc::flip() ? 2 : 0);
}
void counts()
{
  Input in; const int n = mc::choose(4); in.weighted = mc::flip(); for (int i = 0; i < n; i++) { in.data.push_back({static_cast<double>(i), 0, i}); in.weights.push_back(1.0); }
  run(in, mc::pick(std::vector<int>{std::numeric_limits<int>::min(), -2, -1, 0, 1, 2, 3, 4, 5, std::numeric_limits<int>::max()}), mc::choose(3) - 1, mc::flip(), mc::choose(2) * 2);
}
void steps()
{
  const int n = mc::choose(4), m = mc::choose(4); std::vector<int32_t> a, b; for (int i = 0; i < n; i++) { a.push_back(mc::choose(2)); } for (int i = 0; i < m; i++) { b.push_back(mc::choose(2)); } bool same = false;
  const int t = mc::throws([&] { same = km::CheckForConvergence(a, b); }); MC_CHECK(t == (n == m ? 0 : 1) && (n != m || same == (a == b)), "convergence of ", n, " and ", m, " labels"); mc::transition();
  V data, centres; for (int i = 0; i < n; i++) { data.push_back({static_cast<double>(mc::choose(3)), 0, i}); } for (int i = 0; i < 2; i++) { centres.push_back({static_cast<double>(mc::choose(3)), 1, i}); }
  const auto labels = km::PerformSingleClusteringIteration<P, V>(data, centres, apart, mc::flip() ? DegreeOfParallelism(2) : DegreeOfParallelism::None()); MC_CHECK(labels.size() == data.size(), "one iteration: ", labels.size(), " labels");
  for (size_t i = 0; i < data.size(); i++) { MC_CHECK(labels[i] >= 0 && labels[i] < 2 && apart(data[i], centres[static_cast<size_t>(labels[i])]) <= apart(data[i], centres[static_cast<size_t>(1 - labels[i])]), "one iteration: item ", i, " labelled ", labels[i]); }
}
}
void mc::run()
{
  scenario("counts", [] { counts(); }); scenario("single steps", [] { steps(); }, 3);
  const std::vector<std::pair<double, double>> line{{0, 0}, {1, 0}, {2, 0}, {5, 0}}, plane{{0, 0}, {1, 0}, {0, 1}, {3, 3}, {1, 0}}, three{{0, 0}, {1, 0}, {4, 0}};
  for (int n = 1; n <= 3; n++) { scenario(str(n, " items"), [=] { small(n, plane, {}, {0, 2, 3}, n); }, 2); scenario(str(n, " weighted items"), [=] { small(n, line, {0.0, 1.0, 3.0}, {0, 2}, n); }, 2); }
  scenario("4 items", [=] { small(4, line, {}, {0, 2}, 4); }, 4); scenario("4 weighted items", [=] { small(4, three, {0.0, 1.0}, {0}, 3); }, 4); scenario("5 items", [=] { small(5, thorough() ? line : three, {}, {0}, 3); }, 4);
  scenario("6 items", [=] { small(6, three, {}, {0}, 2); }, 5); scenario("preliminary clustering", [] { large(); }, 4);
  scenario("slow convergence", []
  {   // blocks of items in a row: centres move item by item
    Input in; in.weighted = mc::flip(); const int n = mc::pick(std::vector<int>{8, 12, 17}); double x = 0; const int shape = mc::choose(4);
    for (int i = 0; i < n; i++) { x += shape == 0 ? 1.0 : shape == 1 ? 0.25 * (i + 1) : shape == 2 ? 1.0 + i % 3 : 8.0 / (i + 1); in.data.push_back({x, shape == 2 ? i % 2 * 0.5 : 0.0, i}); in.weights.push_back(in.weighted ? 1.0 + (i * 5) % 7 : 1.0); }
    run(in, 2 + mc::choose(4), mc::choose(mc::thorough() ? 120 : 30), mc::flip(), mc::choose(2) * 3);
  }, 4);
  scenario("items between two groups", []
  {   // one item after the other goes over to the other group; which one comes first in the data varies
    Input in; in.weighted = mc::flip(); const int place = mc::choose(3); V rest; for (int i = 0; i < 4; i++) { rest.push_back({0.1 * i, 0, 0}); rest.push_back({10.0 + 0.1 * i * (1 + place), 0, 0}); }
    V between; double x = 3.0 + 0.25 * mc::choose(16); between.push_back({x, 0.5, 0}); x = std::min(8.0, x + 0.125 * mc::choose(8)); between.push_back({x, 0.0, 0});
    const V& first = place == 0 ? between : rest; const V& last = place == 0 ? rest : between; in.data = first; if (place == 2) { in.data.insert(in.data.begin(), between[0]); in.data.push_back(between[1]); } else { in.data.insert(in.data.end(), last.begin(), last.end()); }
    for (size_t i = 0; i < in.data.size(); i++) { in.data[i].id = static_cast<int>(i); in.weights.push_back(in.weighted ? 1.0 + static_cast<double>((i * 5) % 4) : 1.0); }
    run(in, 2 + mc::choose(2), mc::choose(mc::thorough() ? 60 : 25), false, 0);
  }, 4);
  scenario("many clusters", []
  {
    Input in; in.weighted = mc::flip(); const int n = mc::pick(std::vector<int>{300, 333}), k = mc::pick(std::vector<int>{100, 129, 200, 257, 299});
    for (int i = 0; i < n; i++) { in.data.push_back({static_cast<double>((i * 37) % 101), static_cast<double>((i * 53) % 67), i}); in.weights.push_back(in.weighted ? 1.0 + i % 3 : 1.0); }
    run(in, k, mc::choose(mc::by_tier(3, 10)), mc::flip(), mc::choose(2) * 3);
  }, 2);
  scenario("many steps", []
  {   // a hundred and more rounds until no label changes
    Input in; in.weighted = mc::flip(); const int n = mc::pick(std::vector<int>{300, 600}), shape = mc::choose(3); double x = 0;
    for (int i = 0; i < n; i++) { x += shape == 0 ? i + 1.0 : shape == 1 ? 1.0 / (i + 1) : 1.0; in.data.push_back({x, 0.0, i}); in.weights.push_back(1.0); }
    run(in, mc::pick(std::vector<int>{10, 20}), 1 + mc::choose(mc::by_tier(13, 40)), false, 0);
  }, 2);
  if (thorough()) { scenario("5 weighted items", [=] { small(5, three, {0.0, 1.0, 2.5}, {0}, 3); }, 4); scenario("5 items in the plane", [=] { small(5, plane, {}, {0, 2}, 3); }, 5); }
}
