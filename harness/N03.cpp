// N03: Hausdorff distance and pairwise distance matrices.
#include "mc.hpp"
#include <deque>
#include <limits>
#include <common_robotics_utilities/math.hpp>
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
MC_HARNESS("N03", "every assignment of pairwise distances from an alphabet to small sets x distance function or matrix x serial and parallel, against the definitions; a state is a distinct distance assignment")
namespace hd = common_robotics_utilities::simple_hausdorff_distance;
namespace cm = common_robotics_utilities::math;
using common_robotics_utilities::parallelism::DegreeOfParallelism;
namespace
{
struct A { int i; }; struct B { int j; };
using VA = std::vector<A>; using DB = std::deque<B>;
const double kInf = std::numeric_limits<double>::infinity();
DegreeOfParallelism threads(const std::vector<int>& t) { const int n = mc::pick(t); return n == 0 ? DegreeOfParallelism::None() : DegreeOfParallelism(n); }
void sets(int rows, int cols, const std::vector<double>& alphabet, const std::vector<int>& parallel, const std::function<double(int, int)>& pattern = {})
{
  std::vector<double> d; for (int i = 0; i < rows * cols; i++) { d.push_back(pattern ? pattern(i / cols, i % cols) : mc::pick(alphabet)); } VA a; DB b; for (int i = 0; i < rows; i++) { a.push_back({i}); } for (int j = 0; j < cols; j++) { b.push_back({j}); }
  const auto at = [&](int i, int j) { return d[static_cast<size_t>(i * cols + j)]; }; double want = 0; for (int i = 0; i < rows; i++) { double least = kInf; for (int j = 0; j < cols; j++) { least = std::min(least, at(i, j)); } want = std::max(want, least); }
  const auto told = [&] { std::string s = mc::str("sets of ", rows, " and ", cols, " at"); for (double x : d) { s += mc::str(" ", x); } return s; };
  std::vector<int> asked(d.size(), 0);
  const std::function<double(const A&, const B&)> f = [&](const A& x, const B& y) { MC_CHECK(x.i >= 0 && x.i < rows && y.j >= 0 && y.j < cols, told(), ": distance of unknown items"); return at(x.i, y.j); };
  const DegreeOfParallelism p = threads(parallel); const int t = p.GetNumThreads();
  const double by_function = hd::ComputeDistance<A, B, VA, DB>(a, b, f, p); MC_CHECK(by_function == want, told(), ": distance ", by_function, " on ", t, " threads, not ", want);
  const Eigen::MatrixXd m = cm::BuildPairwiseDistanceMatrix<A, B, VA, DB>(a, b, f, p); MC_CHECK(m.rows() == rows && m.cols() == cols, told(), ": a matrix of ", m.rows(), "x", m.cols());
  for (int i = 0; i < rows; i++) { for (int j = 0; j < cols; j++) { MC_CHECK(m(i, j) == at(i, j), told(), ": entry ", i, ",", j, " is ", m(i, j), " on ", t, " threads"); } }
  const double by_matrix = hd::ComputeDistance<A, B, VA, DB>(a, b, m, p); MC_CHECK(by_matrix == want, told(), ": distance from the matrix ", by_matrix, " on ", t, " threads, not ", want);
  mc::transition(3); mc::state(mc::Hash().add(rows).addv(d).h); if (mc::want_note()) { mc::note(mc::str(told(), " -> ", want)); }
}
void same(int n, const std::vector<double>& alphabet, const std::vector<int>& parallel, const std::function<double(int, int)>& pattern = {})
{
  std::vector<std::vector<double>> d(static_cast<size_t>(n), std::vector<double>(static_cast<size_t>(n), 0.0)); std::vector<double> flat; for (size_t i = 0; i < d.size(); i++) { for (size_t j = i + 1; j < d.size(); j++) { d[i][j] = d[j][i] = pattern ? pattern(static_cast<int>(i), static_cast<int>(j)) : mc::pick(alphabet); flat.push_back(d[i][j]); } }
  VA a; for (int i = 0; i < n; i++) { a.push_back({i}); } const DegreeOfParallelism p = threads(parallel);
  const std::function<double(const A&, const A&)> f = [&](const A& x, const A& y) { return x.i == y.i ? 99.0 : d[static_cast<size_t>(x.i)][static_cast<size_t>(y.i)]; };
  const Eigen::MatrixXd m = cm::BuildPairwiseDistanceMatrix<A, VA>(a, f, p); MC_CHECK(m.rows() == n && m.cols() == n, "a matrix of ", m.rows(), "x", m.cols(), " for ", n, " items");
  for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) { MC_CHECK(m(i, j) == d[static_cast<size_t>(i)][static_cast<size_t>(j)], "distances of ", n, " items: entry ", i, ",", j, " is ", m(i, j), " on ", p.GetNumThreads(), " threads"); } }
  mc::transition(); mc::state(mc::Hash().add(100 + n).addv(flat).h);
}
void refuse()
{
  const int rows = mc::choose(4), cols = mc::choose(4), mr = mc::choose(4), mcols = mc::choose(4); VA a; DB b; for (int i = 0; i < rows; i++) { a.push_back({i}); } for (int j = 0; j < cols; j++) { b.push_back({j}); } const DegreeOfParallelism p = threads({0, 2});
  const Eigen::MatrixXd m = Eigen::MatrixXd::Constant(mr, mcols, 2.0); const bool empty = rows == 0 || cols == 0; double got = 2;
  int t = mc::throws([&] { got = hd::ComputeDistance<A, B, VA, DB>(a, b, m, p); }); MC_CHECK(t == (empty || mr != rows || mcols != cols ? 1 : 0) && got == 2, "sets of ", rows, " and ", cols, " with a ", mr, "x", mcols, " matrix ", t == 1 ? "refused" : mc::str("give ", got));
  t = mc::throws([&] { got = hd::ComputeDistance<A, B, VA, DB>(a, b, std::function<double(const A&, const B&)>([](const A&, const B&) { return 2.0; }), p); }); MC_CHECK(t == (empty ? 1 : 0) && got == 2, "sets of ", rows, " and ", cols, t == 1 ? " refused" : mc::str(" give ", got)); mc::transition();
}
}
void mc::run()
{
  scenario("sizes", [] { refuse(); });
  const std::vector<double> full{0, 1, 2, 5, kInf}, four{0, 1, 2, 5}, two{1, 2}, fractions{0.1, 1.0 / 3.0, 1.0 / 3.0 + 1e-12, 1e9 + 0.1};
  for (int r = 1; r <= 2; r++) { for (int c = 1; c <= 2; c++) { scenario(str("all ", r, "x", c), [=] { sets(r, c, full, {0, 2, 3}); }); } }
  scenario("all 1x5", [=] { sets(1, 5, four, {0, 2}); }, 3); scenario("all 5x1", [=] { sets(5, 1, four, {0, 2, 3, 8}); }, 3);
  scenario("all 2x3", [=] { sets(2, 3, full, {0, 2, 3}); }, 4); scenario("all 3x2", [=] { sets(3, 2, full, {0, 2, 3}); }, 4);
  scenario("all 3x3", [=] { sets(3, 3, thorough() ? four : std::vector<double>{0, 1, 5}, {0, 2, 3}); }, 4);
  scenario("all 2x3 of fractions", [=] { sets(2, 3, fractions, {0, 2}); }, 4); scenario("3 items at fractions", [=] { same(3, fractions, {0, 2}); }, 3);
  scenario("all 4x3", [=] { sets(4, 3, two, {0, 2, 3, 4}); }, 4); scenario("all 3x4", [=] { sets(3, 4, two, {0, 2}); }, 4);
  scenario("large sets", []
  {
    const std::vector<int> sizes{1, 2, 9, 40}; const int rows = mc::pick(sizes), cols = mc::pick(sizes), a = mc::pick(std::vector<int>{1, 5, 30}), b = mc::pick(std::vector<int>{3, 11}), q = mc::pick(std::vector<int>{2, 13, 1009}); const double unit = mc::pick(std::vector<double>{1.0, 0.1});
    const auto f = [=](int i, int j) { return unit * ((i * a + j * b + i * j) % q); }; if (rows == cols && mc::flip()) { same(rows, {}, {0, 2, 7, 16}, f); } else { sets(rows, cols, {}, {0, 2, 7, 16}, f); }
  }, 4);
  scenario("very large sets", []
  {
    const std::vector<int> sizes{3, 100, 257, by_tier(300, 900)}; const int rows = mc::pick(sizes), cols = mc::pick(sizes), at = mc::choose(4); const auto f = [=](int i, int j) { return i == (at % 2 ? rows - 1 : 0) ? 50.0 + (j == (at / 2 ? cols - 1 : 0) ? 0 : 7) : std::abs(i - j) * 0.1; };
    if (rows == cols && mc::flip()) { same(rows, {}, {0, 7}, f); } else { sets(rows, cols, {}, {0, 7}, f); }
  }, 3);
  for (int n = 0; n <= 3; n++) { scenario(str(n, " items"), [=] { same(n, full, {0, 2, 3}); }); } scenario("4 items", [=] { same(4, four, {0, 2, 3, 4}); }, 4); scenario("5 items", [=] { same(5, {1, 2, 3}, {0, 2, 5}); }, 4);
  if (thorough()) { scenario("all 4x4", [=] { sets(4, 4, two, {0, 2, 3}); }, 4); scenario("all 5x3", [=] { sets(5, 3, two, {0, 2, 3, 4}); }, 4); scenario("6 items", [=] { same(6, two, {0, 2, 4}); }, 4); }
}
