// N02: dynamic time warping.
#include "mc.hpp"
#include <cmath>
#include <deque>
#include <limits>
#include <common_robotics_utilities/simple_dtw.hpp>
MC_HARNESS("N02", "every distance matrix over an alphabet with ties for small sequences, and every sequence of reuses of one evaluator, against the minimum over all enumerated alignments; a state is a distinct (distance matrices)")
namespace dtw = common_robotics_utilities::simple_dtw;
namespace
{
struct A { int i; }; struct B { int j; };
using VA = std::vector<A>; using DB = std::deque<B>; using Matrix = std::vector<std::vector<double>>;
const double kInf = std::numeric_limits<double>::infinity();
/// Minimum over every monotone alignment, by walking all of them.
double best(const Matrix& m, size_t i, size_t j, double sum)
{
  sum += m[i][j]; const size_t r = m.size() - 1, c = m[0].size() - 1; if (i == r && j == c) { return sum; } double b = kInf;
  if (i < r) { b = std::min(b, best(m, i + 1, j, sum)); } if (j < c) { b = std::min(b, best(m, i, j + 1, sum)); } if (i < r && j < c) { b = std::min(b, best(m, i + 1, j + 1, sum)); } return b;
}
/// The same by dynamic programming from the ends, for larger sequences.
double best_large(const Matrix& m)
{
  const size_t r = m.size(), c = m[0].size(); Matrix b(r, std::vector<double>(c, kInf));
  for (size_t i = r; i-- > 0;) { for (size_t j = c; j-- > 0;) { double rest = i + 1 == r && j + 1 == c ? 0.0 : kInf; if (i + 1 < r) { rest = std::min(rest, b[i + 1][j]); } if (j + 1 < c) { rest = std::min(rest, b[i][j + 1]); } if (i + 1 < r && j + 1 < c) { rest = std::min(rest, b[i + 1][j + 1]); } b[i][j] = m[i][j] + rest; } }
  return b[0][0];
}
Matrix draw(int rows, int cols, const std::vector<double>& alphabet) { Matrix m(static_cast<size_t>(rows), std::vector<double>(static_cast<size_t>(cols))); for (auto& r : m) { for (double& x : r) { x = mc::pick(alphabet); } } return m; }
std::string text(const Matrix& m) { std::string s; for (const auto& r : m) { s += " ["; for (double x : r) { s += mc::str(" ", x); } s += " ]"; } return s; }
void compare(const Matrix& m, const std::function<double(const VA&, const DB&, const std::function<double(const A&, const B&)>&)>& run, const std::string& note)
{
  VA a; DB b; for (size_t i = 0; i < m.size(); i++) { a.push_back({static_cast<int>(i)}); } for (size_t j = 0; j < m[0].size(); j++) { b.push_back({static_cast<int>(j)}); }
  const double got = run(a, b, [&](const A& x, const B& y) { MC_CHECK(x.i >= 0 && y.j >= 0 && static_cast<size_t>(x.i) < m.size() && static_cast<size_t>(y.j) < m[0].size(), "distance of unknown items"); return m[static_cast<size_t>(x.i)][static_cast<size_t>(y.j)]; });
  const double want = m.size() + m[0].size() > 10 ? best_large(m) : best(m, 0, 0, 0.0); MC_CHECK(got == want || std::abs(got - want) <= 1e-12 * std::max(1.0, want), note, "warping cost of distances", text(m), " is ", got, ", not ", want); mc::transition();
  if (mc::want_note()) { mc::note(mc::str(note, text(m), " -> ", got)); }
}
uint64_t hash(const Matrix& m) { mc::Hash h; h.add(m.size()).add(m[0].size()); for (const auto& r : m) { h.addv(r); } return h.h; }
void once(int rows, int cols, const std::vector<double>& alphabet)
{
  const Matrix m = draw(rows, cols, alphabet); mc::state(hash(m)); compare(m, [](const VA& a, const DB& b, const auto& f) { return dtw::EvaluateWarpingCost<A, B, VA, DB>(a, b, f); }, "");
}
void reuse(int uses, int largest, const std::vector<int>& made)
{
  const int how = mc::flip() ? 1 : 0; int r0 = 0, c0 = 0; if (how) { r0 = mc::pick(made); c0 = mc::pick(made); }
  dtw::SimpleDTW<A, B, VA, DB> e = how ? dtw::SimpleDTW<A, B, VA, DB>(r0, c0) : dtw::SimpleDTW<A, B, VA, DB>(); std::string note = how ? mc::str("evaluator for ", r0, "x", c0, ": ") : std::string("evaluator: ");
  const std::vector<Matrix> patterns3{{{1, 2, 4}, {8, 1, 2}, {4, 8, 3}}, {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, {{5, 1, 1}, {1, 5, 1}, {1, 1, 5}}};
  mc::Hash h; h.add(how).add(r0).add(c0);
  for (int u = 0; u < uses; u++)
  {
    const int rows = 1 + mc::choose(largest), cols = 1 + mc::choose(largest); const bool refused = u + 1 < uses && mc::flip();
    if (refused)
    {
      VA a; DB b; if (mc::flip()) { a.push_back({0}); } else { b.push_back({0}); } const int t = mc::throws([&] { e.EvaluateWarpingCost(a, b, [](const A&, const B&) { mc::fail("distance asked"); return 0.0; }); }); MC_CHECK(t == 1, note, "empty sequence accepted"); note += "refused, ";
    }
    const Matrix& p = mc::pick(patterns3); Matrix m(static_cast<size_t>(rows), std::vector<double>(static_cast<size_t>(cols)));
    for (int i = 0; i < rows; i++) { for (int j = 0; j < cols; j++) { m[static_cast<size_t>(i)][static_cast<size_t>(j)] = p[static_cast<size_t>(i % 3)][static_cast<size_t>((j + i / 3) % 3)]; } }
    compare(m, [&](const VA& a, const DB& b, const auto& f) { return e.EvaluateWarpingCost(a, b, f); }, note); note += mc::str(rows, "x", cols, ", "); h.add(hash(m)); mc::state(h.h);
  }
}
void refuse()
{
  const int rows = mc::choose(3), cols = mc::choose(3); VA a(static_cast<size_t>(rows)); DB b(static_cast<size_t>(cols)); const int t = mc::throws([&] { dtw::EvaluateWarpingCost<A, B, VA, DB>(a, b, [](const A&, const B&) { return 1.0; }); });
  MC_CHECK(t == (rows == 0 || cols == 0 ? 1 : 0), "sequences of ", rows, " and ", cols, t == 1 ? " refused" : " accepted"); mc::transition();
}
}
void mc::run()
{
  scenario("sizes", [] { refuse(); });
  const std::vector<double> full{0, 1, 2, 5, kInf}, four{0, 1, 2, 5}, three{0, 1, 3}, two{0, 1}, odd{1, 2};
  for (int r = 1; r <= 2; r++) { for (int c = 1; c <= 2; c++) { scenario(str("all ", r, "x", c), [=] { once(r, c, full); }); } }
  scenario("all 1x5", [=] { once(1, 5, four); }, 3); scenario("all 5x1", [=] { once(5, 1, four); }, 3);
  scenario("all 2x3", [=] { once(2, 3, full); }, 4); scenario("all 3x2", [=] { once(3, 2, full); }, 4);
  scenario("all 3x3", [=] { once(3, 3, four); }, 4);
  const std::vector<double> odd_thirds{0.1, 1.0 / 3.0, 1e6 + 0.1}, close{1.0, 1.0 + 1e-9, 1.0 - 1e-9};
  scenario("all 3x3 of fractions", [=] { once(3, 3, odd_thirds); }, 4); scenario("all 3x3 nearly equal", [=] { once(3, 3, close); }, 4);
  scenario("all 3x4", [=] { once(3, 4, two); }, 4); scenario("all 4x3", [=] { once(4, 3, two); }, 4);
  scenario("all 4x3 over three", [=] { once(4, 3, three); }, 4); scenario("all 4x4", [=] { once(4, 4, odd); }, 4);
  scenario("large", []
  {
    const bool keep = mc::flip(); const std::vector<int> sizes = keep ? std::vector<int>{2, 33, 60} : std::vector<int>{1, 2, 7, 33, 70}; dtw::SimpleDTW<A, B, VA, DB> e;
    for (int u = 0; u < (keep ? 3 : 1); u++)
    {
      const int rows = mc::pick(sizes), cols = mc::pick(sizes), a = keep ? 5 : mc::pick(std::vector<int>{1, 5}), b = mc::pick(std::vector<int>{3, 11}), q = keep ? 13 : mc::pick(std::vector<int>{2, 13}); const double unit = keep ? 0.1 : mc::pick(std::vector<double>{1.0, 1.0 / 3.0}); Matrix m;
      for (int i = 0; i < rows; i++) { m.emplace_back(); for (int j = 0; j < cols; j++) { m.back().push_back(unit * ((i * a + j * b + i * j) % q)); } }
      mc::state(mc::Hash().add(u).add(rows).add(cols).add(a).add(b).add(q).add(unit).h); compare(m, [&](const VA& x, const DB& y, const auto& f) { return keep ? e.EvaluateWarpingCost(x, y, f) : dtw::EvaluateWarpingCost<A, B, VA, DB>(x, y, f); }, "large: ");
    }
  }, 4);
  scenario("long", []
  {   // the cheapest alignment runs along two edges of the table, along a staircase or anywhere
    const int rows = mc::pick(std::vector<int>{1, 9, 40, 257, by_tier(300, 1100)}), cols = mc::pick(std::vector<int>{1, 10, 64, 256, by_tier(310, 1000)}), kind = mc::choose(6); Matrix m;
    for (int i = 0; i < rows; i++)
    {
      m.emplace_back();
      for (int j = 0; j < cols; j++)
      {
        const bool free = kind == 0 ? i == 0 || j == cols - 1 : kind == 1 ? j == 0 || i == rows - 1 : kind == 2 ? (i / 7) % 2 == 0 ? j % 14 < 3 || i % 7 == 6 : i % 7 == 6 || j % 14 > 10 : kind == 3 ? i == rows / 2 || (i < rows / 2 ? j == 0 : j == cols - 1) : kind == 4 ? j == cols / 2 || (j < cols / 2 ? i == 0 : i == rows - 1) : false;
        m.back().push_back(kind == 5 ? std::abs(i - j) * 0.25 + (i * 5 + j * 3) % 11 : free ? 0.125 : 3);
      }
    }
    mc::state(mc::Hash().add(rows).add(cols).add(kind).h); compare(m, [](const VA& x, const DB& y, const auto& f) { return dtw::EvaluateWarpingCost<A, B, VA, DB>(x, y, f); }, "long: ");
  }, 3);
  scenario("2 uses", [] { reuse(2, 5, {0, 1, 3, 5}); }, 4); scenario("3 uses", [] { reuse(3, 3, thorough() ? std::vector<int>{0, 2, 4} : std::vector<int>{3}); }, 4);
  if (thorough())
  {
    scenario("all 3x3 over five", [=] { once(3, 3, full); }, 4); scenario("all 2x5", [=] { once(2, 5, four); }, 4); scenario("all 3x5", [=] { once(3, 5, three); }, 4); scenario("all 4x5", [=] { once(4, 5, two); }, 4);
    scenario("3 uses, larger", [] { reuse(3, 5, {0, 1, 5}); }, 4); scenario("4 uses", [] { reuse(4, 2, {0, 1, 3}); }, 4);
  }
}
