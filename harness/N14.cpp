// N14: Gaussian and truncated Gaussian functions and samplers.
#include "mc.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
#include <random>
#include <vector>
#include <common_robotics_utilities/gaussian_distributions.hpp>
namespace gd = common_robotics_utilities::gaussian_distributions;
MC_HARNESS("N14", "every mean, deviation and pair of bounds from a grid x every sequence of extreme generator outputs up to a depth (then an ordinary generator): each sample within the bounds after a bounded number of draws; "
                  "complete grids of generator outputs for the distribution of the samples; every value and pair of limits from a grid for the functions, against extended precision; a state is a distinct (parameters, samples)")
using mc::str; using mc::choose; using mc::pick;
namespace
{
using L = long double; using VD = std::vector<double>; using V = Eigen::VectorXd; using M = Eigen::MatrixXd;
const double inf = std::numeric_limits<double>::infinity(), kNaN = std::nan("");
L lower_tail(L x) { return 0.5L * erfcl(-x / sqrtl(2)); }
/// Probability of standard values between a and b.
L between(L a, L b) { return a > 0 ? lower_tail(-a) - lower_tail(-b) : lower_tail(b) - lower_tail(a); }

struct TooMany {};
/// Generator whose outputs are given first, chosen then, and ordinary after that.
struct Generator
{
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~uint64_t(0); }
  std::vector<uint64_t> script; int chosen = 0; const std::vector<uint64_t>* alphabet = nullptr; bool ordinary = true;
  std::mt19937_64 rest{12345}; long calls = 0, limit = 100000;
  uint64_t operator()()
  {
    const size_t n = size_t(calls++);
    if (calls > limit) throw TooMany();
    if (n < script.size()) return script[n];
    if (alphabet && n < script.size() + size_t(chosen)) return pick(*alphabet);
    if (!ordinary) throw TooMany();
    return rest();
  }
};
struct Parameters { double mean, sd, lower, upper; };
std::string show(const Parameters& p) { return str("mean ", p.mean, ", deviation ", p.sd, ", bounds ", p.lower, " to ", p.upper); }
Parameters parameters(const VD& means, const VD& sds, const VD& standard)
{
  Parameters p{pick(means), pick(sds), 0, 0}; const int n = int(standard.size());
  const int a = choose(n), b = a + choose(n - a);
  p.lower = p.mean + p.sd * standard[size_t(a)]; p.upper = p.mean + p.sd * standard[size_t(b)];
  if (p.lower == inf) p.lower = p.mean + p.sd * 1000;
  if (p.upper == -inf) p.upper = p.mean - p.sd * 1000;
  return p;
}
/// Samples for every sequence of generator outputs of a grid: (value, weight) of those finished within depth outputs.
template<typename F> L grid_samples(int cells, int depth, F&& use)
{
  L finished = 0; std::vector<int> at; L weight = 1;
  while (true)
  {
    Generator g; g.ordinary = false;
    for (int c : at) g.script.push_back(uint64_t((L(c) + 0.5L) / cells * 18446744073709551616.0L));
    bool done = true;
    try { use(g, weight); finished += weight; mc::transition(); } catch (const TooMany&) { done = false; }
    if (!done && int(at.size()) < depth) { at.push_back(0); weight /= cells; continue; }
    while (!at.empty() && at.back() == cells - 1) { at.pop_back(); weight *= cells; }
    if (at.empty()) break;
    at.back()++;
  }
  return finished;
}
void check_function(const char* what, L is, L should, L relative, L absolute, const std::string& where)
{
  mc::transition();
  if (!(fabsl(is - should) <= relative * fabsl(should) + absolute)) mc::fail(str(what, " of ", where, " is ", double(is), ", not ", double(should)));
}
}  // namespace
void mc::run()
{
  const VD standard = mc::thorough() ? VD{-inf, -1000, -41, -40, -5, -3, -2, -1, -1e-9, 0, 1e-9, 0.5, 1, 2, 2.2, 3, 8, 40, 41, 1000, inf} : VD{-inf, -1000, -41, -40, -3, -1, -1e-9, 0, 1e-9, 0.5, 2, 2.2, 3, 8, 40, 41, 1000, inf};
  static const std::vector<uint64_t> few{0, ~uint64_t(0), uint64_t(1) << 63, 1, 0xC000000000000000u, 0x2000000000000000u, 0x0000080000000000u};
  mc::scenario("samples stay within the bounds", [&] {
    const Parameters p = parameters({0, 5, -3.3}, mc::thorough() ? VD{1, 0.1, 7, 1e-3} : VD{1, 0.1, 7}, standard);
    gd::TruncatedGaussianDistribution d(p.mean, p.sd, p.lower, p.upper);
    Generator g; g.alphabet = &few; g.chosen = mc::by_tier(2, 4);
    mc::note(show(p)); mc::Hash h; h.add(p);
    for (int i = 0; i < 3; i++)
    {
      double x = 0; const long before = g.calls;
      try { x = d(g); } catch (const TooMany&) { mc::fail(str("sampling with ", show(p), " did not end within ", g.limit, " draws")); }
      mc::transition(); h.add(x);
      if (!(x >= p.lower && x <= p.upper)) mc::fail(str("sample ", i, " with ", show(p), " is ", x));
      if (g.calls - before > 5000) mc::fail(str("sampling with ", show(p), " took ", g.calls - before, " draws"));
    }
    mc::state(h.h);
  }, 3);
  mc::scenario("no deviation", [&] {
    const double lower = pick(VD{-inf, -2, 0, 1, 3}), upper = pick(VD{0, 1, 3, inf}), mean = pick(VD{-1, 0, 1, 2, 7});
    if (lower > upper) return;
    gd::TruncatedGaussianDistribution d(mean, 0, lower, upper); Generator g;
    const double x = d(g), y = std::min(std::max(mean, lower), upper); mc::transition(); mc::Hash h; h.add(lower).add(upper).add(mean); mc::state(h.h);
    if (x != y) mc::fail(str("sample around ", mean, " without deviation within ", lower, " to ", upper, " is ", x));
  });
  mc::scenario("distribution", [&] {
    const Parameters p = parameters({0, 5, 1e9 + 0.3}, {1, 0.25}, {-inf, -9, -8.5, -4, -1, -0.1, 0, 0.3, 0.3 + 1e-9, 2, 2.2, 2.6, 8.5, 9, inf});
    mc::note(show(p));
    const L a = (L(p.lower) - p.mean) / p.sd, b = (L(p.upper) - p.mean) / p.sd, all = between(a, b);
    if (!(b > a) || b < -39 || a > 39) return;
    // points that divide the probability in tenths
    std::vector<double> at; std::vector<L> share;
    for (int k = 1; k < 10; k++)
    {
      L lo = std::max(a, -40.0L), hi = std::min(b, 40.0L);
      for (int i = 0; i < 100; i++) { const L m = (lo + hi) / 2; (between(a, m) < all * k / 10 ? lo : hi) = m; }
      at.push_back(double(p.mean + p.sd * lo)); share.push_back(0);
    }
    const int cells = mc::by_tier(160, 400);
    gd::TruncatedGaussianDistribution fresh(p.mean, p.sd, p.lower, p.upper);
    const L finished = grid_samples(cells, 2, [&] (Generator& g, L w) {
      gd::TruncatedGaussianDistribution d = fresh; const double x = d(g);
      if (!(x >= p.lower && x <= p.upper)) mc::fail(str("a sample with ", show(p), " is ", x));
      for (size_t k = 0; k < at.size(); k++) if (x <= at[k]) share[k] += w; });
    mc::Hash h; h.add(p); mc::state(h.h);
    if (finished < 0.15L) return;   // sampled in some other way
    for (size_t k = 0; k < at.size(); k++)
      if (fabsl(share[k] / finished - L(k + 1) / 10) > 0.025L)
        mc::fail(str("of the samples with ", show(p), ", ", double(share[k] / finished), " are up to ", at[k], ", not ", double(k + 1) / 10));
  }, 4);
  mc::scenario("functions", [&] {
    const double mean = pick(VD{0, 5, -3.25}), sd = pick(VD{1, 0.125, 8, 1e-3}); mc::Hash h; h.add(mean).add(sd); 
    const VD grid{-inf, -38, -36.5, -20, -9, -8, -3, -1.5, -1, -0.5, -1e-3, 0, 1e-3, 0.5, 1, 1.25, 2, 4, 7, 8, 9, 20, 37, 38, inf};
    const double z = pick(grid), x = mean + sd * z; h.add(z); mc::state(h.h); const std::string where = str(x, " with mean ", mean, ", deviation ", sd);
    const L zz = (L(x) - mean) / sd;   // as rounded
    const L density = expl(-zz * zz / 2) / (sd * sqrtl(2 * acosl(-1)));
    check_function("distribution function", gd::EvaluateGaussianCDF(mean, sd, x), lower_tail(zz), 1e-9, 1e-310L, where);
    check_function("density", gd::EvaluateGaussianPDF(mean, sd, x), density, 1e-9, 1e-310L, where);
    for (double a : grid) for (double b : grid)
    {
      const double lower = mean + sd * a, upper = mean + sd * b; const std::string bounds = str(where, ", from ", lower, " to ", upper);
      const L la = (L(lower) - mean) / sd, lb = (L(upper) - mean) / sd, all = between(la, lb);
      if (lower > upper)
      {
        if (mc::throws([&] { gd::IntegrateGaussian(mean, sd, lower, upper); }) != 1) mc::fail("inverted limits accepted by IntegrateGaussian");
        if (mc::throws([&] { gd::EvaluateTruncatedGaussianCDF(mean, lower, upper, sd, x); }) != 1) mc::fail("inverted bounds accepted by EvaluateTruncatedGaussianCDF");
        if (mc::throws([&] { gd::EvaluateTruncatedGaussianPDF(mean, lower, upper, sd, x); }) != 1) mc::fail("inverted bounds accepted by EvaluateTruncatedGaussianPDF");
        if (mc::throws([&] { gd::IntegrateTruncatedGaussian(mean, lower, upper, sd, x, x); }) != 1) mc::fail("inverted bounds accepted by IntegrateTruncatedGaussian");
        if (mc::throws([&] { gd::IntegrateTruncatedGaussian(mean, -inf, inf, sd, lower, upper); }) != 1) mc::fail("inverted limits accepted by IntegrateTruncatedGaussian");
        continue;
      }
      // differences of nearby probabilities keep the digits of the greater one
      const L scale = std::max(between(la, inf) < lower_tail(lb) ? between(la, inf) : lower_tail(lb), all);
      check_function("probability", gd::IntegrateGaussian(mean, sd, lower, upper), all, 1e-9, 1e-310L + 1e-12L * scale, bounds);
      if (!(all > 1e-290L)) continue;
      const L slack = 1e-12L * scale / all;
      const double c = gd::EvaluateTruncatedGaussianCDF(mean, lower, upper, sd, x);
      const L right = x <= lower ? (x >= upper ? -1 : 0) : x >= upper ? 1 : between(la, zz) / all;
      if (!(c >= 0 && c <= 1)) mc::fail(str("truncated distribution function of ", bounds, " is ", c));
      if (right >= 0) check_function("truncated distribution function", c, right, 1e-9, slack, bounds);
      const double f = gd::EvaluateTruncatedGaussianPDF(mean, lower, upper, sd, x);
      if (x < lower || x > upper) { if (f != 0) mc::fail(str("truncated density of ", bounds, " is ", f)); }
      else if (x > lower && x < upper) check_function("truncated density", f, density / all, 1e-9L + slack, 1e-310L / all, bounds);
    }
    // probabilities of the truncated distribution between limits
    const VD some{-inf, -20, -3, -1, 0, 1.25, 4, 20, inf};
    for (double a : some) for (double b : some) for (double c : some) for (double d : some)
    {
      if (!(a < b) || c > d) continue;
      const double lower = mean + sd * a, upper = mean + sd * b, from = mean + sd * c, to = mean + sd * d; 
      const L la = (L(lower) - mean) / sd, lb = (L(upper) - mean) / sd, lo = std::max(la, (L(from) - mean) / sd), hi = std::min(lb, (L(to) - mean) / sd);
      check_function("truncated probability", gd::IntegrateTruncatedGaussian(mean, lower, upper, sd, from, to), hi > lo ? between(lo, hi) / between(la, lb) : 0, 1e-9, 1e-10,
                     str("mean ", mean, ", deviation ", sd, ", bounds ", lower, " to ", upper, ", from ", from, " to ", to));
    }
  }, 3);
  mc::scenario("refusals", [&] {
    const VD odd{kNaN, -inf, -1, 0, 1, inf}; const double mean = pick(odd), sd = pick(odd), lower = pick(odd), upper = pick(odd);
    const bool good = std::isfinite(mean) && sd >= 0 && sd < inf && lower <= upper && lower < inf && upper > -inf;
    const int r = mc::throws([&] { gd::TruncatedGaussianDistribution d(mean, sd, lower, upper); }); mc::transition();
    mc::Hash h; h.add(mean).add(sd).add(lower).add(upper); mc::state(h.h);
    if (r != (good ? 0 : 1)) mc::fail(str("truncated distribution with mean ", mean, ", deviation ", sd, ", bounds ", lower, " to ", upper, good ? " refused" : " accepted"));
  });
  mc::scenario("several dimensions", [&] {
    const int n = 1 + choose(3); const VD grid = n < 3 ? VD{0, 1, 2, -1, 0.25} : VD{0, 1, -1};
    M l = M::Zero(n, n); V mean(n);
    for (int i = 0; i < n; i++) { mean[i] = 3 * i - 1; for (int j = 0; j <= i; j++) l(i, j) = pick(grid); }
    const M covariance = l * l.transpose(); mc::Hash h; for (int i = 0; i < n * n; i++) h.add(covariance.data()[i]); mc::state(h.h);
    std::string name = str(n, " dimensions, covariance"); for (int i = 0; i < n * n; i++) name += str(" ", covariance.data()[i]);
    mc::note(name);
    const gd::MultivariteGaussianDistribution fresh(mean, covariance);
    const bool two = n == 1;   // also whether successive samples are independent
    const int cells = n < 3 ? 24 : mc::by_tier(8, 12);
    M second = M::Zero(n, n); V first = V::Zero(n); L cross = 0;
    const Eigen::SelfAdjointEigenSolver<M> eigen(covariance);
    const L finished = grid_samples(cells, n < 3 ? 2 : 4, [&] (Generator& g, L w) {
      gd::MultivariteGaussianDistribution d = fresh; const V x = d(g) - mean; if (two) { const V y = d(g) - mean; cross += w * x[0] * y[0]; }
      if (x.size() != n || !x.allFinite()) mc::fail(str("a sample in ", name, " is not finite"));
      for (int k = 0; k < n; k++)
        if (eigen.eigenvalues()[k] < 1e-12 && std::abs(eigen.eigenvectors().col(k).dot(x)) > 1e-5) mc::fail(str("a sample in ", name, " is outside of its support"));
      first += double(w) * x; second += double(w) * x * x.transpose(); });
    if (finished < 0.15L) return;
    first /= double(finished); second /= double(finished);
    const double size = std::sqrt(covariance.trace()), ratio = covariance.trace() > 0 ? second.trace() / covariance.trace() : 1;
    if (first.norm() > 0.02 * size) mc::fail(str("samples in ", name, " have another mean, off by ", first.norm()));
    if (ratio < 0.8 || ratio > 1.2) mc::fail(str("samples in ", name, " vary ", ratio, " times as much"));
    if ((second - ratio * covariance).norm() > 0.03 * covariance.trace()) mc::fail(str("samples in ", name, " have another covariance"));
    if (two && std::abs(double(cross / finished)) > 0.03 * covariance(0, 0)) mc::fail(str("successive samples in ", name, " depend on each other"));
  }, 4);
  mc::scenario("refused covariances", [&] {
    const int n = choose(4), r = choose(4), c = choose(4), odd = choose(3);
    M m = M::Identity(r, c); V mean = V::Zero(n);
    if (odd && r > 0 && c > 0) m(0, 0) = odd == 1 ? kNaN : inf;
    if (n == 0 && r == 0 && c == 0) return;
    const bool good = n == r && n == c && !odd; mc::Hash h; h.add(n).add(r).add(c).add(odd); mc::state(h.h); mc::transition();
    if (mc::throws([&] { gd::MultivariteGaussianDistribution d(mean, m); }) != (good ? 0 : 1)) mc::fail(str("mean of ", n, ", covariance of ", r, " by ", c, odd ? " with NaN or infinity" : "", good ? " refused" : " accepted"));
  });
}
