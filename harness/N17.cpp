// N17: the distances that every robot model derives from its own.
#include "mc.hpp"
#include <cmath>
#include <memory>
#include <string>
#include <vector>
#include <common_robotics_utilities/simple_robot_model_interface.hpp>
namespace srm = common_robotics_utilities::simple_robot_model_interface; namespace m = common_robotics_utilities::math;
MC_HARNESS("N17", "every pair and sequence of configurations of models with straight and turning joints, and every answer of a model whose distances are arbitrary; a state is a distinct position, argument and answer")
using mc::str; using mc::pick; using mc::choose; using mc::transition;
namespace
{
using Vec = Eigen::VectorXd; using Config = std::vector<double>;
using Base = srm::SimpleRobotModelInterface<Config>;
/// Counts what it is asked; its distances are not symmetric.
class Model : public Base
{
public:
  Config at; Vec forced; bool use_forced = false; mutable Config first, second;
  explicit Model(const Config& c) : at(c) {}
  Model* Clone() const override { return new Model(*this); }
  const Config& GetPosition() const override { return at; }
  const Config& SetPosition(const Config& c) override { at = c; return at; }
  std::vector<std::string> GetLinkNames() const override { return {}; }
  Eigen::Isometry3d GetLinkTransform(const int64_t) const override { return Eigen::Isometry3d::Identity(); }
  Eigen::Isometry3d GetLinkTransform(const std::string&) const override { return Eigen::Isometry3d::Identity(); }
  m::VectorIsometry3d GetLinkTransforms() const override { return {}; }
  m::MapStringIsometry3d GetLinkTransformsMap() const override { return {}; }
  static double distance(const Config& a, const Config& b) { double d = 0; for (size_t i = 0; i < a.size(); i++) d += (b[i] > a[i] ? 1 : 2) * std::fabs(b[i] - a[i]) * double(i + 1); return d; }
  static Vec diff(const Config& a, const Config& b) { Vec v(Eigen::Index(a.size())); for (size_t i = 0; i < a.size(); i++) { double d = b[i] - a[i]; if (i % 2) d = std::remainder(d, 2 * M_PI); v(Eigen::Index(i)) = d > 0 ? d : 2 * d; } return v; }
  double ComputeConfigurationDistance(const Config& a, const Config& b) const override { first = a; second = b; return distance(a, b); }
  Vec ComputePerDimensionConfigurationSignedDistance(const Config& a, const Config& b) const override { first = a; second = b; return use_forced ? forced : diff(a, b); }
  Config InterpolateBetweenConfigurations(const Config& a, const Config&, const double) const override { return a; }
  Config AverageConfigurations(const std::vector<Config>& c) const override { return c.at(0); }
  Eigen::Matrix<double, 3, Eigen::Dynamic> ComputeLinkPointTranslationJacobian(const std::string&, const Eigen::Vector4d&) const override { return {}; }
  Eigen::Matrix<double, 6, Eigen::Dynamic> ComputeLinkPointJacobian(const std::string&, const Eigen::Vector4d&) const override { return {}; }
};
bool same(const Vec& a, const Vec& b) { if (a.size() != b.size()) return false; for (Eigen::Index i = 0; i < a.size(); i++) if (a(i) != b(i) && !(std::isnan(a(i)) && std::isnan(b(i)))) return false; return true; }
Vec magnitude(const Vec& v) { Vec r(v.size()); for (Eigen::Index i = 0; i < v.size(); i++) r(i) = std::fabs(v(i)); return r; }
std::string row(const Vec& v) { std::vector<double> s(v.data(), v.data() + v.size()); return mc::vstr(s); }
void expect(const Vec& got, const Vec& want, const char* what) { if (!same(got, want)) mc::fail(str(what, " is ", row(got), " not ", row(want))); }
/// Every derived distance of the model, from where it is.
void all(const Base& b, const Model& model, const Config& x, const Config& y)
{
  const Config here = model.at; transition(5);
  expect(b.ComputePerDimensionConfigurationDistance(x, y), magnitude(Model::diff(x, y)), "distance per dimension");
  expect(b.ComputePerDimensionConfigurationSignedDistanceTo(y), Model::diff(here, y), "signed distance per dimension from here");
  expect(b.ComputePerDimensionConfigurationDistanceTo(y), magnitude(Model::diff(here, y)), "distance per dimension from here");
  const double d = b.ComputeConfigurationDistanceTo(y); if (d != Model::distance(here, y)) mc::fail(str("distance from here is ", d, " not ", Model::distance(here, y)));
  const double own = b.ComputeConfigurationDistanceTo(b.GetPosition()); if (own != 0) mc::fail(str("distance to the position itself is ", own));
  if (model.at != here) mc::fail("measuring moves the robot");
}
}  // namespace
void mc::run()
{
  scenario("configurations", [] {
    const std::vector<double> grid{0.0, 1.0, -2.5, 3.0, -3.1, 1e-9, 1e12}; const int n = choose(by_tier(3, 4)); auto config = [&] { Config c; for (int i = 0; i < n; i++) c.push_back(pick(grid)); return c; };
    const Config here = config(), x = config(); Model model(here); all(model, model, x, here); all(model, model, here, x); Hash h; h.addv(here).addv(x); mc::state(h.h);
  });
  scenario("moves", [] {
    // The model moves between the questions, and so do its clones.
    const std::vector<Config> places{{0, 0}, {1, -3.1}, {-2, 3.1}}; Model model(places[0]); std::unique_ptr<Base> clone; Hash h;
    for (int step = by_tier(4, 6); step > 0; step--)
    {
      const int op = choose(8); h.add(op);
      if (op < 3) { model.SetPosition(places[size_t(op)]); all(model, model, places[2], places[1]); }
      else if (op < 6) all(model, model, places[0], places[size_t(op) - 3]);
      else if (op == 6) clone.reset(model.Clone());
      else if (clone) { const Model& c = static_cast<const Model&>(*clone); all(*clone, c, places[1], places[0]); clone->SetPosition(places[1]); all(*clone, c, places[1], places[2]); }
      else break;
    }
    mc::state(h.h);
  });
  scenario("answers", [] {
    // Whatever the model answers is what its magnitudes are of; each question is put with its configurations in order.
    const std::vector<double> grid{0.0, -0.0, 1.5, -1.5, 1e300, -1e300, -5e-324, INFINITY, -INFINITY, std::nan("")}; const int n = choose(by_tier(4, 5)); const bool from_here = flip();
    Model model({7.0}); model.use_forced = true; model.forced = Vec(n); for (int i = 0; i < n; i++) model.forced(i) = pick(grid);
    const Config x{1.0}, y{2.0}; transition(2);
    const Vec got = from_here ? model.ComputePerDimensionConfigurationDistanceTo(y) : model.ComputePerDimensionConfigurationDistance(x, y); expect(got, magnitude(model.forced), "distance per dimension");
    if (model.first != (from_here ? Config{7.0} : x) || model.second != y) mc::fail("the model is not asked for the distance of these configurations");
    if (from_here) { const Vec s = model.ComputePerDimensionConfigurationSignedDistanceTo(y); expect(s, model.forced, "signed distance"); if (model.first != Config{7.0} || model.second != y) mc::fail("the model is not asked for the signed distance from here"); }
    Hash h; for (int i = 0; i < n; i++) h.add(model.forced(i)); h.add(from_here); mc::state(h.h);
  });
  scenario("many joints", [] {
    const int n = pick(std::vector<int>{5, 6, 7, 8, 9, 16, 17, 33, 100, 1000}), at = choose(n < 40 ? n : 40); Config here, x; for (int i = 0; i < n; i++) { here.push_back(0.5 * i); x.push_back(0.5 * i); }
    x[size_t(at)] -= 0.75; Model model(here); all(model, model, x, here); all(model, model, here, x); x[size_t(n - 1 - at)] += 3; all(model, model, here, x); Hash h; h.add(n).add(at); mc::state(h.h);
  });
}
