// N15: printing of containers and of vectors, matrices and transforms.
#include "mc.hpp"
#include <array>
#include <cmath>
#include <limits>
#include <memory>
#include <sstream>
#include <vector>
#include <common_robotics_utilities/print.hpp>
#include <common_robotics_utilities/simple_graph.hpp>
namespace cru = common_robotics_utilities;
using cru::print::Print;
MC_HARNESS("N15", "every container kind x every content of up to three elements over small alphabets (also nested two and three deep) x separators x with and without delimiters, against a recursive definition; "
                  "vectors, matrices, quaternions and transforms over grids, read back from the text; a state is a distinct (text)")
using mc::str; using mc::choose; using mc::pick;
namespace
{
struct Named { std::string name; bool operator<(const Named& o) const { return name < o.name; } bool operator==(const Named& o) const { return name == o.name; } };
std::ostream& operator<<(std::ostream& o, const Named& n) { return o << n.name; }
struct NamedHash { size_t operator()(const Named& n) const { return std::hash<std::string>()(n.name); } };

// the definition
std::string text(int v, bool, const std::string&) { return std::to_string(v); }
std::string text(bool v, bool, const std::string&) { return v ? "true" : "false"; }
std::string text(uint8_t v, bool, const std::string&) { return std::to_string(int(v)); }
std::string text(const std::string& v, bool, const std::string&) { return v; }
std::string text(const Named& v, bool, const std::string&) { return v.name; }
template<typename A, typename B> std::string text(const std::pair<A, B>& p, bool d, const std::string& s);
template<typename C> std::string all(const C& c, const char* open, const char* close, bool d, const std::string& s);
#define SEQUENCE(...) template<typename T> std::string text(const __VA_ARGS__& c, bool d, const std::string& s)
SEQUENCE(std::vector<T>); SEQUENCE(std::list<T>); SEQUENCE(std::forward_list<T>); SEQUENCE(std::deque<T>); SEQUENCE(std::set<T>); SEQUENCE(std::multiset<T>); SEQUENCE(std::unordered_set<T>); SEQUENCE(std::unordered_multiset<T>);
template<typename T, size_t N> std::string text(const std::array<T, N>& c, bool d, const std::string& s);
template<typename A, typename B> std::string text(const std::map<A, B>& c, bool d, const std::string& s);
template<typename A, typename B> std::string text(const std::multimap<A, B>& c, bool d, const std::string& s);
template<typename A, typename B> std::string text(const std::unordered_map<A, B>& c, bool d, const std::string& s);
template<typename A, typename B> std::string text(const std::unordered_multimap<A, B>& c, bool d, const std::string& s);
template<typename A, typename B> std::string text(const std::pair<A, B>& p, bool d, const std::string& s)
{ const std::string inner = text(p.first, d, s) + ": " + text(p.second, d, s); return d ? "<" + inner + ">" : inner; }
template<typename C> std::string all(const C& c, const char* open, const char* close, bool d, const std::string& s)
{
  std::string t; bool any = false;
  for (const auto& x : c) { if (any) t += s; any = true; t += text(typename C::value_type(x), d, s); }
  return any && d ? open + t + close : t;
}
SEQUENCE(std::vector<T>) { return all(c, "[", "]", d, s); }
SEQUENCE(std::list<T>) { return all(c, "[", "]", d, s); }
SEQUENCE(std::forward_list<T>) { return all(c, "[", "]", d, s); }
SEQUENCE(std::deque<T>) { return all(c, "[", "]", d, s); }
SEQUENCE(std::set<T>) { return all(c, "(", ")", d, s); }
SEQUENCE(std::multiset<T>) { return all(c, "(", ")", d, s); }
SEQUENCE(std::unordered_set<T>) { return all(c, "(", ")", d, s); }
SEQUENCE(std::unordered_multiset<T>) { return all(c, "(", ")", d, s); }
template<typename T, size_t N> std::string text(const std::array<T, N>& c, bool d, const std::string& s) { return all(c, "[", "]", d, s); }
template<typename A, typename B> std::string text(const std::map<A, B>& c, bool d, const std::string& s) { return all(c, "{", "}", d, s); }
template<typename A, typename B> std::string text(const std::multimap<A, B>& c, bool d, const std::string& s) { return all(c, "{", "}", d, s); }
template<typename A, typename B> std::string text(const std::unordered_map<A, B>& c, bool d, const std::string& s) { return all(c, "{", "}", d, s); }
template<typename A, typename B> std::string text(const std::unordered_multimap<A, B>& c, bool d, const std::string& s) { return all(c, "{", "}", d, s); }

template<typename C> void check(const C& c, bool empty)
{
  const bool d = mc::flip(); const std::string s = pick(std::vector<std::string>{", ", ";", "", " | "});
  const std::string t = Print(c, d, s), should = text(c, d, s); mc::transition();
  mc::note(t); mc::Hash h; h.add(t); mc::state(h.h);
  if (empty && (t == "" || (d && t.size() == 2))) return;   // an empty container may or may not show its brackets
  if (t != should) mc::fail(str("printed '", t, "', not '", should, "'"));
  if (!d && s == ", ") { const std::string plain = Print(c); mc::transition(); if (plain != t) mc::fail(str("printed '", plain, "' by default, not '", t, "'")); }
}
template<typename T> T value();
template<> int value<int>() { return pick(std::vector<int>{-7, 0, 12}); }
template<> bool value<bool>() { return mc::flip(); }
template<> uint8_t value<uint8_t>() { return pick(std::vector<uint8_t>{0, 65, 255}); }
template<> std::string value<std::string>() { return pick(std::vector<std::string>{"", "a", "b, c"}); }
template<> Named value<Named>() { return Named{pick(std::vector<std::string>{"x", "yy"})}; }
template<typename C> C sequence(int most)
{ C c; const int n = choose(most + 1); for (int i = 0; i < n; i++) c.insert(c.end(), value<typename C::value_type>()); return c; }
template<typename C> C mapping(int most)
{ C c; const int n = choose(most + 1); for (int i = 0; i < n; i++) { auto k = value<typename C::key_type>(); auto v = value<typename C::mapped_type>(); c.insert({k, v}); } return c; }
template<typename C> void sequences(const char* name, int most = 3) { mc::scenario(name, [=] { const C c = sequence<C>(most); check(c, c.empty()); }); }
template<typename C> void mappings(const char* name, int most = 3) { mc::scenario(name, [=] { const C c = mapping<C>(most); check(c, c.empty()); }); }
/// The numbers in a text, after its title.
std::vector<double> numbers(const std::string& t)
{
  std::vector<double> v; const size_t colon = t.find(':');
  for (const char* p = t.c_str() + (colon == std::string::npos ? 0 : colon + 1); *p;)
  {
    char* end = nullptr; const double x = std::strtod(p, &end);
    const bool starts = p == t.c_str() || !(std::isalpha(static_cast<unsigned char>(p[-1])));
    if (end != p && starts) { v.push_back(x); p = end; } else { p++; }
  }
  return v;
}
void readable(const std::string& t, const std::vector<double>& should)
{
  mc::transition(); mc::Hash h; h.add(t); mc::state(h.h); mc::note(t);
  const auto v = numbers(t);
  bool same = v.size() == should.size();
  for (size_t i = 0; same && i < v.size(); i++) same = v[i] == should[i] || std::abs(v[i] - should[i]) <= 1e-11 * std::abs(should[i]);
  if (!same) mc::fail(str("printed ", t, " for ", mc::vstr(should)));
}
}  // namespace
void mc::run()
{
  sequences<std::vector<int>>("vector"); sequences<std::vector<bool>>("vector of bool"); sequences<std::vector<uint8_t>>("bytes"); sequences<std::vector<std::string>>("strings"); sequences<std::vector<Named>>("streamed");
  sequences<std::list<int>>("list"); sequences<std::deque<Named>>("deque");
  sequences<std::set<int>>("set"); sequences<std::multiset<int>>("multiset"); sequences<std::unordered_set<int>>("hashed set"); sequences<std::unordered_multiset<int>>("hashed multiset");
  mappings<std::map<int, std::string>>("map"); mappings<std::multimap<int, bool>>("multimap"); mappings<std::unordered_map<int, uint8_t>>("hashed map"); mappings<std::unordered_multimap<int, bool>>("hashed multimap");
  mc::scenario("forward list", [] { const auto v = sequence<std::vector<int>>(3); const std::forward_list<int> c(v.begin(), v.end()); check(c, c.empty()); });
  mc::scenario("arrays and pairs", [] {
    switch (choose(4))
    {
      case 0: check(std::array<int, 1>{{value<int>()}}, false); break;
      case 1: { std::array<bool, 3> a; for (bool& b : a) b = value<bool>(); check(a, false); break; }
      case 2: { const int a = value<int>(); const bool b = value<bool>(); check(std::make_pair(a, b), false); break; }
      default: { const auto a = value<Named>(); const auto b = value<std::string>(), c = value<std::string>(); check(std::make_pair(a, std::make_pair(b, c)), false); }
    }
  });
  mc::scenario("long", [] {
    const int n = pick(std::vector<int>{4, 5, 8, 9, 10, 16, 17, 32, 33, 64, 100, 128, 129, 257, 1000, 1025}); std::vector<int> v; std::vector<std::string> w; std::map<int, std::string> m; std::vector<bool> bits; std::multiset<int> ms;
    for (int i = 0; i < n; i++) { const int x = (i * 7919) % 1009 - 500; v.push_back(x); w.push_back(std::string(size_t(i % 9), char('a' + i % 26))); m[x] = w.back(); bits.push_back(x % 3 == 0); ms.insert(x % 7); }
    switch (choose(10))
    {
      case 0: check(v, false); break;
      case 1: check(w, false); break;
      case 2: check(m, false); break;
      case 3: check(bits, false); break;
      case 4: check(ms, false); break;
      case 5: check(std::list<int>(v.begin(), v.end()), false); break;
      case 6: check(std::forward_list<int>(v.begin(), v.end()), false); break;
      case 7: check(std::unordered_set<int>(v.begin(), v.end()), false); break;
      case 8: check(std::unordered_map<int, std::string>(m.begin(), m.end()), false); break;
      default: check(std::deque<std::vector<int>>{v, v, {1}}, false);
    }
  });
  mc::scenario("nested", [] {
    std::vector<std::vector<int>> c; const int n = 1 + choose(3); for (int i = 0; i < n; i++) { std::vector<int> in; const int m = 1 + choose(2); for (int k = 0; k < m; k++) in.push_back(value<int>()); c.push_back(in); }
    check(c, false);
  }, 3);
  mc::scenario("nested in a map", [] {
    std::map<int, std::list<std::set<int>>> c; const int n = 1 + choose(2);
    for (int i = 0; i < n; i++)
    {
      std::list<std::set<int>> in; const int m = 1 + choose(2);
      for (int k = 0; k < m; k++) { std::set<int> s; const int q = 1 + choose(2); for (int j = 0; j < q; j++) s.insert(value<int>()); in.push_back(s); }
      c[i * 3 - 1] = in;
    }
    check(c, false);
  }, 3);
  mc::scenario("maps of pairs", [] {
    std::vector<std::pair<int, std::deque<bool>>> c; const int n = 1 + choose(2);
    for (int i = 0; i < n; i++) { std::deque<bool> in; const int m = 1 + choose(3); for (int k = 0; k < m; k++) in.push_back(mc::flip()); const int v = value<int>(); c.push_back({v, in}); }
    check(c, false);
  });
  static const std::vector<double> grid{0, -1.5, 3.14159265358979, 1e-9, -123456789.25, 1e20};
  mc::scenario("fixed vectors", [] {
    const double a = pick(grid), b = pick(grid), c = pick(grid), d = pick(grid);
    switch (choose(4))
    {
      case 0: readable(Print(Eigen::Vector2d(a, b)), {a, b}); break;
      case 1: readable(Print(Eigen::Vector3d(a, b, c)), {a, b, c}); break;
      case 2: readable(Print(Eigen::Vector4d(a, b, c, d)), {a, b, c, d}); break;
      default: readable(Print(Eigen::Quaterniond(a, b, c, d)), {b, c, d, a});
    }
  });
  mc::scenario("vectors and matrices", [] {
    const int r = choose(4), c = choose(3); std::vector<double> v;
    Eigen::MatrixXd m(r, c); for (int i = 0; i < r; i++) for (int k = 0; k < c; k++) { const double x = r * c <= 4 ? pick(grid) : grid[size_t(choose(2)) * 2 + 1]; m(i, k) = x; v.push_back(x); }
    readable(Print(m), v);
    if (c == 1) readable(Print(Eigen::VectorXd(m.col(0))), v);
  });
  mc::scenario("large vectors and matrices", [] {
    const int r = pick(std::vector<int>{5, 8, 9, 16, 33, 100}), c = pick(std::vector<int>{1, 2, 7, 16}); std::vector<double> v; Eigen::MatrixXd m(r, c);
    for (int i = 0; i < r; i++) for (int k = 0; k < c; k++) { m(i, k) = ((i * 31 + k * 17) % 101 - 50) * 0.37; v.push_back(m(i, k)); }
    readable(Print(m), v); if (c == 1) readable(Print(Eigen::VectorXd(m.col(0))), v);
  });
  mc::scenario("transforms", [] {
    const Eigen::Vector3d t(pick(grid), pick(grid), pick(grid)); Eigen::Vector3d axis(choose(3) - 1, choose(3) - 1, choose(3) - 1); if (axis.norm() == 0) axis.x() = 1;
    const double angle = pick(std::vector<double>{0, 0.5, -2, 3.1}); Eigen::Isometry3d x = Eigen::Isometry3d::Identity(); x.linear() = Eigen::AngleAxisd(angle, axis.normalized()).toRotationMatrix(); x.translation() = t;
    const std::string s = Print(x); mc::transition(); mc::Hash h; h.add(s); mc::state(h.h); mc::note(s);
    const auto v = numbers(s);
    if (v.size() != 7) mc::fail(str("printed ", s));
    for (int i = 0; i < 3; i++) if (std::abs(v[size_t(i)] - t[i]) > 1e-11 * std::abs(t[i])) mc::fail(str("printed ", s, " for ", t[i]));
    const Eigen::Quaterniond q(v[6], v[3], v[4], v[5]);
    if ((q.toRotationMatrix() - x.linear()).norm() > 1e-9) mc::fail(str("printed rotation ", s, " is another one"));
  });
  mc::scenario("graph nodes", [] {
    using namespace cru::simple_graph; Graph<int> g; const int n = 1 + choose(3); for (int i = 0; i < n; i++) g.AddNode(100 + i);
    std::string edges;
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b && mc::flip()) g.AddEdgeBetweenNodes(a, b, 2.5 + a);
    const std::string s = str(g); mc::transition(); mc::Hash h; h.add(s); mc::state(h.h); mc::note(s);
    for (int a = 0; a < n; a++)
    {
      const auto& node = g.GetNodeImmutable(a); const std::string own = str(node);
      if (s.find(own) == std::string::npos) mc::fail(str("graph printed as ", s, " without the node ", own));
      if (own.find(str(100 + a)) == std::string::npos) mc::fail(str("node printed as ", own, " without its value ", 100 + a));
      auto count = [&] (const std::string& part) { int k = 0; for (size_t p = own.find(part); p != std::string::npos; p = own.find(part, p + part.size())) k++; return k; };
      for (const auto& e : node.GetInEdgesImmutable()) if (count(str(e)) != 1) mc::fail(str("node printed as ", own, " without its edge ", str(e)));
      for (const auto& e : node.GetOutEdgesImmutable()) if (count(str(e)) != 1) mc::fail(str("node printed as ", own, " without its edge ", str(e)));
    }
  });
  mc::scenario("large graphs", [] {
    using namespace cru::simple_graph; const int n = pick(std::vector<int>{40, 300}), spokes = pick(std::vector<int>{9, 17, 33, n - 1}); const int hub = mc::flip() ? 0 : n - 1, way = choose(3); Graph<int> g(n); for (int i = 0; i < n; i++) g.AddNode(1000 + i);
    for (int i = 0; i < n && i <= spokes + 1; i++) if (i != hub) { if (way != 1) g.AddEdgeBetweenNodes(hub, i, 2.5 + i); if (way != 0) g.AddEdgeBetweenNodes(i, hub, 0.5 + i); }
    const std::string s = str(g); mc::transition(); mc::Hash h; h.add(s); mc::state(h.h); size_t from = 0;
    for (int a = 0; a < n; a++)
    {
      const auto& node = g.GetNodeImmutable(a); const std::string own = str(node); from = s.find(own);
      if (from == std::string::npos) mc::fail(str("graph of ", n, " nodes printed without node ", a));
      if (own.find(str(1000 + a)) == std::string::npos) mc::fail(str("node printed as ", own, " without its value ", 1000 + a));
      auto count = [&] (const std::string& part) { int k = 0; for (size_t p = own.find(part); p != std::string::npos; p = own.find(part, p + part.size())) k++; return k; };
      for (const auto& e : node.GetInEdgesImmutable()) if (count(str(e)) != 1) mc::fail(str("node with ", node.GetInEdgesImmutable().size(), " in edges printed without its edge ", str(e)));
      for (const auto& e : node.GetOutEdgesImmutable()) if (count(str(e)) != 1) mc::fail(str("node with ", node.GetOutEdgesImmutable().size(), " out edges printed without its edge ", str(e)));
    }
  });
}
