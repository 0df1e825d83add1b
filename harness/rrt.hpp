// Shared by the tree planner harnesses.
#pragma once
#include "mc.hpp"
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
namespace cru = common_robotics_utilities;
namespace rrt = common_robotics_utilities::simple_rrt_planner;
using Tree = rrt::SimpleRRTPlannerTree<int>;
using Path = std::vector<int>;

/// What the tree ought to be.
struct Model { std::vector<int> values; std::vector<int64_t> parents; };
inline std::string text(const Model& m) { return mc::vstr(m.values) + " under " + mc::vstr(m.parents); }
inline Model read(const Tree& t, const std::string& what)
{
  Model m; MC_CHECK(Tree::CheckNodeLinkage(t.GetNodesImmutable()), what, ": the tree is not consistently linked");
  std::multiset<std::pair<int64_t, int64_t>> down, up;
  for (int64_t i = 0; i < t.Size(); i++)
  {
    const auto& n = t.GetNodeImmutable(i); m.values.push_back(n.GetValueImmutable()); m.parents.push_back(std::max<int64_t>(-1, n.GetParentIndex()));
    if (n.GetParentIndex() >= 0) { up.emplace(n.GetParentIndex(), i); MC_CHECK(n.GetParentIndex() < i, what, ": node ", i, " has parent ", n.GetParentIndex()); }
    for (int64_t c : n.GetChildIndices()) { down.emplace(i, c); }
  }
  MC_CHECK(down == up, what, ": parent and child links disagree in ", text(m));
  return m;
}
inline bool same(const Model& a, const Model& b) { return a.values == b.values && a.parents == b.parents; }
inline Path to_root(const Model& m, int64_t i) { Path p; while (i >= 0) { p.push_back(m.values.at(static_cast<size_t>(i))); i = m.parents.at(static_cast<size_t>(i)); } std::reverse(p.begin(), p.end()); return p; }
inline std::string text(const std::vector<Path>& ps) { std::string s; for (const auto& p : ps) { s += mc::vstr(p); } return s; }

/// Initial forests: parents of each node.
inline std::vector<std::vector<int64_t>> forests(int most)
{
  std::vector<std::vector<int64_t>> out, now{{-1}};
  for (int n = 1; n <= most; n++)
  {
    out.insert(out.end(), now.begin(), now.end()); std::vector<std::vector<int64_t>> next;
    for (const auto& f : now) { for (int64_t p = -1; p < n; p++) { auto g = f; g.push_back(p); next.push_back(g); } }
    now = std::move(next);
  }
  return out;
}
inline Tree plant(const std::vector<int64_t>& parents, int base)
{
  Tree t; for (size_t i = 0; i < parents.size(); i++) { if (parents[i] < 0) { t.AddNode(base + static_cast<int>(i)); } else { t.AddNodeAndConnect(base + static_cast<int>(i), parents[i]); } }
  return t;
}
/// Relative parents of a propagation; well formed ones first.
inline std::vector<std::vector<int64_t>> propagations(bool wide)
{
  std::vector<std::vector<int64_t>> v{{}, {-1}, {-1, 0}, {-1, -1}};
  if (wide) { for (auto p : std::vector<std::vector<int64_t>>{{-2}, {-1, 0, 1}, {-1, 0, 0}, {-1, -1, 0}, {-1, 0, -1}, {-1, -1, 1}, {-1, -1, -1}}) { v.push_back(p); } }
  return v;
}
inline std::vector<std::vector<int64_t>> bad_propagations() { return {{0}, {1}, {-1, 1}, {-1, 2}, {-1, 0, 2}, {-1, 0, 7}}; }

/// Relative parents of a long propagation.
inline std::vector<int64_t> long_propagation(int shape, int count)
{
  std::vector<int64_t> v;
  for (int i = 0; i < count; i++) { v.push_back(i == 0 || shape == 1 ? -1 : shape == 0 ? i - 1 : shape == 2 ? i / 2 : shape == 3 ? std::max(0, i - 1 - (i % 3) * 40) : (i % 7 == 0 ? -2 - i : i - 1)); }
  return v;
}
inline Tree chain(int count, int base) { Tree t(count); for (int i = 0; i < count; i++) { if (i == 0) { t.AddNode(base); } else { t.AddNodeAndConnect(base + i, i - 1); } } return t; }
/// The tree is a chain of `size` nodes with `added` (parents and values) after it.
inline void check_large(const Tree& t, int base, int size, const std::vector<std::pair<int64_t, int>>& added, const std::string& what)
{
  MC_CHECK(t.Size() == size + static_cast<int64_t>(added.size()), what, ": the tree has ", t.Size(), " nodes"); std::vector<int64_t> children(static_cast<size_t>(t.Size()), 0);
  for (int64_t i = 0; i < t.Size(); i++)
  {
    const auto& n = t.GetNodeImmutable(i); const bool old = i < size; const int64_t parent = old ? i - 1 : added[static_cast<size_t>(i - size)].first; const int value = old ? base + static_cast<int>(i) : added[static_cast<size_t>(i - size)].second;
    MC_CHECK(n.GetParentIndex() == parent && n.GetValueImmutable() == value, what, ": node ", i, " is ", n.GetValueImmutable(), " under ", n.GetParentIndex(), ", expected ", value, " under ", parent);
    if (parent >= 0) { const auto& siblings = t.GetNodeImmutable(parent).GetChildIndices(); MC_CHECK(std::count(siblings.begin(), siblings.end(), i) == 1, what, ": node ", i, " is not a child of ", parent); children[static_cast<size_t>(parent)]++; }
  }
  for (int64_t i = 0; i < t.Size(); i++) { MC_CHECK(static_cast<int64_t>(t.GetNodeImmutable(i).GetChildIndices().size()) == children[static_cast<size_t>(i)], what, ": node ", i, " has ", t.GetNodeImmutable(i).GetChildIndices().size(), " children"); }
}
inline Path large_path(int base, int size, const std::vector<std::pair<int64_t, int>>& added, int64_t at)
{
  Path p; while (at >= 0) { const bool old = at < size; p.push_back(old ? base + static_cast<int>(at) : added[static_cast<size_t>(at - size)].second); at = old ? at - 1 : added[static_cast<size_t>(at - size)].first; }
  std::reverse(p.begin(), p.end()); return p;
}
