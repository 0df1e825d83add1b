// C07: the operations that are run concurrently.
#pragma once
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "mc.hpp"
#include "mcs.hpp"
namespace together
{
/// An operation reads the shared object that make() builds and otherwise uses objects of its own.
struct Op { std::string name; std::shared_ptr<const void> (*make)(); std::string (*run)(const void*); };
std::vector<Op>& ops();
/// Called by the operations wherever the caller's code runs: other threads may run here, or another operation in the same thread.
void between();
template<typename T, T (*build)()> std::shared_ptr<const void> made() { return std::make_shared<const T>(build()); }
template<typename T, std::string (*f)(const T&)> std::string with(const void* p) { return f(*static_cast<const T*>(p)); }
/// 1 while the objects of an inner operation are made, which are to differ from those of the outer one.
int level();
struct Nothing { int level; }; inline Nothing nothing() { return {level()}; }
template<typename T, T (*build)(), std::string (*f)(const T&)> void op(const char* name) { ops().push_back({name, &made<T, build>, &with<T, f>}); }
/// A text of everything shifted into it.
class Text
{
  std::ostringstream o_;
public:
  Text() { o_.precision(17); }
  template<typename T> Text& operator<<(const T& t) { o_ << t << ' '; return *this; }
  template<typename T> Text& operator<<(const std::vector<T>& v) { o_ << v.size() << ": "; for (const T& t : v) { *this << t; } return *this; }
  Text& operator<<(uint8_t b) { o_ << int(b) << ' '; return *this; }
  operator std::string() const { return o_.str(); }
};
void register_graphs();
void register_values();
void register_planners();
}  // namespace together
