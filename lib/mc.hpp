// Bounded exhaustive explorer for sequential code.
//
// A harness is a set of scenarios. A scenario body is run again and again; every call of
// mc::choose(n) inside it is a branching point, and the explorer performs a depth-first
// enumeration of all choice sequences. The body drives the real code under test and a
// reference model and calls mc::fail()/MC_CHECK when they disagree.
//
// Every execution is reproducible from (scenario name, choice trail). The trail is mirrored
// into a memory-mapped flight recorder so that a crash or hang can be replayed too.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace mc
{
struct Fail { std::string message; };
struct Skip {};

enum class Tier { QUICK, THOROUGH };
Tier tier();
inline bool thorough() { return tier() == Tier::THOROUGH; }
/// Pick q in the quick tier, t in the thorough tier.
template<typename T> T by_tier(T q, T t) { return thorough() ? t : q; }

/// Branching point with n alternatives (n >= 1). Returns the chosen alternative.
int choose(int n);
inline bool flip() { return choose(2) == 1; }
template<typename T> const T& pick(const std::vector<T>& v)
{ return v[static_cast<size_t>(choose(static_cast<int>(v.size())))]; }

/// Branching point that never throws: in an execution that belongs to another shard it answers 0
/// and the execution simply runs to its end.
int choose_soft(int n);
/// Report a violation of the current execution and end the process (for deadlocks and the like).
[[noreturn]] void abort_with(const std::string& message);
/// True while an execution runs that another shard will count.
bool skipping();
int shard();

/// Enumerate all choice sequences of body.  split_depth = how many leading choices are used to
/// divide the work between shards.
void scenario(const std::string& name, const std::function<void()>& body, int split_depth = 2);

/// Record a violation of the property in the current execution and abandon the execution.
[[noreturn]] void fail(const std::string& message);
/// Record it without unwinding (for use inside callbacks of the code under test).
void fail_soft(const std::string& message);
bool failed();

/// True if the finding with this key is listed in known_findings.txt (and counts as seen).
bool known(const std::string& key);

/// Bookkeeping for evidence.
void state(uint64_t hash);        // a distinct state / observed outcome of the system
void transition(uint64_t n = 1);  // an operation performed on the real code
/// Text describing the current execution (shown in replays and samples).
void note(const std::string& text);
void clear_note();
bool want_note();                  // true if notes are being collected (replay or sampling)

/// Hash helper.
struct Hash
{
  uint64_t h = 1469598103934665603ULL;
  void bytes(const void* p, size_t n)
  { const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } }
  template<typename T> Hash& add(const T& t) { bytes(&t, sizeof t); return *this; }
  Hash& add(const std::string& s) { bytes(s.data(), s.size()); uint8_t z = 0; bytes(&z, 1); return *this; }
  template<typename T> Hash& addv(const std::vector<T>& v)
  { uint64_t n = v.size(); add(n); for (const T& t : v) add(t); return *this; }
};

template<typename... Args> std::string str(const Args&... args)
{ std::ostringstream o; o.precision(17); (void)std::initializer_list<int>{((o << args), 0)...}; return o.str(); }
template<typename T> std::string vstr(const T& v)
{ std::ostringstream o; o.precision(17); o << "["; bool f = true;
  for (const auto& x : v) { if (!f) o << ","; f = false; o << x; } o << "]"; return o.str(); }

/// Did calling f throw?  Returns 0 none, 1 std::exception, 2 other.  mc control flow passes through.
template<typename F> int throws(F&& f, std::string* what = nullptr)
{
  try { f(); return 0; }
  catch (const Fail&) { throw; }
  catch (const Skip&) { throw; }
  catch (const std::exception& e) { if (what) *what = e.what(); return 1; }
  catch (...) { if (what) *what = "non-standard exception"; return 2; }
}

/// Supplied by each harness.
extern const char* kProperty;
extern const char* kRule;
void run();
}  // namespace mc

#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#define MC_CHECK(cond, ...) \
  do { if (!(cond)) { ::mc::fail(::mc::str(__VA_ARGS__)); } } while (0)
#define MC_HARNESS(id, rule) \
  namespace mc { const char* kProperty = id; const char* kRule = rule; }
