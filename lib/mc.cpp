#include "mc.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

#include <chrono>
#include <cstring>
#include <exception>
#include <unordered_set>

namespace mc
{
namespace
{
constexpr size_t kRecMax = 1 << 16;
struct FlightRecorder
{
  char magic[8];
  volatile uint64_t executions;
  volatile uint32_t in_execution;
  volatile uint32_t hang;
  char scenario[256];
  volatile uint32_t depth;
  uint16_t trail[kRecMax];
};

Tier g_tier = Tier::QUICK;
int g_shard = 0, g_nshards = 1;
double g_deadline = 1e18;
std::string g_out = "/dev/stdout";
std::string g_replay_scenario;
std::vector<int> g_replay_trail;
bool g_replaying = false;
bool g_replay_done = false;

FlightRecorder* g_rec = nullptr;
FlightRecorder g_dummy_rec;

struct Point { int chosen; int n; };
std::vector<Point> g_points;     // current DFS stack
size_t g_pos = 0;                // next point in this execution
int g_split_depth = 0;
uint64_t g_prefix_counter = 0;   // counts subtrees at split depth
bool g_prefix_skip = false;

bool g_failed = false;
std::string g_fail_msg;
bool g_skip = false;
bool g_collect_notes = false;
std::string g_note;

uint64_t g_executions = 0, g_transitions = 0, g_scenarios = 0, g_max_depth = 0;
std::unordered_set<uint64_t> g_states;
bool g_complete = true;
bool g_stop = false;
std::vector<std::string> g_samples;
std::chrono::steady_clock::time_point g_t0;

std::string esc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += static_cast<char>(c);
  }
  return o;
}

double elapsed()
{ return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

std::string trail_json(size_t depth)
{
  std::string s = "[";
  for (size_t i = 0; i < depth; i++) { if (i) s += ","; s += std::to_string(g_points[i].chosen); }
  return s + "]";
}

std::string g_violation;  // json
std::unordered_set<std::string> g_known, g_known_hits;
std::vector<std::pair<std::string, uint64_t>> g_per_scenario;

void write_report()
{
  FILE* f = fopen(g_out.c_str(), "w");
  if (!f) { perror("report"); _exit(2); }
  fprintf(f, "{\"executions\": %llu, \"transitions\": %llu, \"states\": %llu, \"scenarios\": %llu, "
             "\"max_depth\": %llu, \"complete\": %s, \"wall_s\": %.3f, \"rule\": \"%s\", \"samples\": [",
          (unsigned long long)g_executions, (unsigned long long)g_transitions,
          (unsigned long long)g_states.size(), (unsigned long long)g_scenarios,
          (unsigned long long)g_max_depth, g_complete ? "true" : "false", elapsed(), esc(kRule).c_str());
  for (size_t i = 0; i < g_samples.size(); i++)
    fprintf(f, "%s\"%s\"", i ? ", " : "", esc(g_samples[i]).c_str());
  fprintf(f, "], \"known_hits\": [");
  bool kf = true;
  for (const std::string& k : g_known_hits) { fprintf(f, "%s\"%s\"", kf ? "" : ", ", esc(k).c_str()); kf = false; }
  fprintf(f, "], \"extra\": {");
  for (size_t i = 0; i < g_per_scenario.size(); i++)
    fprintf(f, "%s\"%s\": %llu", i ? ", " : "", esc(g_per_scenario[i].first).c_str(), (unsigned long long)g_per_scenario[i].second);
  fprintf(f, "}%s%s}\n", g_violation.empty() ? "" : ", \"violation\": ", g_violation.c_str());
  fclose(f);
  if (g_out != "/dev/stdout")
  {
    f = fopen((g_out + ".states").c_str(), "wb");
    if (f)
    {
      const std::vector<uint64_t> v(g_states.begin(), g_states.end());
      if (!v.empty()) { (void)!fwrite(v.data(), 8, v.size(), f); }
      fclose(f);
    }
  }
}

volatile uint64_t g_tick_exec = 0;
volatile int g_ticks_same = 0;
int g_hang_ticks = 30;

void on_alarm(int)
{
  if (g_rec->in_execution && g_rec->executions == g_tick_exec)
  {
    if (++g_ticks_same >= g_hang_ticks) { g_rec->hang = 1; _exit(97); }
  }
  else { g_tick_exec = g_rec->executions; g_ticks_same = 0; }
}
}  // namespace

Tier tier() { return g_tier; }

static int choose_impl(int n, bool soft)
{
  if (n < 1) { fprintf(stderr, "mc::choose(%d)\n", n); abort(); }
  if (g_skip) { if (soft) { return 0; } throw Skip{}; }
  int chosen = 0;
  if (g_replaying)
  {
    chosen = g_pos < g_replay_trail.size() ? g_replay_trail[g_pos] : 0;
    if (chosen >= n) { fprintf(stderr, "replay diverged\n"); exit(3); }
    g_points.push_back({chosen, n});
    g_pos++;
  }
  else
  {
    if (g_pos == g_points.size()) g_points.push_back({0, n});
    else if (g_points[g_pos].n != n)
    { fprintf(stderr, "mc: nondeterminism: point %zu had %d alternatives, now %d\n", g_pos, g_points[g_pos].n, n);
      g_rec->hang = 2; _exit(98); }
    chosen = g_points[g_pos].chosen;
    g_pos++;
  }
  const size_t d = g_pos - 1;
  if (d < kRecMax) { g_rec->trail[d] = static_cast<uint16_t>(chosen); g_rec->depth = static_cast<uint32_t>(d + 1); }
  if (!g_replaying && static_cast<int>(g_pos) == g_split_depth && g_nshards > 1)
  {
    // Entering a subtree at split depth: new one if all deeper points are fresh.
    if (g_points.size() == g_pos)
    {
      // first execution in this subtree
      g_prefix_skip = (((g_prefix_counter++ * 0x9E3779B97F4A7C15ull) >> 33) % static_cast<uint64_t>(g_nshards)) != static_cast<uint64_t>(g_shard);
    }
    if (g_prefix_skip) { g_skip = true; if (soft) { return 0; } throw Skip{}; }
  }
  return chosen;
}
int choose(int n) { return choose_impl(n, false); }
int choose_soft(int n) { return choose_impl(n, true); }
bool skipping() { return g_skip; }
int shard() { return g_shard; }

void fail_soft(const std::string& message)
{ if (!g_failed) { g_failed = true; g_fail_msg = message; } }

void fail(const std::string& message) { fail_soft(message); throw Fail{message}; }
bool known(const std::string& key)
{ if (g_known.count(key)) { g_known_hits.insert(key); return true; } return false; }
void abort_with(const std::string& message)
{
  fail_soft(message);
  if (g_skip) { fail_soft("in a skipped execution"); }
  g_violation = "{\"scenario\": \"" + esc(g_rec->scenario) + "\", \"trail\": " + trail_json(g_pos) +
      ", \"message\": \"" + esc(g_fail_msg) + "\", \"note\": \"" + esc(g_note) + "\"}";
  if (g_replaying) { printf("REPLAY: violation reproduced: %s\n", g_violation.c_str()); fflush(stdout); }
  g_complete = false;
  write_report();
  _exit(1);
}
bool failed() { return g_failed; }
void state(uint64_t hash) { g_states.insert(hash); }
void transition(uint64_t n) { g_transitions += n; }
void note(const std::string& text)
{ if (g_collect_notes && g_note.size() < 6000) { if (!g_note.empty()) g_note += "; "; g_note += text; } }
void clear_note() { g_note.clear(); }
bool want_note() { return g_collect_notes; }

void scenario(const std::string& name, const std::function<void()>& body, int split_depth)
{
  if (g_stop) return;
  if (g_replaying && name != g_replay_scenario) return;
  g_scenarios++;
  if (g_per_scenario.size() < 200) { g_per_scenario.emplace_back(name, 0); }
  g_points.clear();
  g_split_depth = split_depth;
  snprintf(g_rec->scenario, sizeof g_rec->scenario, "%s", name.c_str());
  bool first = true;
  while (true)
  {
    g_pos = 0;
    g_failed = false;
    g_skip = false;
    g_fail_msg.clear();
    g_note.clear();
    g_rec->depth = 0;
    g_rec->in_execution = 1;
    const bool sample = !g_replaying && g_samples.size() < 6 &&
        (first || (g_executions & (g_executions - 1)) == 0);
    g_collect_notes = g_replaying || sample;
    first = false;
    try { body(); }
    catch (const Fail&) {}
    catch (const Skip&) {}
    catch (const std::exception& e) { fail_soft(std::string("unexpected exception: ") + e.what()); }
    catch (...) { fail_soft("unexpected non-standard exception"); }
    g_rec->in_execution = 0;
    // A scenario that ended before the split depth belongs to one shard only.
    if (!g_skip && !g_replaying && g_nshards > 1 && static_cast<int>(g_pos) < g_split_depth)
    {
      const bool mine = (((g_prefix_counter++ * 0x9E3779B97F4A7C15ull) >> 33) % static_cast<uint64_t>(g_nshards)) == static_cast<uint64_t>(g_shard);
      if (!mine) { g_skip = true; g_failed = false; }
    }
    if (!g_skip)
    {
      g_executions++;
      if (!g_per_scenario.empty() && g_per_scenario.back().first == name) { g_per_scenario.back().second++; }
      g_rec->executions = g_executions;
      if (g_pos > g_max_depth) g_max_depth = g_pos;
      if (sample && !g_note.empty() && g_samples.size() < 6) g_samples.push_back(name + ": " + g_note);
    }
    if (g_skip) { g_failed = false; }
    if (g_failed)
    {
      g_violation = "{\"scenario\": \"" + esc(name) + "\", \"trail\": " + trail_json(g_pos) +
          ", \"message\": \"" + esc(g_fail_msg) + "\", \"note\": \"" + esc(g_note) + "\"}";
      g_stop = true;
      return;
    }
    if (g_replaying) { g_replay_done = true; return; }
    // Backtrack.
    g_points.resize(g_pos);
    while (!g_points.empty() && g_points.back().chosen + 1 >= g_points.back().n) g_points.pop_back();
    if (g_points.empty()) return;
    g_points.back().chosen++;
    if ((g_executions & 63) == 0 && elapsed() > g_deadline) { g_complete = false; g_stop = true; return; }
  }
}
}  // namespace mc

int main(int argc, char** argv)
{
  using namespace mc;
  g_t0 = std::chrono::steady_clock::now();
  g_rec = &g_dummy_rec;
  for (int i = 1; i < argc; i++)
  {
    const std::string a = argv[i];
    auto next = [&]() -> std::string { if (i + 1 >= argc) exit(2); return argv[++i]; };
    if (a == "--tier") g_tier = (next() == "thorough") ? Tier::THOROUGH : Tier::QUICK;
    else if (a == "--shard") g_shard = atoi(next().c_str());
    else if (a == "--nshards") g_nshards = atoi(next().c_str());
    else if (a == "--deadline") g_deadline = atof(next().c_str());
    else if (a == "--out") g_out = next();
    else if (a == "--known")
    {
      const std::string t = next();
      size_t p = 0;
      while (p <= t.size()) { size_t q = t.find(',', p); if (q == std::string::npos) q = t.size();
        if (q > p) { g_known.insert(t.substr(p, q - p)); }
        p = q + 1; }
    }
    else if (a == "--hang") g_hang_ticks = atoi(next().c_str());
    else if (a == "--fr")
    {
      const int fd = open(next().c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if (fd < 0 || ftruncate(fd, sizeof(FlightRecorder)) != 0) { perror("fr"); return 2; }
      g_rec = static_cast<FlightRecorder*>(mmap(nullptr, sizeof(FlightRecorder), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
      memcpy(g_rec->magic, "MCFLREC", 8);
    }
    else if (a == "--replay")
    {
      // scenario then trail as comma separated list
      g_replaying = true;
      g_nshards = 1;
      g_replay_scenario = next();
      const std::string t = next();
      size_t p = 0;
      while (p < t.size()) { size_t q = t.find(',', p); if (q == std::string::npos) q = t.size();
        if (q > p) { g_replay_trail.push_back(atoi(t.substr(p, q - p).c_str())); }
        p = q + 1; }
    }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
#ifndef MC_NO_ALARM
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGALRM, &sa, nullptr);
  struct itimerval it;
  it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0;
  it.it_value = it.it_interval;
  setitimer(ITIMER_REAL, &it, nullptr);
#endif
  run();
  if (g_replaying && !g_replay_done && g_violation.empty())
  { fprintf(stderr, "replay: scenario not found\n"); return 3; }
  if (g_replaying)
  {
    if (!g_violation.empty()) printf("REPLAY: violation reproduced: %s\n", g_violation.c_str());
    else printf("REPLAY: no violation; %s\n", g_note.c_str());
  }
  write_report();
  return g_violation.empty() ? 0 : 1;
}
