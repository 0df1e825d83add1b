// Runtime of the controlled scheduler. Compiled without instrumentation.
#include "mcs.hpp"
#include "mc.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <future>
#include <map>
#include <memory>
#include <unordered_map>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
size_t malloc_usable_size(void*);
}

// The runtime's own copies are not those of the code under test.
asm("memcpy = __real_memcpy\nmemmove = __real_memmove\nmemset = __real_memset\nmemcmp = __real_memcmp");
extern "C" { void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t); }
namespace
{
constexpr int kMaxThreads = 32;
using VC = std::array<uint32_t, kMaxThreads>;
void vc_join(VC& a, const VC& b) { for (int i = 0; i < kMaxThreads; i++) { if (b[i] > a[i]) { a[i] = b[i]; } } }

struct Loop
{
  bool started = false; bool ull = false; bool up = true;
  long next = 0, end = 0, incr = 1, chunk = 1; unsigned long unext = 0, uend = 0, uincr = 1, uchunk = 1;
  int kind = 0;                    // 0 dynamic, 1 guided, 2 static
  std::vector<bool> given;         // static: which threads have had their piece
};
struct Team
{
  int n = 1; int arrived = 0; long generation = 0; VC barrier_vc{}; VC release_vc{};
  std::map<long, Loop> loops; std::map<long, bool> singles; std::map<long, long> sections; std::map<long, long> sections_total;
  void* copyprivate = nullptr;
};
struct Omp
{
  Team* team = nullptr; int num = 0, level = 0, active = 0, nthreads = 4, max_active = 1;
  long ws = -1; long singles = 0; long sections = -1;
  const Loop* dummy = nullptr;
};
enum State { READY, BLOCKED, DONE };
struct Thread
{
  int id = 0; State st = READY; const char* why = ""; const void* on = nullptr;
  VC clk{}; VC fence_acq{}; VC fence_rel{};
  std::atomic<int> go{0};
  bool yielded = false; bool omp_worker = false; bool notified = false; bool timed = false;
  bool joined = false, detached = false; int quiet = 0;
  pthread_t real{}; void* ret = nullptr; void* (*fn)(void*) = nullptr; void* arg = nullptr;
  long burst = 0;
  struct Seen { const void* a; uint64_t v; int n; }; std::array<Seen, 16> seen; int n_seen = 0; bool spinning = false;   // loads since the last own change
  Omp omp;
};
struct Mutex { int owner = -1; int count = 0; VC vc{}; };
struct Rw { int writer = -1; std::vector<int> readers; VC vc{}; };
struct Sem { int value = 0; VC vc{}; };
struct Atomic { VC rel{}; };

void changed();
struct Engine
{
  std::vector<std::unique_ptr<Thread>> threads, retired;
  std::unordered_map<const void*, Mutex> mutexes;
  std::unordered_map<const void*, Rw> rws;
  std::unordered_map<const void*, Sem> sems;
  std::unordered_map<const void*, VC> onces;
  std::unordered_map<const void*, Atomic> atomics;
  VC fence_sc{};
  std::vector<std::unique_ptr<Team>> teams;
  mcs::Options opt; int preempted = 0, failures = 0, spurious = 0; long points = 0;
};
Engine* E = nullptr;             // exists while an execution runs
bool active = false;
Thread* cur = nullptr;
int in_rt = 0;                   // inside the runtime or the explorer: nothing is intercepted
struct Rt { Rt() { in_rt++; } ~Rt() { in_rt--; } };
thread_local Thread* me = nullptr;
bool concurrent = false;         // more than one thread may touch memory

// ---------------------------------------------------------------- stacks
constexpr size_t kStack = 8 * 1024 * 1024;
char* stack_pool = nullptr;
uint32_t stack_gen[kMaxThreads];
uint32_t global_gen = 1;

// ---------------------------------------------------------------- shadow memory
struct Access { uint32_t clk; uint8_t tid, mask, kind; const void* pc; };   // kind: 1 write, 2 atomic, 4 freed
struct Cell { uintptr_t key; uint32_t gen; uint8_t n; Access a[14]; };
constexpr size_t kCells = 1 << 17;
Cell* cells = nullptr;
bool overflow = false;

uint32_t gen_of(uintptr_t a)
{
  const uintptr_t p = reinterpret_cast<uintptr_t>(stack_pool);
  if (a >= p && a < p + kStack * kMaxThreads) { return stack_gen[(a - p) / kStack]; }
  return global_gen;
}
Cell* find_cell(uintptr_t addr, bool make)
{
  const uintptr_t key = addr >> 3; const uint32_t g = gen_of(addr);
  size_t i = (key ^ (key >> 17)) & (kCells - 1);
  for (int k = 0; k < 64; k++, i = (i + 1) & (kCells - 1))
  {
    Cell& c = cells[i];
    if (c.key == key) { if (c.gen != g) { if (!make) { return nullptr; } c.gen = g; c.n = 0; } return &c; }
    if (c.key == 0 || c.gen + 0 != gen_of(c.key << 3))
    {
      // Free or stale. A live cell of this key cannot be further on unless the table had been fuller.
      if (!make) { if (c.key == 0) { return nullptr; } continue; }
      // make sure there is no later cell of this key
      size_t j = i;
      for (int q = k; q < 64; q++, j = (j + 1) & (kCells - 1))
      {
        if (cells[j].key == key) { if (cells[j].gen != g) { cells[j].gen = g; cells[j].n = 0; } return &cells[j]; }
        if (cells[j].key == 0) { break; }
      }
      c.key = key; c.gen = g; c.n = 0; return &c;
    }
  }
  overflow = true; return nullptr;
}
struct Range { uintptr_t lo, hi; };
Range ignored[64]; int n_ignored = 0;   // exception objects: their reference counts are invisible to us
bool is_ignored(uintptr_t a)
{ for (int i = 0; i < n_ignored; i++) { if (a >= ignored[i].lo && a < ignored[i].hi) { return true; } } return false; }

void report_race(const void* addr, const Access& old, const Access& now)
{
  if (mc::failed()) { return; }
  const Rt rt;
  auto kind = [](uint8_t k) { return (k & 2) ? ((k & 1) ? "atomic write" : "atomic read") : ((k & 1) ? "write" : "read"); };
  (void)addr;
  if (old.kind & 4)
  {
    mc::fail_soft(mc::str("USE AFTER FREE: ", kind(now.kind), " by thread ", static_cast<int>(now.tid), " at pc=", now.pc, " of memory released by thread ", static_cast<int>(old.tid), " at pc=", old.pc));
    return;
  }
  mc::fail_soft(mc::str("RACE: ", kind(now.kind), " by thread ", static_cast<int>(now.tid), " at pc=", now.pc, " conflicts with ", kind(old.kind), " by thread ",
                        static_cast<int>(old.tid), " at pc=", old.pc, " without synchronization"));
}
void access_cell(uintptr_t a8, uint8_t mask, uint8_t kind, const void* pc)
{
  if (n_ignored && is_ignored(a8)) { return; }
  Cell* c = find_cell(a8, true);
  if (!c) { return; }
  const Access now{me->clk[static_cast<size_t>(me->id)], static_cast<uint8_t>(me->id), mask, kind, pc};
  int keep = 0;
  for (int i = 0; i < c->n; i++)
  {
    const Access o = c->a[i];
    if (o.kind & 4) { if (o.mask & mask) { report_race(reinterpret_cast<void*>(a8), o, now); } c->a[keep++] = o; continue; }
    if (o.tid != now.tid)
    {
      const bool ordered = o.clk <= me->clk[o.tid];
      if (!ordered && (o.mask & mask) && ((o.kind | kind) & 1) && !((o.kind & 2) && (kind & 2)))
      { report_race(reinterpret_cast<void*>(a8), o, now); }
      // An ordered access covered by this write can be forgotten.
      if (ordered && (kind & 1) && !(kind & 2) && (o.mask & ~mask) == 0) { continue; }
    }
    else if ((o.mask & ~mask) == 0 && o.kind == kind) { continue; }
    c->a[keep++] = o;
  }
  if (keep >= 14) { memmove(&c->a[0], &c->a[1], 13 * sizeof(Access)); keep = 13; }
  c->a[keep++] = now; c->n = static_cast<uint8_t>(keep);
}
inline bool watching() { return concurrent && me && me->quiet == 0 && in_rt == 0; }
void access(const void* p, size_t n, uint8_t kind, const void* pc)
{
  if (!watching()) { return; }
  uintptr_t a = reinterpret_cast<uintptr_t>(p); const uintptr_t e = a + n;
  while (a < e)
  {
    const uintptr_t base = a & ~static_cast<uintptr_t>(7); const uintptr_t stop = std::min(e, base + 8);
    uint8_t mask = 0; for (uintptr_t x = a; x < stop; x++) { mask = static_cast<uint8_t>(mask | (1u << (x - base))); }
    access_cell(base, mask, kind, pc); a = stop;
  }
}
void forget(const void* p, size_t n)
{
  if (!concurrent) { return; }
  uintptr_t a = reinterpret_cast<uintptr_t>(p) & ~static_cast<uintptr_t>(7); const uintptr_t e = reinterpret_cast<uintptr_t>(p) + n;
  for (; a < e; a += 8) { Cell* c = find_cell(a, false); if (c) { c->n = 0; } }
}
void check_free(void* p, const void* pc)
{
  if (!watching()) { return; }
  const size_t n = malloc_usable_size(p); const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  for (uintptr_t x = a & ~static_cast<uintptr_t>(7); x < a + n; x += 8)
  {
    if (n_ignored && is_ignored(x)) { continue; }
    Cell* c = find_cell(x, n <= 4096);
    if (!c) { continue; }
    for (int i = 0; i < c->n; i++)
      if (c->a[i].tid != me->id && c->a[i].clk > me->clk[c->a[i].tid])
      { report_race(p, c->a[i], Access{0, static_cast<uint8_t>(me->id), 0xff, 1, pc}); break; }
    c->n = 0;
    if (n <= 4096) { c->a[0] = Access{0, static_cast<uint8_t>(me->id), 0xff, 5, pc}; c->n = 1; }
  }
  for (int i = 0; i < n_ignored; i++) { if (ignored[i].lo <= a && a < ignored[i].hi) { ignored[i] = ignored[--n_ignored]; break; } }
}

// ---------------------------------------------------------------- handing over
void futex_wait(std::atomic<int>* a, int v) { syscall(SYS_futex, reinterpret_cast<int*>(a), FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void futex_wake(std::atomic<int>* a) { syscall(SYS_futex, reinterpret_cast<int*>(a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
void wait_turn(Thread* t) { while (t->go.load(std::memory_order_acquire) == 0) { futex_wait(&t->go, 0); } t->go.store(0, std::memory_order_relaxed); }
void give_turn(Thread* t) { cur = t; t->go.store(1, std::memory_order_release); futex_wake(&t->go); }

std::string stuck()
{
  std::string s;
  for (auto& t : E->threads) { if (t->st == BLOCKED) { s += mc::str(s.empty() ? "" : ", ", "thread ", t->id, " waits for ", t->why); } }
  return s;
}
/// Choose who goes on. yielding: the running thread does not insist on going on.
Thread* choose_next(bool yielding)
{
  const Rt rt;
  E->points++;
  if (E->points > E->opt.horizon)
  { mc::abort_with(mc::str("LIVELOCK: the execution does not end within ", E->opt.horizon, " scheduling points although every thread gets its turns; ", stuck())); }
  Thread* t = me;
  static std::vector<Thread*> options; options.clear();
  bool ready = t->st == READY;
  if (ready && !yielding && ++t->burst > 200) { yielding = true; }
  if (yielding) { t->yielded = true; t->burst = 0; }
  else { for (auto& o : E->threads) { if (o.get() != t) { o->yielded = false; } } }
  if (ready && !yielding)
  {
    options.push_back(t);
    if (E->preempted < E->opt.preemptions) { for (auto& o : E->threads) { if (o.get() != t && o->st == READY) { options.push_back(o.get()); } } }
  }
  else
  {
    for (auto& o : E->threads) { if (o->st == READY && !o->yielded) { options.push_back(o.get()); } }
    if (options.empty())
    {
      for (auto& o : E->threads) { o->yielded = false; }
      for (auto& o : E->threads) { if (o->st == READY && o.get() != t) { options.push_back(o.get()); } }
      if (options.empty() && ready) { options.push_back(t); }
    }
    if (!E->opt.free_switches && E->preempted >= E->opt.preemptions && options.size() > 1) { options.resize(1); }
  }
  if (options.empty())
  {
    bool all_done = true; for (auto& o : E->threads) { if (o->st != DONE) { all_done = false; } }
    if (all_done) { return nullptr; }
    mc::abort_with(mc::str("DEADLOCK: no thread can go on; ", stuck()));
  }
  int k = 0;
  if (options.size() > 1) { k = mc::choose_soft(static_cast<int>(options.size())); }
  Thread* n = options[static_cast<size_t>(k)];
  if (k > 0 && (options[0] == t || !E->opt.free_switches)) { E->preempted++; }
  n->yielded = false;
  if (n != t) { n->burst = 0; }
  return n;
}
void switch_to(Thread* n)
{
  Thread* t = me;
  if (n == t) { return; }
  give_turn(n);
  wait_turn(t);
}
void sched_point(bool yielding = false)
{
  if (!active || !me || me->quiet || in_rt) { return; }
  if (!concurrent) { E->points++; if (E->points > E->opt.horizon) { mc::abort_with("LIVELOCK: a single thread does not end"); } return; }
  if (me->spinning) { me->spinning = false; yielding = true; }
  switch_to(choose_next(yielding));
}
void block(const char* why, const void* on)
{
  Thread* t = me; t->st = BLOCKED; t->why = why; t->on = on;
  switch_to(choose_next(false));
}
void wake(Thread* t) { if (t->st == BLOCKED) { t->st = READY; } }
void wake_all(const char* why, const void* on)
{ for (auto& t : E->threads) { if (t->st == BLOCKED && t->on == on && strcmp(t->why, why) == 0) { t->st = READY; } } }
void tick(Thread* t) { t->clk[static_cast<size_t>(t->id)]++; }
void update_concurrent()
{
  bool c = false;
  for (auto& t : E->threads) { if (t.get() != me && !t->joined) { c = true; } }
  if (!c && concurrent) { global_gen++; }    // everything so far happens before everything from now on
  concurrent = c;
}

// ---------------------------------------------------------------- threads
template<typename F> F real_fn(const char* name)
{ void* p = dlsym(RTLD_NEXT, name); if (!p) { fprintf(stderr, "mcs: no %s\n", name); abort(); } return reinterpret_cast<F>(p); }

/// Real threads are kept and reused, one for each thread number.
struct Real { std::atomic<int> start{0}; Thread* job = nullptr; pthread_t id{}; bool made = false; };
Real reals[kMaxThreads];
/// The thread-local variables of the program under test, so that each thread starts with fresh ones.
struct Tls { char* block = nullptr; const char* image = nullptr; size_t init = 0, size = 0; };
int find_tls(struct dl_phdr_info* i, size_t, void* out)
{
  Tls& t = *static_cast<Tls*>(out);
  for (int k = 0; k < i->dlpi_phnum; k++)
  {
    const ElfW(Phdr)& h = i->dlpi_phdr[k];
    if (h.p_type == PT_TLS) { t.block = static_cast<char*>(i->dlpi_tls_data); t.image = reinterpret_cast<const char*>(i->dlpi_addr + h.p_vaddr); t.init = h.p_filesz; t.size = h.p_memsz; }
  }
  return 1;    // the program itself comes first
}
void thread_end(Thread* t)
{
  // Runs after thread_local destructors: from here on nothing of the program runs in this thread.
  tick(t);
  t->st = DONE;
  wake_all("a thread to end", t);
  Thread* n = choose_next(false);
  me = nullptr;
  if (n) { give_turn(n); }
}
void* real_main(void* p)
{
  Real* r = static_cast<Real*>(p);
  static auto tls_dtors = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, "__call_tls_dtors"));
  Tls tls; dl_iterate_phdr(find_tls, &tls);
  for (;;)
  {
    while (r->start.load(std::memory_order_acquire) == 0) { futex_wait(&r->start, 0); }
    r->start.store(0, std::memory_order_relaxed);
    Thread* t = r->job;
    wait_turn(t);
    if (tls.block) { __real_memcpy(tls.block, tls.image, tls.init); __real_memset(tls.block + tls.init, 0, tls.size - tls.init); }
    me = t;
    try { t->ret = t->fn(t->arg); }
    catch (const mc::Fail&) {}
    if (tls_dtors) { tls_dtors(); }
    thread_end(t);
  }
  return nullptr;
}
Thread* spawn(void* (*fn)(void*), void* arg, bool omp)
{
  const Rt rt;
  auto u = std::make_unique<Thread>(); Thread* t = u.get();
  t->id = static_cast<int>(E->threads.size());
  if (E->threads.size() >= kMaxThreads)
  {
    // Take over the number of a thread whose end is known to the creator.
    t->id = 0;
    for (auto& o : E->threads) { if (o->id != 0 && o->joined && me->clk[static_cast<size_t>(o->id)] >= o->clk[static_cast<size_t>(o->id)]) { t->id = o->id; break; } }
    if (t->id == 0) { mc::abort_with("internal: more threads in one execution than the scheduler supports"); }
  }
  t->fn = fn; t->arg = arg; t->omp_worker = omp;
  t->clk = me->clk; t->clk[static_cast<size_t>(t->id)]++; tick(me);
  t->omp.nthreads = me->omp.nthreads;
  const size_t slot = static_cast<size_t>(t->id);
  if (slot < E->threads.size()) { E->retired.push_back(std::move(E->threads[slot])); E->threads[slot] = std::move(u); }
  else { E->threads.push_back(std::move(u)); }
  changed();
  stack_gen[t->id]++;
  concurrent = true;
  Real& r = reals[slot];
  if (!r.made)
  {
    static auto create = real_fn<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stack_pool + kStack * slot, kStack);
    const int e = create(&r.id, &at, real_main, &r);
    pthread_attr_destroy(&at);
    if (e) { fprintf(stderr, "mcs: real thread creation failed: %d\n", e); _exit(96); }
    r.made = true;
  }
  t->real = r.id; r.job = t; r.start.store(1, std::memory_order_release); futex_wake(&r.start);
  return t;
}
void model_join(Thread* t)
{
  while (t->st != DONE) { block("a thread to end", t); }
  vc_join(me->clk, t->clk); t->joined = true;
  update_concurrent();
}
Thread* find_thread(pthread_t p)
{ for (auto& t : E->threads) { if (t->id != 0 && t->real == p && !t->joined) { return t.get(); } } return nullptr; }

// ---------------------------------------------------------------- mutexes
Mutex& mutex_of(const void* m) { const Rt rt; return E->mutexes[m]; }
void lock_mutex(const void* m, bool recursive)
{
  sched_point(); access(m, 8, 2, __builtin_return_address(0));
  for (;;)
  {
    Mutex& x = mutex_of(m);
    if (x.owner == -1) { x.owner = me->id; x.count = 1; vc_join(me->clk, x.vc); return; }
    if (x.owner == me->id && recursive) { x.count++; return; }
    block("a mutex", m);
  }
}
void unlock_mutex(const void* m)
{
  access(m, 8, 2, __builtin_return_address(0));
  Mutex& x = mutex_of(m);
  if (x.owner != me->id) { const Rt rt; mc::fail_soft("a mutex is unlocked by a thread that does not hold it"); return; }
  if (--x.count > 0) { return; }
  x.owner = -1; x.vc = me->clk; tick(me);
  wake_all("a mutex", m);
}
Rw& rw_of(const void* l) { const Rt rt; return E->rws[l]; }
Sem& sem_of(const void* l) { const Rt rt; return E->sems[l]; }
VC& once_of(const void* l) { const Rt rt; return E->onces[l]; }
bool mutex_is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
  Thread* t = me; t->notified = false; access(c, 8, 2, __builtin_return_address(0));
  const bool rec = mutex_is_recursive(m);
  unlock_mutex(m);
  bool woken = false;
  if (timed)
  {
    // Either it is notified before its next turn, or its time is up.
    t->timed = true; t->on = c; t->why = "a condition"; sched_point(true); t->timed = false; woken = t->notified;
  }
  else
  {
    if (E->spurious < E->opt.spurious && concurrent && mc::choose_soft(2) == 1) { E->spurious++; sched_point(true); }
    else { block("a condition", c); }
    woken = true;
  }
  for (;;)
  {
    Mutex& x = mutex_of(m);
    if (x.owner == -1) { x.owner = t->id; x.count = 1; vc_join(t->clk, x.vc); break; }
    block("a mutex", m);
  }
  (void)rec;
  return woken ? 0 : ETIMEDOUT;
}

// ---------------------------------------------------------------- atomics
/// A thread that reads the same values again and again without changing anything is polling: it
/// gives way at its next scheduling point, which makes every poll loop fair.
void saw(const void* a, uint64_t v)
{
  if (!active || !me || !concurrent) { return; }
  Thread* t = me;
  for (int i = 0; i < t->n_seen; i++)
    if (t->seen[static_cast<size_t>(i)].a == a)
    {
      Thread::Seen& s = t->seen[static_cast<size_t>(i)];
      if (s.v != v) { s.v = v; s.n = 1; }
      else if (++s.n >= 3) { t->spinning = true; t->n_seen = 0; }
      return;
    }
  if (t->n_seen < 16) { t->seen[static_cast<size_t>(t->n_seen++)] = {a, v, 1}; }
}
void changed() { if (me) { me->n_seen = 0; me->spinning = false; } }
bool acq(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
bool rel(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
void atomic_pre(const void*) { sched_point(); }
void atomic_load(const void* a, size_t n, int o, const void* pc)
{
  if (!active || !me || !concurrent) { return; }
  access(a, n, 2, pc);
  const Rt rt;
  auto it = E->atomics.find(a);
  if (it == E->atomics.end()) { return; }
  if (acq(o)) { vc_join(me->clk, it->second.rel); } else { vc_join(me->fence_acq, it->second.rel); }
}
void atomic_store(const void* a, size_t n, int o, const void* pc)
{
  if (!active || !me || !concurrent) { return; }
  access(a, n, 3, pc);
  const Rt rt;
  changed(); E->atomics[a].rel = rel(o) ? me->clk : me->fence_rel;
  if (rel(o)) { tick(me); }
}
void atomic_rmw(const void* a, size_t n, int o, const void* pc)
{
  if (!active || !me || !concurrent) { return; }
  access(a, n, 3, pc);
  const Rt rt;
  changed();
  Atomic& x = E->atomics[a];
  if (acq(o)) { vc_join(me->clk, x.rel); } else { vc_join(me->fence_acq, x.rel); }
  if (rel(o)) { vc_join(x.rel, me->clk); tick(me); } else { vc_join(x.rel, me->fence_rel); }
}

// ---------------------------------------------------------------- OpenMP teams
void team_barrier(Team* team)
{
  if (team->n == 1) { return; }
  sched_point();
  vc_join(team->barrier_vc, me->clk); tick(me);
  if (++team->arrived == team->n)
  {
    team->arrived = 0; team->generation++; team->release_vc = team->barrier_vc; team->barrier_vc = VC{};
    wake_all("an OpenMP barrier", team); vc_join(me->clk, team->release_vc); return;
  }
  const long g = team->generation;
  while (team->generation == g) { block("an OpenMP barrier", team); }
  vc_join(me->clk, team->release_vc);
}
struct Job { void (*fn)(void*); void* data; Team* team; int num; Omp parent; bool loop, sections; };
void enter(Omp& o, const Job& j)
{
  o.team = j.team; o.num = j.num; o.level = j.parent.level + 1; o.active = j.parent.active + (j.team->n > 1 ? 1 : 0);
  o.nthreads = j.parent.nthreads; o.max_active = j.parent.max_active; o.ws = j.loop ? 0 : -1; o.singles = 0; o.sections = j.sections ? 0 : -1;
}
void* omp_worker(void* p)
{
  std::unique_ptr<Job> j(static_cast<Job*>(p));
  enter(me->omp, *j);
  j->fn(j->data);
  return nullptr;
}
int team_size(unsigned requested)
{
  const Omp& o = me->omp;
  if (o.active >= o.max_active) { return 1; }
  int n = requested ? static_cast<int>(requested) : o.nthreads;
  n = std::min({n, E->opt.omp_delivered, E->opt.omp_limit});
  return std::max(n, 1);
}
void parallel(void (*fn)(void*), void* data, unsigned requested, const Loop* loop, long sections = -1)
{
  if (!active || !me)
  {
    // Outside of an execution: a team of one without scheduling.
    static Team solo; static Thread* nobody = nullptr; (void)nobody; solo = Team{}; (void)loop; (void)sections; (void)requested;
    fprintf(stderr, "mcs: OpenMP region outside of an execution\n"); _exit(95);
  }
  E->teams.push_back(std::make_unique<Team>()); Team* team = E->teams.back().get();
  team->n = team_size(requested);
  if (loop) { team->loops[0] = *loop; team->loops[0].started = true; }
  if (sections >= 0) { team->sections[0] = 0; team->sections_total[0] = sections; }
  const Omp saved = me->omp;
  std::vector<Thread*> workers;
  for (int i = 1; i < team->n; i++) { workers.push_back(spawn(omp_worker, new Job{fn, data, team, i, saved, loop != nullptr, sections >= 0}, true)); }
  enter(me->omp, Job{fn, data, team, 0, saved, loop != nullptr, sections >= 0});
  if (team->n > 1) { sched_point(); }
  fn(data);
  for (Thread* w : workers) { model_join(w); }
  me->omp = saved;
}
bool loop_next(Loop& l, long* s, long* e)
{
  const Omp& o = me->omp; const int n = o.team ? o.team->n : 1;
  if (l.kind == 2)
  {
    if (l.given.empty()) { l.given.assign(static_cast<size_t>(n), false); }
    if (l.given[static_cast<size_t>(o.num)]) { return false; }
    l.given[static_cast<size_t>(o.num)] = true;
    const long total = l.incr > 0 ? (l.end - l.next + l.incr - 1) / l.incr : (l.next - l.end - l.incr - 1) / -l.incr;
    const long q = total / n, r = total % n, b = q * o.num + std::min<long>(o.num, r), c = q + (o.num < r ? 1 : 0);
    if (c == 0) { return false; }
    *s = l.next + b * l.incr; *e = *s + c * l.incr; return true;
  }
  if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) { return false; }
  long chunk = std::max<long>(l.chunk, 1);
  if (l.kind == 1) { const long left = l.incr > 0 ? (l.end - l.next + l.incr - 1) / l.incr : (l.next - l.end - l.incr - 1) / -l.incr; chunk = std::max(chunk, (left + n - 1) / n); }
  *s = l.next;
  long stop = l.next + chunk * l.incr;
  if (l.incr > 0 ? (stop > l.end || stop < l.next) : (stop < l.end || stop > l.next)) { stop = l.end; }
  l.next = stop; *e = stop; return true;
}
bool loop_start(int kind, long start, long end, long incr, long chunk, long* s, long* e)
{
  Omp& o = me->omp; o.ws++;
  static Team solo; Team* team = o.team;
  if (!team) { E->teams.push_back(std::make_unique<Team>()); team = o.team = E->teams.back().get(); o.ws = 0; }
  if (team->n > 1) { sched_point(); }
  Loop& l = team->loops[o.ws];
  if (!l.started) { l.started = true; l.next = start; l.end = end; l.incr = incr; l.chunk = chunk; l.kind = kind; }
  return loop_next(l, s, e);
}
bool loop_more(long* s, long* e)
{
  Omp& o = me->omp;
  if (o.team->n > 1) { sched_point(); }
  return loop_next(o.team->loops[o.ws], s, e);
}
}  // namespace

// ================================================================ public interface
namespace mcs
{
void run(const Options& options, const std::function<void()>& body)
{
  if (active) { fprintf(stderr, "mcs: nested run\n"); abort(); }
  if (!stack_pool)
  {
    // One processor per shard: handing over is fastest when both threads share it.
    cpu_set_t have, want; CPU_ZERO(&want);
    if (sched_getaffinity(0, sizeof have, &have) == 0 && CPU_COUNT(&have) > 1)
    {
      int k = mc::shard() % CPU_COUNT(&have);
      for (int i = 0; i < CPU_SETSIZE; i++) { if (CPU_ISSET(i, &have) && k-- == 0) { CPU_SET(i, &want); break; } }
      sched_setaffinity(0, sizeof want, &want);
    }
    stack_pool = static_cast<char*>(mmap(nullptr, kStack * kMaxThreads, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    cells = static_cast<Cell*>(mmap(nullptr, kCells * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  Engine engine; E = &engine; E->opt = options; n_ignored = 0; global_gen++;
  auto m = std::make_unique<Thread>(); m->id = 0; m->clk[0] = 1; m->omp.nthreads = options.omp_default;
  m->real = pthread_self();
  me = m.get(); cur = me; E->threads.push_back(std::move(m)); concurrent = false; active = true;
  std::exception_ptr error;
  try { body(); }
  catch (...) { error = std::current_exception(); }
  // Let whatever is left run to its end.
  for (size_t i = 1; i < E->threads.size(); i++) { if (!E->threads[i]->joined) { model_join(E->threads[i].get()); } }
  active = false; concurrent = false;
  if (overflow) { overflow = false; }
  mc::transition(static_cast<uint64_t>(E->points));
  me = nullptr; E = nullptr;
  if (error) { std::rethrow_exception(error); }
}
void point() { sched_point(); }
int self() { return me ? me->id : -1; }
int unfinished_threads() { int n = 0; for (auto& t : E->threads) { if (t->id && t->st != DONE) { n++; } } return n; }
long points() { return E ? E->points : 0; }
Quiet::Quiet() { if (me) { me->quiet++; } }
Quiet::~Quiet() { if (me) { me->quiet--; } }
int omp_nthreads_setting() { return me->omp.nthreads; }
void omp_set_delivered(int n) { E->opt.omp_delivered = n; }
}  // namespace mcs

// ================================================================ interposed functions
#define ON (active && me && in_rt == 0)
extern "C" {
// ---- memory
void* malloc(size_t n) { void* p = __libc_malloc(n); if (ON && p) { forget(p, n); } return p; }
void free(void* p) { if (!p) { return; } if (ON) { check_free(p, __builtin_return_address(0)); } __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (ON && p) { forget(p, a * b); } return p; }
void* realloc(void* o, size_t n) { if (ON && o) { check_free(o, __builtin_return_address(0)); } void* p = __libc_realloc(o, n); if (ON && p) { forget(p, n); } return p; }
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (ON && p) { forget(p, n); } return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p && n) { return ENOMEM; } *r = p; return 0; }
void* __cxa_allocate_exception(size_t n)
{
  static auto f = real_fn<void* (*)(size_t)>("__cxa_allocate_exception");
  void* p = f(n);
  if (ON && n_ignored < 64) { ignored[n_ignored++] = {reinterpret_cast<uintptr_t>(p) - 144, reinterpret_cast<uintptr_t>(p) + n}; }
  return p;
}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { const void* pc = __builtin_return_address(0); access(s, n, 0, pc); access(d, n, 1, pc); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { const void* pc = __builtin_return_address(0); access(s, n, 0, pc); access(d, n, 1, pc); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, 1, __builtin_return_address(0)); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { const void* pc = __builtin_return_address(0); access(a, n, 0, pc); access(b, n, 0, pc); return __real_memcmp(a, b, n); }

// ---- threads
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
  if (!ON) { static auto f = real_fn<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create"); return f(out, at, fn, arg); }
  if (E->failures < E->opt.create_failures && mc::choose_soft(2) == 1) { E->failures++; return EAGAIN; }
  Thread* t = spawn(fn, arg, false);
  *out = t->real;
  sched_point();
  return 0;
}
int pthread_join(pthread_t p, void** ret)
{
  Thread* t = ON ? find_thread(p) : nullptr;
  if (!t) { if (ON) { return EINVAL; } static auto f = real_fn<int (*)(pthread_t, void**)>("pthread_join"); return f(p, ret); }
  sched_point();
  model_join(t);
  if (ret) { *ret = t->ret; }
  return 0;
}
int pthread_detach(pthread_t p)
{
  Thread* t = ON ? find_thread(p) : nullptr;
  if (!t) { if (ON) { return EINVAL; } static auto f = real_fn<int (*)(pthread_t)>("pthread_detach"); return f(p); }
  t->detached = true; return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{ if (!ON) { static auto f = real_fn<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); } lock_mutex(m, mutex_is_recursive(m)); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m)
{ if (!ON) { static auto f = real_fn<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); } unlock_mutex(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  if (!ON) { static auto f = real_fn<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
  sched_point(); Mutex& x = mutex_of(m);
  if (x.owner == -1) { x.owner = me->id; x.count = 1; vc_join(me->clk, x.vc); return 0; }
  if (x.owner == me->id && mutex_is_recursive(m)) { x.count++; return 0; }
  sched_point(true); return EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_trylock(m) ? ETIMEDOUT : 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_trylock(m) ? ETIMEDOUT : 0; }
int pthread_mutex_destroy(pthread_mutex_t* m)
{ if (ON) { access(m, sizeof *m, 1, __builtin_return_address(0)); } if (ON && E->mutexes.count(m) && E->mutexes[m].owner != -1) { mc::fail_soft("a locked mutex is destroyed"); } if (ON) { E->mutexes.erase(m); } return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{ if (!ON) { static auto f = real_fn<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); } return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{ if (!ON) { static auto f = real_fn<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait"); return f(c, m, t); } return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{ if (!ON) { static auto f = real_fn<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait"); return f(c, m, k, t); } return cond_wait(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c)
{
  if (!ON) { static auto f = real_fn<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); }
  sched_point(); access(c, 8, 2, __builtin_return_address(0));
  const Rt rt;
  std::vector<Thread*> w;
  for (auto& t : E->threads) { if (t->on == c && ((t->st == BLOCKED && !strcmp(t->why, "a condition")) || (t->timed && !t->notified))) { w.push_back(t.get()); } }
  if (w.empty()) { return 0; }
  Thread* t = w[static_cast<size_t>(w.size() > 1 ? mc::choose_soft(static_cast<int>(w.size())) : 0)];
  t->notified = true; wake(t); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  if (!ON) { static auto f = real_fn<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); }
  sched_point(); access(c, 8, 2, __builtin_return_address(0));
  for (auto& t : E->threads) { if (t->on == c && t->timed) { t->notified = true; } }
  wake_all("a condition", c); return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
  if (!ON) { static auto f = real_fn<int (*)(pthread_cond_t*)>("pthread_cond_destroy"); return f(c); }
  access(c, sizeof *c, 1, __builtin_return_address(0));
  for (auto& t : E->threads) { if (t->st == BLOCKED && t->on == c) { mc::fail_soft("a condition variable is destroyed while a thread waits on it"); } }
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
  if (!ON) { static auto f = real_fn<int (*)(pthread_once_t*, void (*)(void))>("pthread_once"); return f(o, fn); }
  sched_point();
  for (;;)
  {
    if (*o == 2) { auto it = E->onces.find(o); if (it != E->onces.end()) { vc_join(me->clk, it->second); } return 0; }
    if (*o == 0) { break; }
    block("a once routine", o);
  }
  *o = 1;
  try { fn(); }
  catch (...) { *o = 0; wake_all("a once routine", o); throw; }
  *o = 2; once_of(o) = me->clk; tick(me); wake_all("a once routine", o);
  return 0;
}
int mcs_guard_acquire(uint64_t* g) __asm__("__cxa_guard_acquire");
int mcs_guard_acquire(uint64_t* g)
{
  if (!ON) { static auto f = real_fn<int (*)(uint64_t*)>("__cxa_guard_acquire"); return f(g); }
  char* b = reinterpret_cast<char*>(g);
  sched_point();
  for (;;)
  {
    if (b[0]) { auto it = E->onces.find(g); if (it != E->onces.end()) { vc_join(me->clk, it->second); } return 0; }
    if (!b[1]) { b[1] = 1; return 1; }
    block("a static initializer", g);
  }
}
void mcs_guard_release(uint64_t* g) __asm__("__cxa_guard_release");
void mcs_guard_release(uint64_t* g)
{
  if (!ON) { static auto f = real_fn<void (*)(uint64_t*)>("__cxa_guard_release"); f(g); return; }
  char* b = reinterpret_cast<char*>(g); b[1] = 0; b[0] = 1; once_of(g) = me->clk; { const Rt rt; vc_join(E->atomics[g].rel, me->clk); } tick(me); wake_all("a static initializer", g);
}
void mcs_guard_abort(uint64_t* g) __asm__("__cxa_guard_abort");
void mcs_guard_abort(uint64_t* g)
{
  if (!ON) { static auto f = real_fn<void (*)(uint64_t*)>("__cxa_guard_abort"); f(g); return; }
  reinterpret_cast<char*>(g)[1] = 0; wake_all("a static initializer", g);
}
// ---- reader/writer locks
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
  if (!ON) { static auto f = real_fn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(l); }
  sched_point();
  for (;;) { Rw& r = rw_of(l); if (r.writer == -1) { r.readers.push_back(me->id); vc_join(me->clk, r.vc); return 0; } block("a reader/writer lock", l); }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
  if (!ON) { static auto f = real_fn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(l); }
  sched_point();
  for (;;) { Rw& r = rw_of(l); if (r.writer == -1 && r.readers.empty()) { r.writer = me->id; vc_join(me->clk, r.vc); return 0; } block("a reader/writer lock", l); }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{ if (!ON) { static auto f = real_fn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock"); return f(l); } sched_point(); Rw& r = rw_of(l); if (r.writer != -1) { return EBUSY; } r.readers.push_back(me->id); vc_join(me->clk, r.vc); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{ if (!ON) { static auto f = real_fn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock"); return f(l); } sched_point(); Rw& r = rw_of(l); if (r.writer != -1 || !r.readers.empty()) { return EBUSY; } r.writer = me->id; vc_join(me->clk, r.vc); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
  if (!ON) { static auto f = real_fn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(l); }
  Rw& r = rw_of(l); vc_join(r.vc, me->clk); tick(me);
  if (r.writer == me->id) { r.writer = -1; }
  else { for (size_t i = 0; i < r.readers.size(); i++) { if (r.readers[i] == me->id) { r.readers.erase(r.readers.begin() + static_cast<long>(i)); break; } } }
  wake_all("a reader/writer lock", l); return 0;
}
// ---- semaphores
int sem_init(sem_t* s, int sh, unsigned v)
{ if (!ON) { static auto f = real_fn<int (*)(sem_t*, int, unsigned)>("sem_init"); return f(s, sh, v); } E->sems[s] = Sem{}; E->sems[s].value = static_cast<int>(v); return 0; }
int sem_post(sem_t* s)
{ if (!ON) { static auto f = real_fn<int (*)(sem_t*)>("sem_post"); return f(s); } sched_point(); Sem& x = sem_of(s); x.value++; vc_join(x.vc, me->clk); tick(me); wake_all("a semaphore", s); return 0; }
int sem_wait(sem_t* s)
{ if (!ON) { static auto f = real_fn<int (*)(sem_t*)>("sem_wait"); return f(s); } sched_point(); for (;;) { Sem& x = sem_of(s); if (x.value > 0) { x.value--; vc_join(me->clk, x.vc); return 0; } block("a semaphore", s); } }
// ---- time and yielding
int sched_yield() { if (ON) { sched_point(true); } return 0; }
int nanosleep(const struct timespec* t, struct timespec* r)
{ if (ON) { sched_point(true); return 0; } static auto f = real_fn<int (*)(const struct timespec*, struct timespec*)>("nanosleep"); return f(t, r); }
int clock_nanosleep(clockid_t k, int fl, const struct timespec* t, struct timespec* r)
{ if (ON) { sched_point(true); return 0; } static auto f = real_fn<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep"); return f(k, fl, t, r); }
int usleep(useconds_t) { if (ON) { sched_point(true); } return 0; }

// ---- OpenMP runtime
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel(fn, d, n, nullptr); }
#define PAR_LOOP(NAME, KIND) \
  void NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) \
  { Loop l; l.next = s; l.end = e; l.incr = i; l.chunk = c; l.kind = KIND; parallel(fn, d, n, &l); }
PAR_LOOP(GOMP_parallel_loop_static, 2) PAR_LOOP(GOMP_parallel_loop_dynamic, 0) PAR_LOOP(GOMP_parallel_loop_guided, 1)
PAR_LOOP(GOMP_parallel_loop_nonmonotonic_dynamic, 0) PAR_LOOP(GOMP_parallel_loop_nonmonotonic_guided, 1)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { Loop l; l.next = s; l.end = e; l.incr = i; parallel(fn, d, n, &l); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { Loop l; l.next = s; l.end = e; l.incr = i; parallel(fn, d, n, &l); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { Loop l; l.next = s; l.end = e; l.incr = i; parallel(fn, d, n, &l); }
#define LOOP(PFX, KIND) \
  bool GOMP_loop_##PFX##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(KIND, s, e, i, c, a, b); } \
  bool GOMP_loop_##PFX##_next(long* a, long* b) { return loop_more(a, b); }
LOOP(static, 2) LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1)
#define LOOPR(PFX) \
  bool GOMP_loop_##PFX##_start(long s, long e, long i, long* a, long* b) { return loop_start(0, s, e, i, 1, a, b); } \
  bool GOMP_loop_##PFX##_next(long* a, long* b) { return loop_more(a, b); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
// Unsigned loops: within the range of signed numbers in everything run here.
#define ULOOP(PFX, KIND) \
  bool GOMP_loop_ull_##PFX##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long* a, unsigned long* b) \
  { (void)up; return loop_start(KIND, static_cast<long>(s), static_cast<long>(e), static_cast<long>(i), static_cast<long>(c), reinterpret_cast<long*>(a), reinterpret_cast<long*>(b)); } \
  bool GOMP_loop_ull_##PFX##_next(unsigned long* a, unsigned long* b) { return loop_more(reinterpret_cast<long*>(a), reinterpret_cast<long*>(b)); }
ULOOP(static, 2) ULOOP(dynamic, 0) ULOOP(guided, 1) ULOOP(nonmonotonic_dynamic, 0) ULOOP(nonmonotonic_guided, 1)
void GOMP_loop_end() { if (me->omp.team) { team_barrier(me->omp.team); } }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { if (me->omp.team) { team_barrier(me->omp.team); } }
void GOMP_critical_start();
void GOMP_critical_end();
void GOMP_critical_name_start(void** p) { lock_mutex(p, false); }
void GOMP_critical_name_end(void** p) { unlock_mutex(p); }
void GOMP_atomic_start() { lock_mutex(reinterpret_cast<void*>(&GOMP_loop_end), false); }
void GOMP_atomic_end() { unlock_mutex(reinterpret_cast<void*>(&GOMP_loop_end)); }
bool GOMP_single_start()
{
  Omp& o = me->omp; if (!o.team) { return true; }
  if (o.team->n > 1) { sched_point(); }
  bool& taken = o.team->singles[o.singles++]; if (taken) { return false; } taken = true; return true;
}
void* GOMP_single_copy_start()
{
  Omp& o = me->omp; if (!o.team) { return nullptr; }
  sched_point();
  bool& taken = o.team->singles[o.singles++]; if (!taken) { taken = true; return nullptr; }
  team_barrier(o.team); return o.team->copyprivate;
}
void GOMP_single_copy_end(void* d) { Omp& o = me->omp; if (o.team) { o.team->copyprivate = d; team_barrier(o.team); } }
unsigned GOMP_sections_next()
{
  Omp& o = me->omp; if (!o.team) { return 0; }
  sched_point();
  long& n = o.team->sections[o.sections]; if (n >= o.team->sections_total[o.sections]) { return 0; } return static_cast<unsigned>(++n);
}
unsigned GOMP_sections_start(unsigned k)
{
  Omp& o = me->omp; if (!o.team) { E->teams.push_back(std::make_unique<Team>()); o.team = E->teams.back().get(); }
  o.sections++; if (!o.team->sections_total.count(o.sections)) { o.team->sections_total[o.sections] = k; o.team->sections[o.sections] = 0; }
  return GOMP_sections_next();
}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { parallel(fn, d, n, nullptr, count); }
void GOMP_sections_end() { GOMP_loop_end(); }
void GOMP_sections_end_nowait() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
{
  if (cpyfn || size) { std::vector<char> b(static_cast<size_t>(size + align)); char* p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(b.data()) + static_cast<uintptr_t>(align) - 1) & ~(static_cast<uintptr_t>(align) - 1)); if (cpyfn) { cpyfn(p, data); } else { memcpy(p, data, static_cast<size_t>(size)); } fn(p); }
  else { fn(data); }
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_thread_num() { return me ? me->omp.num : 0; }
int omp_get_num_threads() { return me && me->omp.team ? me->omp.team->n : 1; }
int omp_get_max_threads() { return me ? me->omp.nthreads : 1; }
void omp_set_num_threads(int n) { if (me) { me->omp.nthreads = n > 0 ? n : 1; } }
int omp_in_parallel() { return me && me->omp.active > 0; }
int omp_get_thread_limit() { return E ? E->opt.omp_limit : 1; }
int omp_get_level() { return me ? me->omp.level : 0; }
int omp_get_active_level() { return me ? me->omp.active : 0; }
int omp_get_num_procs() { return 8; }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
int omp_get_nested() { return me && me->omp.max_active > 1; }
void omp_set_nested(int n) { if (me) { me->omp.max_active = n ? 8 : 1; } }
int omp_get_max_active_levels() { return me ? me->omp.max_active : 1; }
void omp_set_max_active_levels(int n) { if (me) { me->omp.max_active = n; } }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec); }
void omp_init_lock(void**) {}
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { lock_mutex(l, false); }
void omp_unset_lock(void** l) { unlock_mutex(l); }
int omp_test_lock(void** l) { sched_point(); Mutex& x = mutex_of(l); if (x.owner != -1) { return 0; } x.owner = me->id; x.count = 1; vc_join(me->clk, x.vc); return 1; }

// ---- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) { if (*p != v) { access(p, 8, 1, __builtin_return_address(0)); } }
void __tsan_vptr_read(void** p) { access(p, 8, 0, __builtin_return_address(0)); }
#define RW(N) \
  void __tsan_read##N(void* p) { access(p, N, 0, __builtin_return_address(0)); } \
  void __tsan_write##N(void* p) { access(p, N, 1, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##N(void* p) { access(p, N, 0, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##N(void* p) { access(p, N, 1, __builtin_return_address(0)); } \
  void __tsan_volatile_read##N(void* p) { sched_point(); access(p, N, 0, __builtin_return_address(0)); } \
  void __tsan_volatile_write##N(void* p) { sched_point(); access(p, N, 1, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, 0, __builtin_return_address(0)); }
void __tsan_write_range(void* p, size_t n) { access(p, n, 1, __builtin_return_address(0)); }
#define PC __builtin_return_address(0)
#define ATOMICS(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int o) { atomic_pre(const_cast<T*>(a)); atomic_load(const_cast<T*>(a), sizeof(T), o, PC); const T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); saw(const_cast<T*>(a), v); return v; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int o) { atomic_pre(const_cast<T*>(a)); atomic_store(const_cast<T*>(a), sizeof(T), o, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int o) { atomic_pre(const_cast<T*>(a)); atomic_rmw(const_cast<T*>(a), sizeof(T), o, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int o) { atomic_pre(const_cast<T*>(a)); atomic_rmw(const_cast<T*>(a), sizeof(T), o, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int o) { atomic_pre(const_cast<T*>(a)); atomic_rmw(const_cast<T*>(a), sizeof(T), o, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int o) { atomic_pre(const_cast<T*>(a)); atomic_rmw(const_cast<T*>(a), sizeof(T), o, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int o) { atomic_pre(const_cast<T*>(a)); atomic_rmw(const_cast<T*>(a), sizeof(T), o, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int o) { atomic_pre(const_cast<T*>(a)); atomic_rmw(const_cast<T*>(a), sizeof(T), o, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int o) { atomic_pre(const_cast<T*>(a)); atomic_rmw(const_cast<T*>(a), sizeof(T), o, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int o, int f) \
  { atomic_pre(const_cast<T*>(a)); const bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) { atomic_rmw(const_cast<T*>(a), sizeof(T), o, PC); } else { atomic_load(const_cast<T*>(a), sizeof(T), f, PC); saw(const_cast<T*>(a), *c); } return ok; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int o, int f) \
  { atomic_pre(const_cast<T*>(a)); const bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) { atomic_rmw(const_cast<T*>(a), sizeof(T), o, PC); } else { atomic_load(const_cast<T*>(a), sizeof(T), f, PC); saw(const_cast<T*>(a), *c); } return ok; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int o, int f) \
  { atomic_pre(const_cast<T*>(a)); T x = c; const bool ok = __atomic_compare_exchange_n(a, &x, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    if (ok) { atomic_rmw(const_cast<T*>(a), sizeof(T), o, PC); } else { atomic_load(const_cast<T*>(a), sizeof(T), f, PC); saw(const_cast<T*>(a), x); } return x; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int o)
{
  if (!ON || !concurrent) { return; }
  sched_point();
  if (acq(o)) { vc_join(me->clk, me->fence_acq); }
  if (o == __ATOMIC_SEQ_CST) { vc_join(me->clk, E->fence_sc); vc_join(E->fence_sc, me->clk); }
  if (rel(o)) { me->fence_rel = me->clk; tick(me); }
}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// GOMP_critical_end needs the same key as GOMP_critical_start.
static char critical_key;
extern "C" void GOMP_critical_start() { lock_mutex(&critical_key, false); }
extern "C" void GOMP_critical_end() { unlock_mutex(&critical_key); }

// ---- the futex behind std::future
namespace std
{
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timeout, chrono::seconds, chrono::nanoseconds)
{
  if (!ON) { while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) { struct timespec t{0, 100000}; nanosleep(&t, nullptr); if (timeout) { return false; } } return true; }
  if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != v) { return true; }
  if (timeout) { me->timed = true; me->notified = false; me->on = a; sched_point(true); me->timed = false; return me->notified || __atomic_load_n(a, __ATOMIC_SEQ_CST) != v; }
  block("a future", a);
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timeout, chrono::seconds s, chrono::nanoseconds n)
{ return _M_futex_wait_until(a, v, timeout, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a)
{
  if (!ON) { return; }
  sched_point(); access(a, 4, 2, __builtin_return_address(0));
  for (auto& t : E->threads) { if (t->on == a && t->timed) { t->notified = true; } }
  wake_all("a future", a);
}
}  // namespace std
