// Controlled scheduler for multithreaded code under test.
//
// The code under test is compiled with -fsanitize=thread, but linked with the runtime in mcs.cpp
// instead of ThreadSanitizer's: every atomic operation, lock, wait, notification, thread start and
// OpenMP construct becomes a scheduling point at which the explorer (mc.hpp) decides which thread
// goes on, and every plain memory access is checked for data races with vector clocks. Threads are
// real threads of which exactly one runs at a time, so an execution is a deterministic function of
// the choice trail.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace mcs
{
struct Options
{
  int preemptions = 2;        // how often a running thread may be preempted
  bool free_switches = true;  // choices at blocking points are free; otherwise deviating costs one, too
  int create_failures = 0;    // how many thread creations may fail with EAGAIN (each a choice)
  int spurious = 0;           // how many condition waits may wake up spuriously
  int omp_delivered = 64;     // upper limit of the team size the OpenMP runtime delivers
  int omp_default = 4;        // initial nthreads-var
  int omp_limit = 64;         // thread-limit-var
  long horizon = 20000;       // scheduling points before an execution counts as not terminating
};

/// Run body (on the calling thread) under the scheduler. Threads it leaves behind are run to their
/// end afterwards. Exceptions of body are passed on.
void run(const Options& options, const std::function<void()>& body);

/// A visible operation: a scheduling point at which other threads may be chosen.
void point();
/// Number of the running thread in this execution (0 = the thread that called run()).
int self();
/// Threads started by the code under test (not OpenMP workers) that have not finished.
int unfinished_threads();
/// Scheduling points passed / preemptions used in this execution.
long points();
/// Hide memory accesses of the harness from race detection (returns to normal at scope end).
struct Quiet { Quiet(); ~Quiet(); };
/// OpenMP settings of the current task, as the runtime keeps them.
int omp_nthreads_setting();
void omp_set_delivered(int n);
}  // namespace mcs
