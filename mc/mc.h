// Harness-side API of the explorer (see mc_rt.cpp and DESIGN.md).
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <string>

namespace mc {

struct Options {
  // preemption bounds explored (iteratively 0..pb) in the two tiers
  int pb_quick = 3;
  int pb_thorough = 5;
  int spurious = 0;   // budget of spurious condition variable wake-ups
  int faults = 0;     // budget of environment faults (mc::fault)
  int faults_thorough = -1;
  int max_steps = 20000;
  bool races = true;          // report data races (happens-before)
  bool blocked_ok = false;    // threads may stay blocked when main returns
  bool inproc = false;        // run many executions in one process (sequential)
  bool atomics = true;        // scheduling points at atomic operations
  bool thorough_only = false;
  bool delays = false;        // delay bounding: running another than the first thread that can run costs a preemption, always
  double max_share = 0;       // 0: default share of the time budget
};

// Registers a scenario: every execution of `fn` under every schedule / choice
// sequence within the bounds is run.
struct Scenario {
  Scenario(const char *name, void (*fn)(), Options o = {});
};
#define MC_SCENARIO(name, ...)                                       \
  static void mcfn_##name();                                         \
  static mc::Scenario mcreg_##name(#name, &mcfn_##name, ##__VA_ARGS__); \
  static void mcfn_##name()

// environment choice in [0,n); all values are explored
int choose(int n, const char *tag = "choose");
// environment fault: returns 0 (no fault) or 1..n-1; non-zero consumes fault
// budget
int fault(int n, const char *tag = "fault");

void violation(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// ends this execution without a verdict (choice combination of no interest)
void prune() __attribute__((noreturn));
// records a distinct final outcome (for evidence)
void outcome(const std::string &s);
// blocks the caller until no other thread can run without time passing
void quiesce();
// virtual time
void sleep_ns(uint64_t ns);
uint64_t now_ns();
int self_id();
bool thorough();
// scheduling point
void point();
// suppress race reports/scheduling inside harness bookkeeping
struct Quiet { Quiet(); ~Quiet(); };
// annotate that harness-level ordering exists
void hb_release(void *p);
void hb_acquire(void *p);
// number of live controlled threads besides the caller
int live_threads();
size_t live_bytes();    // bytes allocated in arena and not freed

}  // namespace mc

#define MC_CHECK(c, ...)                                        \
  do {                                                          \
    if (!(c)) mc::violation(__VA_ARGS__);                       \
  } while (0)
