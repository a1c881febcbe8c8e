// Stateless model checker runtime.
//
// The code under test runs for real, on real threads, but every
// synchronisation operation (pthread mutex/cond/once/join, futex, atomics via
// compiler instrumentation, sleeping, the clock) is intercepted and only one
// thread runs at a time; which one is a choice made by the explorer. The
// explorer enumerates every choice sequence within the stated budgets
// (preemptions, spurious wake-ups, environment faults), one forked process (or
// one in-process run) per sequence.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"

#include <cxxabi.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <new>
#include <string>
#include <typeinfo>
#include <vector>

#include "mc_int.h"

extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *,
                          void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
int __real_pthread_detach(pthread_t);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_timedlock(pthread_mutex_t *, const timespec *);
int __real_pthread_mutex_clocklock(pthread_mutex_t *, clockid_t,
                                   const timespec *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *,
                                  const timespec *);
int __real_pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t *,
                                  clockid_t, const timespec *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_pthread_once(pthread_once_t *, void (*)());
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t *);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t *);
int __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_sched_yield();
int __real_nanosleep(const timespec *, timespec *);
int __real_clock_nanosleep(clockid_t, int, const timespec *, timespec *);
int __real_clock_gettime(clockid_t, timespec *);
int __real_gettimeofday(struct timeval *, void *);
time_t __real_time(time_t *);
int __real_usleep(useconds_t);
unsigned __real_sleep(unsigned);
long __real_syscall(long, long, long, long, long, long, long);
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
}

#define rsyscall __real_syscall

namespace {

constexpr int MAXT = 24;
constexpr int MAXC = 20000;       // choice points per execution
constexpr int POOL = MAXC * 6;
constexpr size_t MSGCAP = 8192;
constexpr size_t LOGCAP = 1 << 18;
constexpr int NBUD = 4;           // 0 free 1 preemption 2 spurious 3 fault

// ---------------------------------------------------------------- shared mem
struct Slot {
  volatile int state;             // 0 idle 1 running 2 ok 3 violation 4 pruned
  volatile unsigned serial;
  int prefix_len;
  int nchoices;
  int npool;
  unsigned steps;
  int vclass;                     // violation class
  uint64_t outcome;
  int diverged;
  unsigned maxthreads;
  unsigned char chosen[MAXC];
  unsigned char nopt[MAXC];
  unsigned off[MAXC];
  unsigned char pool[POOL];
  char msg[MSGCAP];
  unsigned loglen;
  char log[LOGCAP];
};

struct Shared {
  volatile int lock;
  volatile int active;            // workers with work in hand
  volatile int stop;
  volatile int stop_time;
  volatile uint64_t execs, steps, nodes, pruned, diverged, pushed;
  volatile uint64_t maxdepth, maxthreads;
  volatile uint64_t ndistinct;
  volatile int nviol;
  volatile int nknown;
  char viol_msg[MSGCAP];
  int viol_len;
  unsigned char viol_choices[MAXC];
  int known_hit[64];
  volatile uint64_t top;          // stack top in bytes
  uint64_t distinct[1 << 16];
};

Shared *S;
Slot *slots;
unsigned char *stk;
constexpr size_t STKCAP = 3ull << 30;

int NW = 8;
bool g_thorough = false;
bool g_replay = false;
Slot *cur_slot = nullptr;
mc::Options *cur_opt = nullptr;
uint64_t apc[4096];  // return addresses of atomic operations that are scheduling points
size_t napc = 0;
void read_apc() {
  char exe[4000];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 10);
  if (n < 0) _exit(97);
  memcpy(exe + n, ".apc", 5);
  FILE *f = fopen(exe, "r");
  if (!f) { perror(exe); _exit(97); }
  for (unsigned long x; napc < 4096 && fscanf(f, "%lx", &x) == 1;) apc[napc++] = x;
  fclose(f);
}
int g_budget[NBUD] = {1 << 30, 0, 0, 0};

struct ScenarioRec {
  const char *name;
  void (*fn)();
  mc::Options opt;
};
std::vector<ScenarioRec> &registry() {
  static std::vector<ScenarioRec> r;
  return r;
}

// ---------------------------------------------------------------- threads
enum Kind {
  K_RUN, K_LOCK, K_COND, K_JOIN, K_FUTEX, K_SLEEP, K_ONCE, K_QUIESCE, K_PRED,
  K_RD, K_WR, K_FIN
};
const char *kind_name[] = {"run",   "lock",    "condvar", "join",
                           "futex", "sleep",   "once",    "quiesce",
                           "wait",  "rd-lock", "wr-lock", "finished"};

struct VC {
  uint32_t c[MAXT];
};

struct T {
  int id;
  int go;
  bool used;
  bool finished;
  bool detached;
  bool signaled;      // cond / futex
  int wake;           // 0 normal 1 timeout 2 spurious
  Kind kind;
  void *obj;
  pthread_mutex_t *mtx;
  uint64_t deadline;  // 0 none
  bool (*pred)(void *);
  const char *what;
  bool yielded;
  int quiet;
  uint64_t qseq;      // order in cond queue
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
  VC vc;
  unsigned run_len;
};

T thr[MAXT];
int nthr = 0;
bool g_active = false;
uint64_t g_now = 0;
uint64_t g_qseq = 0;
constexpr uint64_t T0 = 1000000000000ull;
constexpr uint64_t REAL_OFF = 1700000000000000000ull;
__thread T *self = nullptr;
pthread_key_t fin_key;
int last_run = 0;

inline bool on() { return g_active && self != nullptr; }

int rfutex(int *a, int op, int v) {
  return (int)rsyscall(SYS_futex, (long)a, op | FUTEX_PRIVATE_FLAG, v, 0, 0, 0);
}

[[noreturn]] void end_exec(int state);

void vlog(const char *fmt, va_list ap) {
  if (!cur_slot) return;
  Slot *s = cur_slot;
  if (s->loglen + 400 > LOGCAP) return;
  int n = vsnprintf(s->log + s->loglen, 380, fmt, ap);
  if (n > 379) n = 379;
  s->loglen += n;
  s->log[s->loglen++] = '\n';
  s->log[s->loglen] = 0;
}
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void logf(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vlog(fmt, ap);
  va_end(ap);
}

void log_backtrace() {
  if (!cur_slot) return;
  void *bt[40];
  g_active = false;
  int n = backtrace(bt, 40);
  std::string s = "  bt:";
  char b[32];
  for (int i = 0; i < n; ++i) {
    snprintf(b, sizeof b, " %p", bt[i]);
    s += b;
    if (s.size() > 350) { logf("%s", s.c_str()); s = "  bt:"; }
  }
  logf("%s", s.c_str());
}

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool failing = false;
void fail(const char *fmt, ...) {
  if (failing) _exit(97);
  failing = true;
  g_active = false;
  if (cur_slot) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(cur_slot->msg, MSGCAP - 1, fmt, ap);
    va_end(ap);
    logf("[t%d] VIOLATION %.300s", self ? self->id : -1, cur_slot->msg);
    log_backtrace();
  }
  end_exec(3);
}

// ---------------------------------------------------------------- arena
constexpr uintptr_t ARENA = 0x100000000000ull;
constexpr size_t ARENA_SZ = 4ull << 30;
unsigned char *ashadow;  // 1 byte per 16: 0 none 1 live 2 freed
uintptr_t abump = ARENA;
size_t alive_bytes = 0;

// ---------------------------------------------------------------- race shadow
struct Rec {
  uint32_t clk;
  uint8_t tid, mask, flags, pad;  // flags 1 write 2 atomic 4 valid
  uint64_t pc;
};
struct Cell {
  Rec r[4];
};
struct PageEnt {
  uint64_t page;
  Cell *cells;
};
constexpr int PT = 1 << 15;
PageEnt *ptab;
unsigned char *cellpool;
size_t cellbump = 0;
constexpr size_t CELLCAP = 2ull << 30;

Cell *cell_of(uintptr_t a) {
  uint64_t page = a >> 12;
  uint64_t h = (page * 0x9E3779B97F4A7C15ull) >> 49;
  for (;;) {
    PageEnt &e = ptab[h & (PT - 1)];
    if (e.page == page + 1) return e.cells + ((a >> 3) & 511);
    if (e.page == 0) {
      if (cellbump + 512 * sizeof(Cell) > CELLCAP) return nullptr;
      e.page = page + 1;
      e.cells = (Cell *)(cellpool + cellbump);
      cellbump += 512 * sizeof(Cell);
      return e.cells + ((a >> 3) & 511);
    }
    ++h;
  }
}

struct SyncEnt {
  uint64_t a;
  VC vc;
};
constexpr int ST = 1 << 14;
SyncEnt *stab;
VC *sync_of(const void *p, bool create) {
  uint64_t k = (uint64_t)p;
  uint64_t h = (k * 0x9E3779B97F4A7C15ull) >> 50;
  for (;;) {
    SyncEnt &e = stab[h & (ST - 1)];
    if (e.a == k) return &e.vc;
    if (e.a == 0) {
      if (!create) return nullptr;
      e.a = k;
      return &e.vc;
    }
    ++h;
  }
}
void vjoin(VC &a, const VC &b) {
  for (int i = 0; i < nthr; ++i)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
void sacquire(const void *p) {
  if (nthr < 2) return;
  if (VC *v = sync_of(p, false)) vjoin(self->vc, *v);
}
void srelease(const void *p) {
  if (nthr < 2) return;  // thread creation orders everything before it
  VC *v = sync_of(p, true);
  vjoin(*v, self->vc);
  self->vc.c[self->id]++;
}
void srelease_set(const void *p) { srelease(p); }

void report_race(uintptr_t a, size_t n, bool w, bool atom, uint64_t pc,
                 const Rec &r) {
  fail("data race: t%d %s%s of %zu byte(s) at %p pc=%#lx races with earlier "
       "t%d %s%s pc=%#lx",
       self->id, atom ? "atomic " : "", w ? "write" : "read", n, (void *)a,
       (unsigned long)pc, r.tid, (r.flags & 2) ? "atomic " : "",
       (r.flags & 1) ? "write" : "read", (unsigned long)r.pc);
}

void race_granule(uintptr_t a, int mask, size_t n, bool w, bool atom,
                  uint64_t pc) {
  Cell *c = cell_of(a);
  if (!c) return;
  int me = self->id;
  int freei = -1, samei = -1, hbi = -1;
  for (int i = 0; i < 4; ++i) {
    Rec &r = c->r[i];
    if (!(r.flags & 4)) {
      if (freei < 0) freei = i;
      continue;
    }
    bool ordered = r.tid == me || r.clk <= self->vc.c[r.tid];
    if (!ordered && (r.mask & mask) && (w || (r.flags & 1)) &&
        !(atom && (r.flags & 2)))
      report_race(a, n, w, atom, pc, r);
    if (r.tid == me && r.mask == mask &&
        (bool)(r.flags & 1) == w && (bool)(r.flags & 2) == atom)
      samei = i;
    if (ordered && (r.mask & ~mask) == 0 && (w || !(r.flags & 1)) &&
        (!(atom) || (r.flags & 2)))
      hbi = i;  // dominated by this access
  }
  int k = samei >= 0 ? samei : hbi >= 0 ? hbi : freei >= 0 ? freei
                                            : (int)((a >> 3) + pc) & 3;
  Rec &r = c->r[k];
  r.clk = self->vc.c[me];
  r.tid = me;
  r.mask = mask;
  r.flags = 4 | (w ? 1 : 0) | (atom ? 2 : 0);
  r.pc = pc;
}

inline void arena_check(uintptr_t a, size_t n, bool w, uint64_t pc) {
#ifdef MC_TSAN
  if (a - ARENA < ARENA_SZ) {
    unsigned char s = ashadow[(a - ARENA) >> 4];
    unsigned char e = ashadow[(a + n - 1 - ARENA) >> 4];
    if (s != 1 || e != 1)
      fail("%s: t%d %s of %zu byte(s) at %p pc=%#lx",
           (s == 2 || e == 2) ? "use after free" : "heap out-of-bounds access",
           self ? self->id : -1, w ? "write" : "read", n, (void *)a,
           (unsigned long)pc);
  }
#endif
}

void mem_access(uintptr_t a, size_t n, bool w, bool atom, uint64_t pc) {
  if (!on()) return;
  if (n == 0) return;
  arena_check(a, n, w, pc);
  if (nthr < 2 || self->quiet || !cur_opt->races) return;
  if (n > 8192) n = 8192;
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t g = a & ~7ull;
    uintptr_t ge = std::min<uintptr_t>(e, g + 8);
    int mask = ((1 << (ge - g)) - 1) & ~((1 << (a - g)) - 1);
    race_granule(g, mask, n, w, atom, pc);
    a = ge;
  }
}

void shadow_clear(uintptr_t a, size_t n) {
  // only touch pages that exist
  for (uintptr_t p = a & ~4095ull; p < a + n; p += 4096) {
    uint64_t page = p >> 12;
    uint64_t h = (page * 0x9E3779B97F4A7C15ull) >> 49;
    for (;;) {
      PageEnt &e = ptab[h & (PT - 1)];
      if (e.page == 0) break;
      if (e.page == page + 1) {
        memset((void *)e.cells, 0, 512 * sizeof(Cell));
        break;
      }
      ++h;
    }
  }
}

// ---------------------------------------------------------------- choices
int take_choice(int n, const unsigned char *cls, const char *tag) {
  Slot *s = cur_slot;
  int i = s->nchoices;
  if (i >= MAXC || s->npool + n > POOL)
    fail("execution too long: more than %d choice points (livelock?)", i);
  int c = 0;
  if (i < s->prefix_len) {
    c = s->chosen[i];
    if (c >= n) {
      s->diverged = 1;
      end_exec(4);
    }
  }
  s->chosen[i] = c;
  s->nopt[i] = n;
  s->off[i] = s->npool;
  for (int k = 0; k < n; ++k) s->pool[s->npool++] = cls[k];
  s->nchoices = i + 1;
  return c;
}

bool mutex_free(pthread_mutex_t *m, T *t) {
  if (m->__data.__lock == 0) return true;
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP &&
         m->__data.__owner == t->id + 1;
}
struct RW {
  int readers;
  int writer;  // tid+1
};

bool enabled(T *t) {
  switch (t->kind) {
    case K_RUN: return true;
    case K_LOCK: return mutex_free(t->mtx, t);
    case K_COND: return t->signaled && mutex_free(t->mtx, t);
    case K_JOIN: return ((T *)t->obj)->finished;
    case K_FUTEX: return t->signaled;
    case K_SLEEP: return t->deadline && g_now >= t->deadline;
    case K_ONCE: return *(int *)t->obj != 1;
    case K_QUIESCE: return false;
    case K_PRED: return t->pred(t->obj);
    case K_RD: return ((RW *)t->obj)->writer == 0;
    case K_WR: return ((RW *)t->obj)->writer == 0 && ((RW *)t->obj)->readers == 0;
    case K_FIN: return false;
  }
  return false;
}

std::string describe(T *t) {
  char b[256];
  if (t->finished) return "";
  switch (t->kind) {
    case K_LOCK:
      snprintf(b, sizeof b, "t%d waits for mutex held by t%d", t->id,
               t->mtx->__data.__owner - 1);
      break;
    case K_COND:
      snprintf(b, sizeof b, "t%d waits on condvar", t->id);
      break;
    case K_JOIN:
      snprintf(b, sizeof b, "t%d joins t%d", t->id, ((T *)t->obj)->id);
      break;
    default:
      snprintf(b, sizeof b, "t%d blocked in %s %s", t->id, kind_name[t->kind],
               t->what ? t->what : "");
  }
  return b;
}

[[noreturn]] void deadlock() {
  std::string s;
  for (int i = 0; i < nthr; ++i)
    if (!thr[i].finished) {
      if (s.size()) s += "; ";
      s += describe(&thr[i]);
    }
  fail("no thread can proceed: %s", s.c_str());
}

bool main_done = false;

// The heart: the calling thread has set its pending operation; decide who runs
// next, hand over if necessary; returns when the caller's operation may be
// executed.
void sched_core(bool finishing) {
  T *me = self;
  Slot *s = cur_slot;
  if (++s->steps > (unsigned)cur_opt->max_steps)
    fail("no quiescence within %d scheduling steps (livelock?)",
         cur_opt->max_steps);
  T *opt[3 * MAXT];
  int why[3 * MAXT];
  unsigned char cls[3 * MAXT];
  int n = 0;
  bool me_en = !finishing && enabled(me);
  bool voluntary = me->yielded || me->run_len > 400;
  bool me_first = me_en && !voluntary;
  if (me_first) {
    opt[n] = me, why[n] = 0, cls[n] = 0, ++n;
  }
  unsigned char oc = me_first ? 1 : 0;
  for (int i = 0; i < nthr; ++i) {
    T *t = &thr[i];
    if (t == me || t->finished) continue;
    if (enabled(t)) opt[n] = t, why[n] = 0, cls[n] = oc, ++n;
  }
  if (me_en && !me_first) opt[n] = me, why[n] = 0, cls[n] = 0, ++n;
  int nen = n;
  bool any_en = n > 0;
  // quiesce waiters: enabled when nothing else can run without time passing
  bool overdue = false;  // a timeout that needs no time to pass
  for (int i = 0; i < nthr; ++i) {
    T *t = &thr[i];
    if (t->finished || !t->deadline || t->deadline > g_now) continue;
    if ((t->kind == K_COND || t->kind == K_FUTEX) && !t->signaled) overdue = true;
    if (t->kind == K_PRED && !t->pred(t->obj)) overdue = true;
  }
  if (!any_en && !overdue) {
    for (int i = 0; i < nthr; ++i) {
      T *t = &thr[i];
      if (!t->finished && t->kind == K_QUIESCE) {
        opt[n] = t, why[n] = 0, cls[n] = 0, ++n;
        break;
      }
    }
    any_en = n > 0;
  }
  // time: a waiter with a deadline may be timed out
  uint64_t min_dl = 0;
  for (int i = 0; i < nthr; ++i) {
    T *t = &thr[i];
    if (t->finished || !t->deadline) continue;
    if (t->kind == K_SLEEP && g_now >= t->deadline) continue;
    if (t->kind == K_COND && t->signaled) continue;
    if (t->kind == K_FUTEX && t->signaled) continue;
    if (t->kind == K_PRED && t->pred(t->obj)) continue;
    if (!min_dl || t->deadline < min_dl) min_dl = t->deadline;
  }
  if (min_dl) {
    for (int i = 0; i < nthr; ++i) {
      T *t = &thr[i];
      if (t->finished || !t->deadline) continue;
      if (t->kind == K_SLEEP && g_now >= t->deadline) continue;
      if ((t->kind == K_COND || t->kind == K_FUTEX) && t->signaled) continue;
      if (t->kind == K_PRED && t->pred(t->obj)) continue;
      bool expired = t->deadline <= g_now;
      bool earliest = t->deadline == min_dl;
      unsigned char c = (!any_en && (earliest || expired)) ? 0 : 1;
      opt[n] = t, why[n] = 1, cls[n] = c, ++n;
    }
  }
  // default must be a free option: move a free one first
  if (n && cls[0] != 0)
    for (int i = 1; i < n; ++i)
      if (cls[i] == 0) {
        std::swap(opt[0], opt[i]);
        std::swap(why[0], why[i]);
        std::swap(cls[0], cls[i]);
        break;
      }
  if (cur_opt->delays)
    for (int i = 1; i < n; ++i) if (cls[i] == 0) cls[i] = 1;
  if (g_budget[2] > 0)
    for (int i = 0; i < nthr && n; ++i) {
      T *t = &thr[i];
      if (!t->finished && t->kind == K_COND && !t->signaled)
        opt[n] = t, why[n] = 2, cls[n] = 2, ++n;
    }
  (void)nen;
  if (n == 0) {
    bool blocked_ok = main_done && cur_opt->blocked_ok;
    if (blocked_ok) end_exec(2);
    deadlock();
  }
  int k = 0;
  if (n > 1) k = take_choice(n, cls, "sched");
  T *nx = opt[k];
  if (why[k] == 1) {
    if (g_now < nx->deadline) g_now = nx->deadline;
    if (nx->kind == K_COND) {
      // timed out: now has to get the mutex back
      nx->wake = 1;
      nx->kind = K_LOCK;
      nx->deadline = 0;
      if (!mutex_free(nx->mtx, nx)) {
        // cannot run yet: decide again
        nx->yielded = nx == me ? me->yielded : false;
        sched_core(finishing);
        return;
      }
    } else {
      nx->wake = 1;
    }
  } else if (why[k] == 2) {
    nx->wake = 2;
    nx->kind = K_LOCK;
    nx->deadline = 0;
    if (!mutex_free(nx->mtx, nx)) {
      sched_core(finishing);
      return;
    }
  } else {
    if (nx->kind != K_LOCK) nx->wake = 0;
  }
  if (g_replay && (nx != me || why[k] || getenv("MC_STEPS")))
    logf("    -> t%d (%s %s)%s @%luus", nx->id, kind_name[nx->kind],
         nx->what ? nx->what : "", why[k] == 1 ? " [timeout]" : "", (unsigned long)((g_now - T0) / 1000));
  me->yielded = false;
  if (nx == me) {
    me->run_len++;
    return;
  }
  me->run_len = 0;
  nx->run_len = 0;
  last_run = nx->id;
  __atomic_store_n(&nx->go, 1, __ATOMIC_SEQ_CST);
  rfutex(&nx->go, FUTEX_WAKE, 1);
  if (finishing) return;
  while (!__atomic_load_n(&me->go, __ATOMIC_SEQ_CST)) rfutex(&me->go, FUTEX_WAIT, 0);
  me->go = 0;
}

void sched_op(Kind k, void *obj, const char *what = nullptr) {
  T *me = self;
  me->kind = k;
  me->obj = obj;
  me->what = what;
  me->deadline = 0;
  me->wake = 0;
  sched_core(false);
  me->kind = K_RUN;
}

void point(const char *what) {
  if (self->quiet) return;
  sched_op(K_RUN, nullptr, what);
}

void finish_thread(void *) {
  T *me = self;
  if (!me || !g_active) return;
  me->finished = true;
  me->kind = K_FIN;
  me->vc.c[me->id]++;
  sched_core(true);
  self = nullptr;
}

void *thread_main(void *p) {
  T *t = (T *)p;
  self = t;
  pthread_setspecific(fin_key, t);
  while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) rfutex(&t->go, FUTEX_WAIT, 0);
  t->go = 0;
  t->kind = K_RUN;
#ifdef MC_TSAN
  {
    pthread_attr_t a;
    void *sp;
    size_t sz;
    if (pthread_getattr_np(pthread_self(), &a) == 0) {
      pthread_attr_getstack(&a, &sp, &sz);
      pthread_attr_destroy(&a);
      shadow_clear((uintptr_t)sp + sz - 65536, 65536);
    }
  }
#endif
  return t->fn(t->arg);
}

// ---------------------------------------------------------------- end of exec
bool g_inproc = false;
[[noreturn]] void end_exec(int state) {
  g_active = false;
  cur_slot->state = state;
  if (cur_slot->state == 3 || !g_inproc) _exit(state == 3 ? 3 : 0);
  _exit(90 + state);  // abandoned in the middle: cannot continue in-process
}

void on_signal(int sig, siginfo_t *si, void *) {
  if (!cur_slot || cur_slot->state != 1) _exit(99);
  if (failing) _exit(97);
  failing = true;
  g_active = false;
  const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT"
                : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS"
                : sig == SIGILL ? "SIGILL" : sig == SIGPROF ? "no progress (CPU time limit for one execution)"
                : sig == SIGPIPE ? "SIGPIPE" : "signal";
  if (sig == SIGALRM) {
    cur_slot->state = 5;
    snprintf(cur_slot->msg, MSGCAP, "execution blocked outside the scheduler");
    _exit(98);
  }
  if (!cur_slot->msg[0])
    snprintf(cur_slot->msg, MSGCAP, "crash: %s%s", n,
             (sig == SIGSEGV && (uintptr_t)si->si_addr < 4096) ? " (null access)" : "");
  logf("[t%d] %s", self ? self->id : -1, cur_slot->msg);
  log_backtrace();
  cur_slot->state = 3;
  _exit(3);
}

void on_terminate() {
  if (cur_slot && cur_slot->state == 1) {
    std::string w = "std::terminate called";
    if (auto t = abi::__cxa_current_exception_type()) {
      w += " (uncaught ";
      int st;
      char *d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
      w += d ? d : t->name();
      try {
        throw;
      } catch (std::exception &e) {
        w += ": ";
        w += e.what();
      } catch (...) {
      }
      w += ")";
    }
    fail("crash: %s", w.c_str());
  }
  abort();
}

void install_handlers() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF, SIGALRM, SIGPIPE})
    sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
}

struct PruneEx {};
void run_one(ScenarioRec &sc, Slot *s) {
  // state reset (fork mode: fresh process; inproc: reset)
  cur_slot = s;
  cur_opt = &sc.opt;
  failing = false;
  main_done = false;
  s->nchoices = s->npool = 0;
  s->steps = 0;
  s->outcome = 0;
  s->diverged = 0;
  s->loglen = 0;
  s->log[0] = 0;
  s->msg[0] = 0;
  s->maxthreads = 1;
  memset((void *)thr, 0, sizeof thr);
  nthr = 1;
  g_now = T0;
  T *t = &thr[0];
  t->used = true;
  t->id = 0;
  t->kind = K_RUN;
  t->vc.c[0] = 1;
  self = t;
  s->state = 1;
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = 40;
  if (!g_inproc || (s->serial & 255) == 0) {
    setitimer(ITIMER_PROF, &it, nullptr);
    it.it_value.tv_sec = 300;
    setitimer(ITIMER_REAL, &it, nullptr);
  }
  g_active = true;
  try {
    sc.fn();
  } catch (PruneEx &) {
    g_active = false;
    self = nullptr;
    s->state = 4;
    return;
  }
  // let the rest finish
  main_done = true;
  for (int i = 1; i < nthr; ++i)
    if (!thr[i].finished) {
      t->quiet = 0;
      if (sc.opt.blocked_ok) {
        sched_op(K_QUIESCE, nullptr, "end");
        break;
      }
      sched_op(K_JOIN, &thr[i], "end");
    }
  g_active = false;
  s->maxthreads = nthr;
  if (s->nchoices < s->prefix_len) s->diverged = 1;
  s->state = 2;
  self = nullptr;
}

// ---------------------------------------------------------------- explorer
void lk() {
  while (__atomic_exchange_n(&S->lock, 1, __ATOMIC_ACQUIRE)) {
    int k = 0;
    while (S->lock)
      if (++k > 100) { __real_sched_yield(); k = 0; }
  }
}
void ulk() { __atomic_store_n(&S->lock, 0, __ATOMIC_RELEASE); }

struct Known {
  std::string scenario, needle;
};
std::vector<Known> knowns;
int known_index(const char *sc, const char *msg) {
  for (size_t i = 0; i < knowns.size(); ++i)
    if ((knowns[i].scenario == "*" || knowns[i].scenario == sc) &&
        strstr(msg, knowns[i].needle.c_str()))
      return (int)i;
  return -1;
}

double mono() {
  timespec ts;
  __real_clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

void push_prefix(const unsigned char *p, int n) {
  // caller holds the lock
  if (S->top + n + 4 > STKCAP) { S->stop_time = 1; return; }
  memcpy(stk + S->top, p, n);
  S->top += n;
  uint32_t L = n;
  memcpy(stk + S->top, &L, 4);
  S->top += 4;
  S->pushed++;
}

void after_exec(ScenarioRec &sc, Slot *s) {
  // account + branch
  int n = s->nchoices;
  lk();
  S->execs++;
  S->steps += s->steps + (s->steps ? 0 : n);
  S->nodes += (n - s->prefix_len > 0 ? n - s->prefix_len : 0) + 1;
  if ((uint64_t)n > S->maxdepth) S->maxdepth = n;
  if (s->maxthreads > S->maxthreads) S->maxthreads = s->maxthreads;
  if (s->diverged) S->diverged++;
  if (s->state == 4) S->pruned++;
  if (s->state == 3) {
    int k = known_index(sc.name, s->msg);
    if (k >= 0) {
      S->known_hit[k]++;
      S->nknown++;
    } else if (S->nviol++ == 0) {
      memcpy(S->viol_msg, s->msg, MSGCAP);
      S->viol_len = n;
      memcpy(S->viol_choices, s->chosen, n);
      S->stop = 1;
    }
  }
  if (s->outcome) {
    uint64_t h = s->outcome;
    unsigned i = h & 0xffff;
    for (int probe = 0; probe < 64; ++probe) {
      if (S->distinct[i] == h) break;
      if (S->distinct[i] == 0) {
        S->distinct[i] = h;
        S->ndistinct++;
        break;
      }
      i = (i + 1) & 0xffff;
    }
  }
  if (!S->stop && !s->diverged) {
    int used[NBUD] = {0, 0, 0, 0};
    unsigned char saved[1];
    (void)saved;
    for (int i = 0; i < n; ++i) {
      if (i >= s->prefix_len) {
        unsigned char c0 = s->chosen[i];
        for (int a = 0; a < s->nopt[i]; ++a) {
          if (a == c0) continue;
          int c = s->pool[s->off[i] + a];
          if (c == 0 || used[c] + 1 <= g_budget[c]) {
            s->chosen[i] = a;
            push_prefix(s->chosen, i + 1);
          }
        }
        s->chosen[i] = c0;
      }
      int c = s->pool[s->off[i] + s->chosen[i]];
      if (c) used[c]++;
    }
  }
  ulk();
}

bool pop_prefix(Slot *s) {
  for (;;) {
    lk();
    if (S->stop || S->stop_time) { ulk(); return false; }
    if (S->top > 0) {
      uint32_t L;
      S->top -= 4;
      memcpy(&L, stk + S->top, 4);
      S->top -= L;
      memcpy(s->chosen, stk + S->top, L);
      s->prefix_len = L;
      S->active++;
      ulk();
      return true;
    }
    if (S->active == 0) { ulk(); return false; }
    ulk();
    timespec ts{0, 50000};
    __real_nanosleep(&ts, nullptr);
  }
}
void done_prefix() { lk(); S->active--; ulk(); }

std::string errlog_path(int w) {
  const char *d = getenv("MC_TMP");
  return std::string(d ? d : ".") + "/mc_err_" + std::to_string(getppid()) + "_" + std::to_string(w);
}

void redirect_output(int w) {
  if (g_replay) return;
  int nul = open("/dev/null", O_RDWR);
  dup2(nul, 1);
#ifdef MC_ASAN
  std::string p = errlog_path(w);
  int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
  unlink(p.c_str());
  dup2(fd, 2);
  close(fd);
#else
  dup2(nul, 2);
#endif
  close(nul);
}

cpu_set_t g_cpus;
void pin(int w) {
  int ncpu = CPU_COUNT(&g_cpus);
  if (ncpu < 1) return;
  int want = w % ncpu, k = 0;
  for (int i = 0; i < CPU_SETSIZE; ++i)
    if (CPU_ISSET(i, &g_cpus) && k++ == want) {
      cpu_set_t c;
      CPU_ZERO(&c);
      CPU_SET(i, &c);
      sched_setaffinity(0, sizeof c, &c);
      return;
    }
}

void summarize_child_death(Slot *s, int st) {
  if (s->state == 3) return;
  char asan[3000] = "";
#ifdef MC_ASAN
  // error text written by the sanitizer
  {
    struct stat sb;
    if (fstat(2, &sb) == 0 && sb.st_size > 0) {
      char tmp[4096];
      ssize_t k = pread(2, tmp, sizeof tmp - 1, 0);
      if (k > 0) {
        tmp[k] = 0;
        char *q = strstr(tmp, "ERROR: AddressSanitizer");
        if (!q) q = strstr(tmp, "runtime error");
        if (q) {
          char *nl = strchr(q, '\n');
          if (nl) *nl = 0;
          // strip addresses to keep the text stable
          snprintf(asan, sizeof asan, "%s", q);
        }
      }
    }
  }
#endif
  if (s->state == 5) {
    s->state = 3;
    return;
  }
  if (!s->msg[0]) {
    if (asan[0])
      snprintf(s->msg, MSGCAP, "memory error: %s", asan);
    else if (WIFSIGNALED(st))
      snprintf(s->msg, MSGCAP, "crash: killed by signal %d", WTERMSIG(st));
    else
      snprintf(s->msg, MSGCAP, "crash: exited with status %d", WEXITSTATUS(st));
  }
  s->state = 3;
}

void child_setup() {
  install_handlers();
}

// fork-per-execution worker
void worker_fork(ScenarioRec &sc, int w) {
  Slot *s = &slots[w];
  pin(w);
  redirect_output(w);
  while (pop_prefix(s)) {
    int tries = 0;
  again:
    s->serial++;
    s->state = 0;
    s->msg[0] = 0;
    s->loglen = 0;
#ifdef MC_ASAN
    if (!g_replay) { int r = ftruncate(2, 0); (void)r; }
#endif
    pid_t p = fork();
    if (p == 0) {
      child_setup();
      run_one(sc, s);
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if ((s->state == 1 || s->state == 0) || s->state == 5) {
      if (((WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) || s->state == 5 || s->state == 0) && tries++ < 2)
        goto again;
      summarize_child_death(s, st);
    }
    after_exec(sc, s);
    done_prefix();
    if (S->stop) break;
  }
}

// in-process worker: one child runs many executions; a new child after a crash
void worker_inproc(ScenarioRec &sc, int w) {
  Slot *s = &slots[w];
  pin(w);
  redirect_output(w);
  while (!S->stop && !S->stop_time) {
    s->state = 0;
#ifdef MC_ASAN
    if (!g_replay) { int r = ftruncate(2, 0); (void)r; }
#endif
    pid_t p = fork();
    if (p == 0) {
      child_setup();
      g_inproc = true;
      unsigned cnt = 0;
      while (pop_prefix(s)) {
        s->serial++;
        s->state = 0;
        run_one(sc, s);
        after_exec(sc, s);
        s->state = 0;
        done_prefix();
        if (S->stop) break;
        if (++cnt > 20000) _exit(55);  // recycle
      }
      _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 55) continue;
    // died inside an execution
    if (s->state == 1) summarize_child_death(s, st);
    after_exec(sc, s);
    done_prefix();
  }
}

void map_shared() {
  auto mm = [](size_t n, int flags) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE,
                   flags | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return p;
  };
  S = (Shared *)mm(sizeof(Shared), MAP_SHARED);
  slots = (Slot *)mm(sizeof(Slot) * (NW + 1), MAP_SHARED);
  stk = (unsigned char *)mm(STKCAP, MAP_SHARED);
  ptab = (PageEnt *)mm(sizeof(PageEnt) * PT, MAP_PRIVATE);
  cellpool = (unsigned char *)mm(CELLCAP, MAP_PRIVATE);
  stab = (SyncEnt *)mm(sizeof(SyncEnt) * ST, MAP_PRIVATE);
}

void json_str(std::string &o, const char *s) {
  o += '"';
  for (; *s; ++s) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  o += '"';
}

// what is known about a scenario so far; explored bound by bound
struct Progress {
  int next = -1, pb_done = -1;
  uint64_t execs = 0, steps = 0, nodes = 0, distinct = 0, diverged = 0,
           pruned = 0, maxdepth = 0, maxthr = 0, total_execs = 0;
  uint64_t p_execs = 0, p_steps = 0, p_nodes = 0, prev_execs = ~0ull;
  bool viol = false, timed = false;
  double wall = 0;
  std::vector<int> known_hits;
  std::string vmsg;
  std::vector<unsigned char> vch;
};

void explore(ScenarioRec &sc, double budget_s, int pbmax, Progress &P) {
  double t_start = mono();
  if (P.next < 0) P.next = sc.opt.inproc ? pbmax : 0;  // no scheduling: single pass
  P.known_hits.resize(knowns.size());
  P.timed = false;
  for (; P.next <= pbmax; ++P.next) {
    int pb = P.next;
    g_budget[1] = pb;
    g_budget[2] = sc.opt.spurious;
    g_budget[3] = g_thorough && sc.opt.faults_thorough >= 0 ? sc.opt.faults_thorough : sc.opt.faults;
    memset((void *)S, 0, offsetof(Shared, distinct));
    memset((void *)S->distinct, 0, sizeof S->distinct);
    push_prefix(nullptr, 0);
    double deadline = t_start + budget_s;
    std::vector<pid_t> ws;
    int nw = NW;
    for (int w = 0; w < nw; ++w) {
      pid_t p = fork();
      if (p == 0) {
        if (sc.opt.inproc) worker_inproc(sc, w);
        else worker_fork(sc, w);
        _exit(0);
      }
      ws.push_back(p);
    }
    size_t left = ws.size();
    while (left) {
      int st;
      pid_t r = waitpid(-1, &st, WNOHANG);
      if (r > 0) { left--; continue; }
      if (mono() > deadline) S->stop_time = 1;
      timespec ts{0, 2000000};
      __real_nanosleep(&ts, nullptr);
    }
    P.total_execs += S->execs;
    for (size_t i = 0; i < knowns.size() && i < 64; ++i) P.known_hits[i] += S->known_hit[i];
    P.p_execs = S->execs; P.p_steps = S->steps; P.p_nodes = S->nodes;
    P.distinct = std::max<uint64_t>(P.distinct, (uint64_t)S->ndistinct);
    P.diverged += S->diverged;
    P.maxdepth = std::max<uint64_t>(P.maxdepth, (uint64_t)S->maxdepth);
    P.maxthr = std::max<uint64_t>(P.maxthr, (uint64_t)S->maxthreads);
    P.pruned = S->pruned;
    if (S->nviol) {
      P.viol = true;
      P.vmsg = S->viol_msg;
      P.vch.assign(S->viol_choices, S->viol_choices + S->viol_len);
      break;
    }
    if (S->stop_time) { P.timed = true; break; }
    P.execs = P.p_execs; P.steps = P.p_steps; P.nodes = P.p_nodes;
    P.pb_done = pb;
    if (S->execs == P.prev_execs && S->maxthreads <= 1) { P.next = pbmax + 1; break; }
    P.prev_execs = S->execs;
  }
  P.wall += mono() - t_start;
}

int report(ScenarioRec &sc, int pbmax, Progress &P, FILE *out) {
  int pb_done = P.pb_done;
  uint64_t execs = P.execs, steps = P.steps, nodes = P.nodes;
  bool viol = P.viol, timed = P.timed;
  auto &known_hits = P.known_hits; auto &vmsg = P.vmsg; auto &vch = P.vch;
  uint64_t total_execs = P.total_execs, p_execs = P.p_execs, distinct = P.distinct, maxdepth = P.maxdepth, maxthr = P.maxthr, pruned = P.pruned, diverged = P.diverged;
  if (timed && pb_done < 0) { execs = P.p_execs; steps = P.p_steps; nodes = P.p_nodes; }
  int nfaults = g_thorough && sc.opt.faults_thorough >= 0 ? sc.opt.faults_thorough : sc.opt.faults;
  std::string o = "{\"scenario\":";
  json_str(o, sc.name);
  char b[600];
  snprintf(b, sizeof b,
           ",\"pb_completed\":%d,\"pb_target\":%d,\"complete\":%s,"
           "\"schedules\":%lu,\"total_schedules\":%lu,\"partial_schedules\":%lu,"
           "\"transitions\":%lu,\"states\":%lu,\"distinct_outcomes\":%lu,"
           "\"max_depth\":%lu,\"max_threads\":%lu,\"pruned\":%lu,\"diverged\":%lu,"
           "\"wall_s\":%.2f,\"faults\":%d,\"spurious\":%d",
           pb_done, pbmax, timed ? "false" : "true", execs, total_execs,
           timed ? p_execs : 0ul, steps, nodes, distinct, maxdepth, maxthr,
           pruned, diverged, P.wall, nfaults, sc.opt.spurious);
  o += b;
  o += ",\"known\":[";
  bool first = true;
  for (size_t i = 0; i < known_hits.size(); ++i)
    if (known_hits[i]) {
      snprintf(b, sizeof b, "%s%zu", first ? "" : ",", i);
      o += b;
      first = false;
    }
  o += "]";
  if (viol) {
    o += ",\"violation\":";
    json_str(o, vmsg.c_str());
    o += ",\"choices\":[";
    for (size_t i = 0; i < vch.size(); ++i) {
      snprintf(b, sizeof b, "%s%d", i ? "," : "", vch[i]);
      o += b;
    }
    o += "]";
  }
  o += "}\n";
  fputs(o.c_str(), out);
  fflush(out);
  return viol ? 1 : 0;
}

}  // namespace

// ---------------------------------------------------------------- mc API
namespace mc {
Scenario::Scenario(const char *name, void (*fn)(), Options o) {
  registry().push_back({name, fn, o});
}
int choose(int n, const char *tag) {
  if (n <= 1) return 0;
  unsigned char cls[256] = {0};
  if (!on()) return 0;
  if (n > 128) {  // a choice has at most 255 alternatives
    int hi = choose((n + 127) / 128, tag);
    return hi * 128 + choose(std::min(128, n - hi * 128), tag);
  }
  int c = take_choice(n, cls, tag);
  if (g_replay) logf("[t%d] choose %s = %d/%d", self->id, tag, c, n);
  return c;
}
int fault(int n, const char *tag) {
  if (n <= 1 || g_budget[3] <= 0 || !on()) return 0;
  unsigned char cls[256];
  memset(cls, 3, sizeof cls);
  cls[0] = 0;
  int c = take_choice(n, cls, tag);
  if (g_replay && c) logf("[t%d] fault %s = %d", self->id, tag, c);
  return c;
}
void violation(const char *fmt, ...) {
  char b[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  fail("%s", b);
}
void note(const char *fmt, ...) {
  if (!cur_slot) return;
  char b[300];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  logf("[t%d @%lu] %s", self ? self->id : -1, (unsigned long)((g_now - T0) / 1000000), b);
}
void prune() {
  if (g_inproc && !g_replay) throw PruneEx{};
  end_exec(4);
}
void outcome(const std::string &s) {
  uint64_t h = cur_slot->outcome ? cur_slot->outcome : 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  if (!h) h = 1;
  cur_slot->outcome = h;
  if (g_replay) logf("outcome: %s", s.c_str());
}
void quiesce() { if (on()) sched_op(K_QUIESCE, nullptr, "quiesce"); }
void sleep_ns(uint64_t ns) {
  if (!on()) return;
  T *me = self;
  me->kind = K_SLEEP;
  me->obj = nullptr;
  me->what = "sleep";
  me->deadline = g_now + ns;
  me->wake = 0;
  sched_core(false);
  me->kind = K_RUN;
  me->deadline = 0;
}
uint64_t now_ns() { return g_now - T0; }
int self_id() { return self ? self->id : -1; }
bool thorough() { return g_thorough; }
void point() { if (on()) ::point("point"); }
Quiet::Quiet() { if (self) self->quiet++; }
Quiet::~Quiet() { if (self) self->quiet--; }
void hb_release(void *p) { if (on()) srelease(p); }
void hb_acquire(void *p) { if (on()) sacquire(p); }
int live_threads() {
  int k = 0;
  for (int i = 0; i < nthr; ++i)
    if (!thr[i].finished && &thr[i] != self) ++k;
  return k;
}
size_t live_bytes() { return alive_bytes; }
}  // namespace mc

namespace mcint {
bool active() { return on(); }
int block_until(bool (*pred)(void *), void *arg, uint64_t deadline, const char *what) {
  T *me = self;
  me->kind = K_PRED;
  me->obj = arg;
  me->pred = pred;
  me->what = what;
  me->deadline = deadline;
  me->wake = 0;
  sched_core(false);
  me->kind = K_RUN;
  me->deadline = 0;
  return me->wake;
}
void sched(const char *what) { point(what); }
uint64_t deadline_in(uint64_t ns) { return g_now + ns; }
void acquire(const void *p) { sacquire(p); }
void release(const void *p) { srelease(p); }
}  // namespace mcint

// ---------------------------------------------------------------- wrappers
#define W(name) __wrap_##name
namespace {
uint64_t abs_ns(clockid_t c, const timespec *ts) {
  uint64_t v = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  if ((int64_t)ts->tv_sec < 0) return 1;
  if (c == CLOCK_REALTIME) v = v > REAL_OFF ? v - REAL_OFF : 1;
  if (v > (1ull << 62)) v = 1ull << 62;
  return v ? v : 1;
}
void do_lock(pthread_mutex_t *m) {
  m->__data.__lock = 1;
  m->__data.__count++;
  m->__data.__owner = self->id + 1;
  sacquire(m);
}
void check_obj(void *p, const char *what) {
#ifdef MC_TSAN
  uintptr_t a = (uintptr_t)p;
  if (a - ARENA < ARENA_SZ && ashadow[(a - ARENA) >> 4] != 1)
    fail("use after free: %s on destroyed object", what);
#endif
}
int do_cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline) {
  T *me = self;
  check_obj(c, "condition variable wait");
  point("cond_wait");
  if (!(m->__data.__lock && m->__data.__owner == me->id + 1))
    fail("condition variable wait without holding the mutex");
  srelease(m);
  m->__data.__lock = 0;
  unsigned saved = m->__data.__count;
  m->__data.__count = 0;
  m->__data.__owner = 0;
  me->kind = K_COND;
  me->obj = c;
  me->mtx = m;
  me->signaled = false;
  me->deadline = deadline;
  me->wake = 0;
  me->what = "cond_wait";
  me->qseq = ++g_qseq;
  sched_core(false);
  int w = me->wake;
  me->kind = K_RUN;
  me->deadline = 0;
  me->signaled = false;
  check_obj(m, "mutex reacquire");
  do_lock(m);
  m->__data.__count = saved;
  return w == 1 ? ETIMEDOUT : 0;
}
bool guard_on = true;
}  // namespace

extern "C" {
int W(pthread_create)(pthread_t *pt, const pthread_attr_t *a,
                      void *(*fn)(void *), void *arg) {
  if (!on()) return __real_pthread_create(pt, a, fn, arg);
  if (nthr >= MAXT) fail("too many threads");
  T *t = &thr[nthr];
  memset((void *)t, 0, sizeof *t);
  t->used = true;
  t->id = nthr;
  t->fn = fn;
  t->arg = arg;
  t->kind = K_RUN;
  t->vc = self->vc;
  t->vc.c[t->id] = 1;
  self->vc.c[self->id]++;
  if (a) {
    int ds = 0;
    pthread_attr_getdetachstate(a, &ds);
    t->detached = ds == PTHREAD_CREATE_DETACHED;
  }
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 512 * 1024);
  int r = __real_pthread_create(&t->pt, &at, thread_main, t);
  pthread_attr_destroy(&at);
  if (r) fail("pthread_create failed for real: %d", r);
  nthr++;
  *pt = t->pt;
  if (g_replay) logf("[t%d] creates t%d", self->id, t->id);
  point("create");
  return 0;
}
static T *find_pt(pthread_t p) {
  for (int i = nthr - 1; i >= 1; --i)
    if (thr[i].used && pthread_equal(thr[i].pt, p)) return &thr[i];
  return nullptr;
}
int W(pthread_join)(pthread_t p, void **ret) {
  if (!on()) return __real_pthread_join(p, ret);
  T *t = find_pt(p);
  if (!t) fail("join of unknown thread");
  if (t == self) return EDEADLK;
  sched_op(K_JOIN, t, "join");
  vjoin(self->vc, t->vc);
  // the real thread ends on its own; do not wait for it with the scheduler on
  int r = __real_pthread_join(p, ret);
  t->used = false;
  return r;
}
int W(pthread_detach)(pthread_t p) {
  if (!on()) return __real_pthread_detach(p);
  T *t = find_pt(p);
  if (t) t->detached = true;
  return 0;  // really detached at process exit
}
int W(pthread_mutex_lock)(pthread_mutex_t *m) {
  if (!on()) {
    if (g_active) return 0;
    return __real_pthread_mutex_lock(m);
  }
  check_obj(m, "mutex lock");
  T *me = self;
  if (me->quiet && mutex_free(m, me)) { do_lock(m); return 0; }
  me->mtx = m;
  if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP && m->__data.__lock &&
      m->__data.__owner == me->id + 1) {
    m->__data.__count++;
    return 0;
  }
  me->kind = K_LOCK;
  me->obj = m;
  me->mtx = m;
  me->what = "mutex";
  me->deadline = 0;
  me->wake = 0;
  sched_core(false);
  me->kind = K_RUN;
  check_obj(m, "mutex lock");
  do_lock(m);
  return 0;
}
int W(pthread_mutex_trylock)(pthread_mutex_t *m) {
  if (!on()) return g_active ? 0 : __real_pthread_mutex_trylock(m);
  check_obj(m, "mutex trylock");
  point("trylock");
  if (!mutex_free(m, self)) return EBUSY;
  do_lock(m);
  return 0;
}
static int timed_lock(pthread_mutex_t *m, uint64_t dl) {
  T *me = self;
  struct L {
    static bool f(void *p) { return mutex_free((pthread_mutex_t *)p, &thr[0]); }
  };
  if (mutex_free(m, me)) { point("timedlock"); }
  if (mutex_free(m, me)) { do_lock(m); return 0; }
  me->kind = K_PRED;
  me->obj = m;
  me->pred = &L::f;
  me->deadline = dl;
  me->what = "timedlock";
  me->wake = 0;
  sched_core(false);
  me->kind = K_RUN;
  me->deadline = 0;
  if (me->wake == 1) return ETIMEDOUT;
  do_lock(m);
  return 0;
}
int W(pthread_mutex_timedlock)(pthread_mutex_t *m, const timespec *ts) {
  if (!on()) return __real_pthread_mutex_timedlock(m, ts);
  return timed_lock(m, abs_ns(CLOCK_REALTIME, ts));
}
int W(pthread_mutex_clocklock)(pthread_mutex_t *m, clockid_t c, const timespec *ts) {
  if (!on()) return __real_pthread_mutex_clocklock(m, c, ts);
  return timed_lock(m, abs_ns(c, ts));
}
int W(pthread_mutex_unlock)(pthread_mutex_t *m) {
  if (!on()) {
    if (g_active) return 0;
    return __real_pthread_mutex_unlock(m);
  }
  check_obj(m, "mutex unlock");
  if (!m->__data.__lock || m->__data.__owner != self->id + 1)
    fail("mutex unlocked by a thread that does not hold it");
  if (--m->__data.__count) return 0;
  srelease(m);
  m->__data.__lock = 0;
  m->__data.__owner = 0;
  return 0;
}
int W(pthread_cond_wait)(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!on()) return __real_pthread_cond_wait(c, m);
  return do_cond_wait(c, m, 0);
}
int W(pthread_cond_timedwait)(pthread_cond_t *c, pthread_mutex_t *m, const timespec *ts) {
  if (!on()) return __real_pthread_cond_timedwait(c, m, ts);
  return do_cond_wait(c, m, abs_ns(CLOCK_REALTIME, ts));
}
int W(pthread_cond_clockwait)(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *ts) {
  if (!on()) return __real_pthread_cond_clockwait(c, m, k, ts);
  return do_cond_wait(c, m, abs_ns(k, ts));
}
int W(pthread_cond_signal)(pthread_cond_t *c) {
  if (!on()) return g_active ? 0 : __real_pthread_cond_signal(c);
  check_obj(c, "condition variable signal");
  point("cond_signal");
  T *w[MAXT];
  int n = 0;
  for (int i = 0; i < nthr; ++i)
    if (!thr[i].finished && thr[i].kind == K_COND && thr[i].obj == c && !thr[i].signaled)
      w[n++] = &thr[i];
  if (!n) return 0;
  std::sort(w, w + n, [](T *a, T *b) { return a->qseq < b->qseq; });
  int k = 0;
  if (n > 1) {
    unsigned char cls[MAXT] = {0};
    k = take_choice(n, cls, "cond_signal");
  }
  w[k]->signaled = true;
  return 0;
}
int W(pthread_cond_broadcast)(pthread_cond_t *c) {
  if (!on()) return g_active ? 0 : __real_pthread_cond_broadcast(c);
  check_obj(c, "condition variable broadcast");
  point("cond_broadcast");
  for (int i = 0; i < nthr; ++i)
    if (!thr[i].finished && thr[i].kind == K_COND && thr[i].obj == c) thr[i].signaled = true;
  return 0;
}
int W(pthread_once)(pthread_once_t *o, void (*f)()) {
  if (!on()) return __real_pthread_once(o, f);
  int *st = (int *)o;
  check_obj(o, "call_once");
  if (!self->quiet) point("once");
  for (;;) {
    if (*st == 2) { sacquire(o); return 0; }
    if (*st == 0) {
      *st = 1;
      try {
        f();
      } catch (...) {
        *st = 0;
        throw;
      }
      *st = 2;
      srelease(o);
      return 0;
    }
    sched_op(K_ONCE, o, "call_once");
  }
}
int W(pthread_rwlock_rdlock)(pthread_rwlock_t *l) {
  if (!on()) return g_active ? 0 : __real_pthread_rwlock_rdlock(l);
  check_obj(l, "rwlock");
  sched_op(K_RD, l, "rdlock");
  ((RW *)l)->readers++;
  sacquire(l);
  return 0;
}
int W(pthread_rwlock_wrlock)(pthread_rwlock_t *l) {
  if (!on()) return g_active ? 0 : __real_pthread_rwlock_wrlock(l);
  check_obj(l, "rwlock");
  sched_op(K_WR, l, "wrlock");
  ((RW *)l)->writer = self->id + 1;
  sacquire(l);
  sacquire((char *)l + 1);
  return 0;
}
int W(pthread_rwlock_tryrdlock)(pthread_rwlock_t *l) {
  if (!on()) return g_active ? 0 : __real_pthread_rwlock_tryrdlock(l);
  point("tryrdlock");
  if (((RW *)l)->writer) return EBUSY;
  ((RW *)l)->readers++;
  sacquire(l);
  return 0;
}
int W(pthread_rwlock_trywrlock)(pthread_rwlock_t *l) {
  if (!on()) return g_active ? 0 : __real_pthread_rwlock_trywrlock(l);
  point("trywrlock");
  if (((RW *)l)->writer || ((RW *)l)->readers) return EBUSY;
  ((RW *)l)->writer = self->id + 1;
  sacquire(l);
  sacquire((char *)l + 1);
  return 0;
}
int W(pthread_rwlock_unlock)(pthread_rwlock_t *l) {
  if (!on()) return g_active ? 0 : __real_pthread_rwlock_unlock(l);
  check_obj(l, "rwlock");
  RW *r = (RW *)l;
  if (r->writer == self->id + 1) {
    srelease(l);
    r->writer = 0;
  } else {
    srelease((char *)l + 1);
    if (--r->readers < 0) fail("rwlock unlocked too often");
  }
  return 0;
}
int W(sched_yield)() {
  if (!on()) return __real_sched_yield();
  self->yielded = true;
  point("yield");
  return 0;
}
static int do_sleep(uint64_t until) {
  T *me = self;
  me->kind = K_SLEEP;
  me->obj = nullptr;
  me->what = "sleep";
  me->deadline = until ? until : 1;
  me->wake = 0;
  if (me->deadline <= g_now) me->yielded = true;
  sched_core(false);
  me->kind = K_RUN;
  me->deadline = 0;
  return 0;
}
int W(nanosleep)(const timespec *ts, timespec *rem) {
  if (!on()) return __real_nanosleep(ts, rem);
  return do_sleep(g_now + (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int W(clock_nanosleep)(clockid_t c, int fl, const timespec *ts, timespec *rem) {
  if (!on()) return __real_clock_nanosleep(c, fl, ts, rem);
  if (fl & TIMER_ABSTIME) return do_sleep(abs_ns(c, ts));
  return do_sleep(g_now + (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int W(usleep)(useconds_t u) {
  if (!on()) return __real_usleep(u);
  return do_sleep(g_now + (uint64_t)u * 1000);
}
unsigned W(sleep)(unsigned s) {
  if (!on()) return __real_sleep(s);
  return do_sleep(g_now + (uint64_t)s * 1000000000ull);
}
int W(clock_gettime)(clockid_t c, timespec *ts) {
  if (!on()) return __real_clock_gettime(c, ts);
  uint64_t v = g_now + (c == CLOCK_REALTIME ? REAL_OFF : 0);
  ts->tv_sec = v / 1000000000ull;
  ts->tv_nsec = v % 1000000000ull;
  return 0;
}
int W(gettimeofday)(struct timeval *tv, void *z) {
  if (!on()) return __real_gettimeofday(tv, z);
  uint64_t v = g_now + REAL_OFF;
  tv->tv_sec = v / 1000000000ull;
  tv->tv_usec = v % 1000000000ull / 1000;
  return 0;
}
time_t W(time)(time_t *p) {
  if (!on()) return __real_time(p);
  time_t v = (g_now + REAL_OFF) / 1000000000ull;
  if (p) *p = v;
  return v;
}
long W(syscall)(long nr, long a, long b, long c, long d, long e, long f) {
  if (!on() || nr != SYS_futex) return rsyscall(nr, a, b, c, d, e, f);
  int op = (int)b & 127;
  bool rt = (b & FUTEX_CLOCK_REALTIME) != 0;
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    check_obj((void *)a, "futex wait");
    point("futex_wait");
    if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
    T *me = self;
    me->kind = K_FUTEX;
    me->obj = (void *)a;
    me->signaled = false;
    me->what = "future/static-init wait";
    me->wake = 0;
    me->deadline = 0;
    if (d) {
      const timespec *ts = (const timespec *)d;
      if (op == FUTEX_WAIT)
        me->deadline = g_now + (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
      else
        me->deadline = abs_ns(rt ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
      if (!me->deadline) me->deadline = 1;
    }
    sched_core(false);
    me->kind = K_RUN;
    me->deadline = 0;
    if (me->wake == 1) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    // NB: like the kernel, a wake only uses the address
    point("futex_wake");
    int n = 0;
    for (int i = 0; i < nthr && n < (int)c; ++i)
      if (!thr[i].finished && thr[i].kind == K_FUTEX && thr[i].obj == (void *)a && !thr[i].signaled)
        thr[i].signaled = true, ++n;
    return n;
  }
  return rsyscall(nr, a, b, c, d, e, f);
}
int W(__cxa_guard_acquire)(uint64_t *g) {
  int r = __real___cxa_guard_acquire(g);
  if (on() && r == 0) sacquire(g);
  return r;
}
void W(__cxa_guard_release)(uint64_t *g) {
  if (on()) srelease(g);
  __real___cxa_guard_release(g);
}
unsigned W(_ZNSt6thread20hardware_concurrencyEv)() { return 2; }
void W(__assert_fail)(const char *a, const char *f, unsigned l, const char *fn) {
  if (on() || (cur_slot && cur_slot->state == 1)) {
    const char *b = strrchr(f, '/');
    fail("assertion failed: %s (%s)", a, b ? b + 1 : f);
  }
  fprintf(stderr, "assert %s %s:%u %s\n", a, f, l, fn);
  abort();
}
}

// ---------------------------------------------------------------- allocation
#ifdef MC_TSAN
namespace {
bool arena_ready = false;
void arena_init() {
  void *p = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA) _exit(96);
  ashadow = (unsigned char *)mmap(nullptr, ARENA_SZ >> 4, PROT_READ | PROT_WRITE,
                                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  arena_ready = true;
}
int alloc_lock = 0;
void *arena_alloc(size_t n, size_t al) {
  while (__atomic_exchange_n(&alloc_lock, 1, __ATOMIC_ACQUIRE)) {}
  if (!arena_ready) arena_init();
  if (al < 16) al = 16;
  uintptr_t p = (abump + 16 + al - 1) & ~(al - 1);
  size_t m = (n + 15) & ~15ull;
  if (m == 0) m = 16;
  bool ok = n < (1ull << 31) && p + m + 16 - ARENA < ARENA_SZ;
  if (ok) abump = p + m + 16;
  __atomic_store_n(&alloc_lock, 0, __ATOMIC_RELEASE);
  if (!ok) return nullptr;
  ((size_t *)p)[-2] = n;
  memset(ashadow + ((p - ARENA) >> 4), 1, m >> 4);
  alive_bytes += n;
  return (void *)p;
}
void arena_free(void *q) {
  if (!q) return;
  uintptr_t p = (uintptr_t)q;
  if (p - ARENA >= ARENA_SZ) { free(q); return; }
  size_t n = ((size_t *)p)[-2];
  size_t m = (n + 15) & ~15ull;
  if (m == 0) m = 16;
  if (ashadow[(p - ARENA) >> 4] == 2) fail("double free");
  if (ashadow[(p - ARENA) >> 4] != 1) fail("free of invalid pointer");
  if (on() && n) {
    mem_access(p, n, true, false, (uint64_t)__builtin_return_address(0));
  }
  memset(ashadow + ((p - ARENA) >> 4), 2, m >> 4);
  alive_bytes -= n;
}
}  // namespace
void *operator new(size_t n) {
  void *p = arena_alloc(n, 16);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) {
  void *p = arena_alloc(n, 16);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return arena_alloc(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return arena_alloc(n, 16); }
void *operator new(size_t n, std::align_val_t a) {
  void *p = arena_alloc(n, (size_t)a);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void *p) noexcept { arena_free(p); }
void operator delete[](void *p) noexcept { arena_free(p); }
void operator delete(void *p, size_t) noexcept { arena_free(p); }
void operator delete[](void *p, size_t) noexcept { arena_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { arena_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { arena_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { arena_free(p); }

// ---------------------------------------------------------------- tsan hooks
#define PC ((uint64_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW_(n)                                                                                     \
  void __tsan_read##n(void *p) { mem_access((uintptr_t)p, n, false, false, PC); }                  \
  void __tsan_write##n(void *p) { mem_access((uintptr_t)p, n, true, false, PC); }                  \
  void __tsan_unaligned_read##n(void *p) { mem_access((uintptr_t)p, n, false, false, PC); }        \
  void __tsan_unaligned_write##n(void *p) { mem_access((uintptr_t)p, n, true, false, PC); }        \
  void __tsan_volatile_read##n(void *p) { mem_access((uintptr_t)p, n, false, false, PC); }         \
  void __tsan_volatile_write##n(void *p) { mem_access((uintptr_t)p, n, true, false, PC); }         \
  void __tsan_read_write##n(void *p) { mem_access((uintptr_t)p, n, true, false, PC); }             \
  void __tsan_unaligned_read_write##n(void *p) { mem_access((uintptr_t)p, n, true, false, PC); }
RW_(1) RW_(2) RW_(4) RW_(8) RW_(16)
void __tsan_vptr_update(void **p, void *v) {
  if (on()) {
    arena_check((uintptr_t)p, 8, true, PC);
    if (*p != v) mem_access((uintptr_t)p, 8, true, false, PC);
  }
}
void __tsan_vptr_read(void **p) { mem_access((uintptr_t)p, 8, false, false, PC); }
void __tsan_read_range(void *p, unsigned long n) { mem_access((uintptr_t)p, n, false, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { mem_access((uintptr_t)p, n, true, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  mem_access((uintptr_t)s, n, false, false, PC);
  mem_access((uintptr_t)d, n, true, false, PC);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  mem_access((uintptr_t)s, n, false, false, PC);
  mem_access((uintptr_t)d, n, true, false, PC);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  mem_access((uintptr_t)d, n, true, false, PC);
  return memset(d, c, n);
}
static inline bool apoint(int mo, bool rmw, uint64_t pc) {
  // Scheduling points: whatever the library or a harness does itself to a
  // std::atomic (see atomic_points in build.py), all seq_cst operations and
  // relaxed read-modify-writes; not the acq_rel/acquire/release operations
  // inside shared_ptr, future and static guards.
  return mo == __ATOMIC_SEQ_CST || (rmw && mo == __ATOMIC_RELAXED) || std::binary_search(apc, apc + napc, pc);
}
static void apre(volatile void *a, size_t n, int mo, bool rmw, bool store, uint64_t pc) {
  if (!on()) return;
  if (cur_opt->atomics && nthr > 1 && apoint(mo, rmw, pc) && !self->quiet) point("atomic");
  mem_access((uintptr_t)a, n, store || rmw, true, pc);
  if ((rmw || !store) && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST))
    sacquire((void *)a);
  if ((rmw || store) && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST))
    srelease((void *)a);
}
#define AT(bits, ty)                                                                          \
  ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) {                               \
    apre((volatile void *)a, sizeof(ty), mo, false, false, PC);                               \
    return *a;                                                                                \
  }                                                                                           \
  void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) {                            \
    apre(a, sizeof(ty), mo, false, true, PC);                                                 \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                 \
  }                                                                                           \
  ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) {                           \
    apre(a, sizeof(ty), mo, true, true, PC);                                                  \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                       \
  }                                                                                           \
  ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) {                          \
    apre(a, sizeof(ty), mo, true, true, PC);                                                  \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                        \
  }                                                                                           \
  ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) {                          \
    apre(a, sizeof(ty), mo, true, true, PC);                                                  \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                        \
  }                                                                                           \
  ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) {                          \
    apre(a, sizeof(ty), mo, true, true, PC);                                                  \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                        \
  }                                                                                           \
  ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) {                           \
    apre(a, sizeof(ty), mo, true, true, PC);                                                  \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                         \
  }                                                                                           \
  ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) {                          \
    apre(a, sizeof(ty), mo, true, true, PC);                                                  \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                        \
  }                                                                                           \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { \
    apre(a, sizeof(ty), mo, true, true, PC);                                                  \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
  }                                                                                           \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { \
    apre(a, sizeof(ty), mo, true, true, PC);                                                  \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
  }                                                                                           \
  ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { \
    apre(a, sizeof(ty), mo, true, true, PC);                                                  \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);         \
    return c;                                                                                 \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#endif

// ---------------------------------------------------------------- main
static void print_log(Slot *s, FILE *f) {
  fwrite(s->log, 1, s->loglen, f);
}

int main(int argc, char **argv) {
  std::string mode = argc > 1 ? argv[1] : "help";
  pthread_key_create(&fin_key, finish_thread);
  sched_getaffinity(0, sizeof g_cpus, &g_cpus);
  if (getenv("MC_WORKERS")) NW = atoi(getenv("MC_WORKERS"));
  else {
    NW = CPU_COUNT(&g_cpus);
    if (NW < 1) NW = 1;
    if (NW > 16) NW = 16;
  }
  map_shared();
#ifdef MC_TSAN
  read_apc();
#endif
  if (mode == "list") {
    for (auto &s : registry()) printf("%s\n", s.name);
    return 0;
  }
  if (mode == "explore") {
    // explore <tier> <budget_s> <out.jsonl> <known-file|-> [scenario...]
    if (argc < 6) return 2;
    g_thorough = !strcmp(argv[2], "thorough");
    double budget = atof(argv[3]);
    FILE *out = fopen(argv[4], "w");
    if (!out) { perror(argv[4]); return 2; }
    fcntl(fileno(out), F_SETFD, FD_CLOEXEC);
    if (strcmp(argv[5], "-")) {
      FILE *k = fopen(argv[5], "r");
      char line[4096];
      while (k && fgets(line, sizeof line, k)) {
        char *tab = strchr(line, '\t');
        if (!tab) continue;
        *tab = 0;
        char *nl = strchr(tab + 1, '\n');
        if (nl) *nl = 0;
        knowns.push_back({line, tab + 1});
      }
      if (k) fclose(k);
    }
    std::vector<ScenarioRec *> todo;
    for (auto &s : registry()) {
      if (s.opt.thorough_only && !g_thorough) continue;
      bool sel = argc <= 6;
      for (int i = 6; i < argc; ++i) {
        size_t L = strlen(argv[i]);
        if (!strcmp(argv[i], s.name) || (argv[i][L - 1] == '*' && !strncmp(argv[i], s.name, L - 1))) sel = true;
      }
      if (sel) todo.push_back(&s);
    }
    int rc = 0;
    double t0 = mono();
    // what one scenario does not use of its share is available to the others;
    // scenarios cut short continue with what is left at the end
    std::vector<Progress> prog(todo.size());
    std::vector<size_t> open;
    for (size_t i = 0; i < todo.size(); ++i) open.push_back(i);
    for (int round = 0; round < 3 && !open.empty(); ++round) {
      std::vector<size_t> again;
      for (size_t k = 0; k < open.size(); ++k) {
        size_t i = open[k];
        double left = budget - (mono() - t0);
        if (round && left < 0.5) { continue; }
        double share = left / (open.size() - k);
        if (share < 1) share = 1;
        int pb = g_thorough ? todo[i]->opt.pb_thorough : todo[i]->opt.pb_quick;
        if (getenv("MC_PB")) pb = atoi(getenv("MC_PB"));
        explore(*todo[i], share, pb, prog[i]);
        if (prog[i].timed && !prog[i].viol) again.push_back(i);
      }
      open = again;
    }
    for (size_t i = 0; i < todo.size(); ++i) {
      int pb = g_thorough ? todo[i]->opt.pb_thorough : todo[i]->opt.pb_quick;
      if (getenv("MC_PB")) pb = atoi(getenv("MC_PB"));
      rc |= report(*todo[i], pb, prog[i], out);
    }
    fclose(out);
    return rc;
  }
  if (mode == "replay") {
    // replay <tier> <scenario> <pb> choices...(comma separated)
    if (argc < 6) return 2;
    g_thorough = !strcmp(argv[2], "thorough");
    g_replay = true;
    for (auto &s : registry())
      if (!strcmp(s.name, argv[3])) {
        g_budget[1] = atoi(argv[4]);
        g_budget[2] = s.opt.spurious;
        g_budget[3] = g_thorough && s.opt.faults_thorough >= 0 ? s.opt.faults_thorough : s.opt.faults;
        Slot *sl = &slots[0];
        int n = 0;
        for (char *p = strtok(argv[5], ","); p; p = strtok(nullptr, ",")) if (*p != '-') sl->chosen[n++] = atoi(p);
        sl->prefix_len = n;
        sl->state = 0;
        pid_t p = fork();
        if (p == 0) {
          child_setup();
          run_one(s, sl);
          _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        print_log(sl, stdout);
        printf("state=%d%s steps=%u choices=%d msg=%s\n", sl->state, sl->diverged ? " DIVERGED" : "", sl->steps, sl->nchoices, sl->msg);
        return sl->state == 3 || sl->state == 1 ? 1 : 0;
      }
    return 2;
  }
  fprintf(stderr, "usage: list | explore tier budget out known [scenario..] | replay tier scenario pb choices\n");
  return 2;
}
