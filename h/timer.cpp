// P11: timers of a processor under virtual time.
#include <maf/messaging/Processor.h>
#include <maf/messaging/SignalTimer.h>
#include <maf/messaging/Timer.h>
#include "util.h"
#include <chrono>
#include <functional>
#include <optional>
#include <thread>
using namespace maf::messaging;
using namespace std::chrono;
using std::string;
static uint64_t ms() { return mc::now_ns() / 1000000; }

// runs a processor in its own thread; in() executes there
struct Host {
  ProcessorInstance p = Processor::create();
  std::thread t{[this] { p->run(); }};
  bool down = false;
  void in(std::function<void()> f) { p->waitableExecute(std::move(f)).get(); }
  void stop() { if (!down) { down = true; p->stop(); t.join(); } }
  ~Host() { stop(); }
};
struct Fired { int id; uint64_t at; };

enum { NONE, STOP_SELF, RESTART_SELF, START_SELF, STOP_OTHER, START_OTHER, RESTART_OTHER, DESTROY_OTHER, ONCE_SELF, NSCRIPT };
struct World {
  static constexpr int N = 3;
  Host host;
  std::optional<Timer> tm[N];
  int script[N] = {NONE, NONE, NONE};
  int cbBudget = 2, mBudget = 2;
  std::vector<Fired> real, want;
  string log;
  int nafter = 0;
  struct Model { bool running = false, cyclic = false, started = false; uint64_t dur = 0, deadline = 0; } m[N];
  std::vector<std::pair<int, uint64_t>> after;  // timeoutAfter: id, deadline
  uint64_t base = 0;
  uint64_t clk() { return ms() - base; }

  ~World() { host.in([&] { for (auto &t : tm) t.reset(); }); host.stop(); }
  void fired(int i) {
    MC_CHECK(this_processor::instance() == host.p, "callback on another thread");
    { mc::Quiet q; real.push_back({i, clk()}); }
    int o = 1 - i;
    if (i > 1) return;
    switch (script[i]) {
      case STOP_SELF: tm[i]->stop(); break;
      case RESTART_SELF: if (cbBudget-- > 0) tm[i]->restart(); break;
      case START_SELF: if (cbBudget-- > 0) startReal(i, 23); break;
      case STOP_OTHER: tm[o]->stop(); break;
      case START_OTHER: if (cbBudget-- > 0) startReal(o, 7); break;
      case RESTART_OTHER: if (cbBudget-- > 0) tm[o]->restart(); break;
      case DESTROY_OTHER: if (cbBudget-- > 0) { tm[o].reset(); tm[o].emplace(); } break;
      case ONCE_SELF: tm[i]->setCyclic(false); break;
    }
  }
  void startReal(int i, int d) { tm[i]->start(milliseconds(d), [this, i] { fired(i); }); }
  // ---- model
  void startModel(int i, int d, uint64_t now) { m[i].started = m[i].running = true; m[i].dur = d; m[i].deadline = now + d; }
  void restartModel(int i, uint64_t now) { if (m[i].started) { m[i].running = true; m[i].deadline = now + m[i].dur; } }
  void advanceModel(uint64_t to) {
    for (;;) {
      int best = -1;
      uint64_t when = to + 1;
      for (int i = 0; i < N; ++i)
        if (m[i].running && m[i].deadline < when) best = i, when = m[i].deadline;
      for (size_t k = 0; k < after.size(); ++k)
        if (after[k].second < when) best = 100 + (int)k, when = after[k].second;
      if (best < 0) return;
      // order of timers due at the same moment is free
      if (script[0] || script[1])
        for (int i = 0; i < N; ++i)
          if (i != best && m[i].running && m[i].deadline == when) mc::prune();
      if (best >= 100) {
        want.push_back({after[best - 100].first, when});
        after.erase(after.begin() + best - 100);
        continue;
      }
      int i = best, o = 1 - i;
      want.push_back({i, when});
      if (m[i].cyclic) m[i].deadline += m[i].dur;
      else m[i].running = false;
      if (i > 1) continue;
      switch (script[i]) {
        case STOP_SELF: m[i].running = false; break;
        case RESTART_SELF: if (mBudget-- > 0) restartModel(i, when); break;
        case START_SELF: if (mBudget-- > 0) startModel(i, 23, when); break;
        case STOP_OTHER: m[o].running = false; break;
        case START_OTHER: if (mBudget-- > 0) startModel(o, 7, when); break;
        case RESTART_OTHER: if (mBudget-- > 0) restartModel(o, when); break;
        case DESTROY_OTHER: if (mBudget-- > 0) m[o] = Model(); break;
        case ONCE_SELF: m[i].cyclic = false; break;
      }
    }
  }
  void advance(int d) {
    uint64_t to = clk() + d;
    mc::sleep_ns(d * 1000000ull);
    mc::quiesce();
    advanceModel(to);
    compare("advance");
  }
  static string str(const std::vector<Fired> &v) {
    string s;
    for (auto &f : v) s += std::to_string(f.id) + "@" + std::to_string(f.at) + " ";
    return s;
  }
  void compare(const char *what) {
    { mc::Quiet q; compareQuiet(what); }
    host.in([&] {
      for (int i = 0; i < N; ++i)
        if (tm[i]) {
          bool run = tm[i]->running();
          MC_CHECK(run == m[i].running, "%s: timer %d running() is %d", log.c_str(), i, run);
        }
    });
  }
  void compareQuiet(const char *what) {
    auto key = [](const Fired &a, const Fired &b) { return a.at != b.at ? a.at < b.at : a.id < b.id; };
    bool ok = real.size() == want.size();
    if (ok) {
      auto r = real, w = want;
      std::stable_sort(r.begin(), r.end(), key);
      std::stable_sort(w.begin(), w.end(), key);
      for (size_t i = 0; i < r.size(); ++i) ok = ok && r[i].id == w[i].id && r[i].at == w[i].at;
    }
    MC_CHECK(ok, "%s: after %s fired [%s], expected [%s]", log.c_str(), what, str(real).c_str(), str(want).c_str());
  }
  enum { S0, S1, S0L, S1L, STOP0, STOP1, RE0, RE1, ADV, AFTER, CYC0, DES1, S2, NOPS };
  void op(int o) {
    log += " " + std::to_string(o);
    uint64_t now = clk();
    switch (o) {
      case S0: case S1: host.in([&] { startReal(o - S0, 7); }); startModel(o - S0, 7, now); break;
      case S0L: case S1L: host.in([&] { startReal(o - S0L, 23); }); startModel(o - S0L, 23, now); break;
      case STOP0: case STOP1: host.in([&] { tm[o - STOP0]->stop(); }); m[o - STOP0].running = false; break;
      case RE0: case RE1: host.in([&] { tm[o - RE0]->restart(); }); restartModel(o - RE0, now); break;
      case ADV: advance(10); break;
      case AFTER: {
        int id = 10 + nafter++;
        host.in([&] { Timer::timeoutAfter(milliseconds(13), [this, id] { fired(id); }); });
        after.push_back({id, now + 13});
        break;
      }
      case CYC0: host.in([&] { tm[0]->setCyclic(!m[0].cyclic); }); m[0].cyclic = !m[0].cyclic; break;
      case DES1: host.in([&] { tm[1].reset(); tm[1].emplace(); }); m[1] = Model(); break;
      case S2: host.in([&] { if (!tm[2]) tm[2].emplace(); startReal(2, 16); }); startModel(2, 16, now); break;
    }
    compare("operation");
  }
  World() {
    base = ms();
    host.in([&] { tm[0].emplace(); tm[1].emplace(); });
  }
};
MC_SCENARIO(timer_sequences, {.pb_quick = 0, .pb_thorough = 0, .max_share = 0.5}) {
  World w;
  int depth = mc::thorough() ? 5 : 4;
  for (int i = 0; i < depth; ++i) w.op(mc::choose(World::NOPS, "op"));
  w.advance(25);
  mc::outcome(World::str(w.real));
}
// three timers in every order and with every removal
MC_SCENARIO(timer_heap, {.pb_quick = 0, .pb_thorough = 0}) {
  World w;
  static const int starts[][3] = {{0, 3, 12}, {0, 12, 3}, {3, 0, 12}, {3, 12, 0}, {12, 0, 3}, {12, 3, 0}, {2, 1, 12}, {12, 2, 1}};
  int k = mc::choose(8, "order");
  for (int i = 0; i < 3; ++i) w.op(starts[k][i]);
  int n = mc::thorough() ? 3 : 2;
  for (int i = 0; i < n; ++i) w.op(mc::choose(World::NOPS, "op"));
  w.advance(10);
  w.op(mc::choose(World::NOPS, "op"));
  w.advance(40);
  mc::outcome(World::str(w.real));
}
// more timers, started in every order, one stopped or restarted: the others
// expire at their times
MC_SCENARIO(timer_many, {.pb_quick = 0, .pb_thorough = 0, .max_share = 0.4}) {
  int n = mc::thorough() ? 7 : 6;
  Host h;
  std::vector<std::unique_ptr<Timer>> tm;
  std::vector<int> order, left;
  for (int i = 0; i < n; ++i) left.push_back(i);
  Log log;
  h.in([&] { for (int i = 0; i < n; ++i) tm.push_back(std::make_unique<Timer>()); });
  uint64_t t0 = mc::now_ns();
  string what;
  for (int i = 0; i < n; ++i) {
    int k = mc::choose((int)left.size(), "next started");
    order.push_back(left[k]);
    left.erase(left.begin() + k);
    what += std::to_string(order.back());
  }
  int x = mc::choose(n, "which"), how = mc::choose(2, "stop/restart");
  what += (how ? " restart " : " stop ") + std::to_string(x);
  auto due = [&](int i) { return 10000000ull * (i + 1) + (how == 1 && i == x ? 5000000 : 0); };
  h.in([&] {
    for (int i : order)
      tm[i]->start(10 * (i + 1), [&, i] {
        log.add(i);
        MC_CHECK(mc::now_ns() - t0 == due(i), "%s: timer %d fired at %lu, due %lu", what.c_str(), i, (unsigned long)(mc::now_ns() - t0), (unsigned long)due(i));
      });
  });
  mc::sleep_ns(5000000);
  h.in([&] { how ? tm[x]->restart() : tm[x]->stop(); });
  mc::sleep_ns(10000000ull * (n + 2));
  mc::quiesce();
  for (int i = 0; i < n; ++i)
    MC_CHECK(log.count(i) == (how == 0 && i == x ? 0 : 1), "%s: fired %s", what.c_str(), log.str().c_str());
  h.in([&] { tm.clear(); });
}
// callbacks that use the timers
MC_SCENARIO(timer_scripts, {.pb_quick = 0, .pb_thorough = 0}) {
  World w;
  w.script[0] = mc::choose(NSCRIPT, "script 0");
  w.script[1] = mc::choose(NSCRIPT, "script 1");
  w.log = "scripts " + std::to_string(w.script[0]) + "," + std::to_string(w.script[1]);
  if (mc::choose(2, "cyclic")) w.op(World::CYC0);
  if (mc::choose(2, "third timer")) w.op(World::S2);
  w.op(mc::choose(2, "0 first") ? World::S0 : World::S0L);
  w.op(mc::choose(2, "1 first") ? World::S1 : World::S1L);
  w.advance(10);
  w.advance(20);
  w.op(mc::choose(5, "op") + World::STOP0);
  w.advance(40);
  mc::outcome(World::str(w.real));
}
// two timers with the same deadline, scripts
MC_SCENARIO(timer_same_deadline, {.pb_quick = 0, .pb_thorough = 0}) {
  Host h;
  std::optional<Timer> a, b;
  Log log;
  int s = mc::choose(4, "in the first: nothing/stop other/restart other/destroy other");
  auto cb = [&](std::optional<Timer> &me, std::optional<Timer> &o, int id) {
    return [&, id] {
      bool first = log.size() == 0;
      log.add(id);
      if (!first) return;
      if (s == 1) o->stop();
      if (s == 2) o->restart();
      if (s == 3) o.reset();
    };
  };
  h.in([&] { a.emplace(); b.emplace(); a->start(5, cb(a, b, 1)); b->start(5, cb(b, a, 2)); });
  mc::sleep_ns(7000000);
  mc::quiesce();
  MC_CHECK(log.size() == (s == 0 ? 2 : 1), "%s", log.str().c_str());
  mc::sleep_ns(7000000);
  mc::quiesce();
  MC_CHECK(log.size() == (s == 0 || s == 2 ? 2 : 1), "%s", log.str().c_str());
  h.in([&] { a.reset(); b.reset(); });
}
// work posted while a timer is pending is handled at once
MC_SCENARIO(timer_does_not_delay_work, {.pb_quick = 0, .pb_thorough = 0}) {
  Host h;
  std::optional<Timer> t, u;
  Log log;
  h.in([&] { t.emplace(); t->start(1000, [&] { log.add(9); }); });
  h.in([&] { log.add(1); u.emplace(); u->start(500, [&] { log.add(8); }); });
  h.in([&] { log.add(2); });
  MC_CHECK(mc::now_ns() < 400000000ull, "work waited for a timer");
  h.in([&] { t.reset(); });
  h.in([&] { log.add(3); u.reset(); });
  MC_CHECK(log.str() == "1 2 3 ", "%s", log.str().c_str());
}
// stop of the processor releases a loop that waits for a timer
MC_SCENARIO(timer_processor_stop) {
  ProcessorInstance p = Processor::create();
  std::optional<Timer> t(std::in_place, mc::choose(2, "cyclic"));
  Log log;
  std::thread r([&] { p->run(); t.reset(); });
  p->executeAsync([&] { t->start(5, [&] { log.add(1); }); });
  int when = mc::choose(3, "stop at once/before/after the timeout");
  if (when) mc::sleep_ns(when == 1 ? 2000000 : 7000000);
  p->stop();
  uint64_t t0 = mc::now_ns();
  r.join();
  size_t n = log.size();
  MC_CHECK(mc::now_ns() - t0 < 1000000000ull, "stop waited for the timer");
  mc::sleep_ns(20000000);
  MC_CHECK(log.size() == n, "fired after the processor ended");
  mc::outcome(log.str());
}
// the thread that started a timer leaves before it looks after it, another one
// goes on with the processor
MC_SCENARIO(timer_thread_leaves, {.pb_quick = 2, .pb_thorough = 3}) {
  ProcessorInstance p = Processor::create();
  Log log;
  Timer t;
  int n = mc::choose(3, "rounds");
  p->executeAsync([&] { t.start(5, [&] { log.add(1); }); });
  Obs<int> done, left;
  std::thread other([&] {
    while (!left) mc::sleep_ns(1000000);
    p->run();
  });
  std::thread([&] { for (int i = 0; i <= n; ++i) p->runOnceFor(milliseconds(i == 2 ? 10 : 0)); }).join();
  left = 1;
  p->waitableExecute([&] { Timer::timeoutAfter(7, [&] { done = 1; }); }).get();
  for (int i = 0; i < 40 && !done; ++i) { mc::sleep_ns(5000000); mc::quiesce(); }
  MC_CHECK(done == 1, "a timer of the new thread does not fire");
  MC_CHECK(log.size() <= 1 && (n == 0 || log.size() == 1), "%zu calls", log.size());
  p->stop();
  other.join();
}
// started, stopped and asked from other threads
MC_SCENARIO(timer_other_thread) {
  Host h;
  auto t = std::make_unique<Timer>();
  Log log;
  Obs<uint64_t> at;
  uint64_t t0 = mc::now_ns();
  int how = mc::choose(5, "nothing/stop/destroy/timeoutAfter/restarted");
  if (how == 3) Timer::timeoutAfter(5, [&] { log.add(1); at = mc::now_ns(); }, h.p);
  else t->start(5, [&] { MC_CHECK(this_processor::instance() == h.p, "wrong thread"); log.add(1); at = mc::now_ns(); }, h.p);
  if (how == 1) { t->stop(h.p); }
  if (how == 4) t->start(8, [&] { log.add(2); at = mc::now_ns(); }, h.p);
  t->running();
  if (how == 2) t.reset();
  uint64_t stopped = mc::now_ns();
  // the worker may be delayed for as long as the scheduler likes
  for (int i = 0; i < 12; ++i) { mc::sleep_ns(5000000); mc::quiesce(); }
  bool early = stopped - t0 < 5000000;
  if (how == 0 || how == 3) MC_CHECK(log.size() == 1 && at - t0 >= 5000000, "fired %s after %lu ns", log.str().c_str(), at - t0);
  if (how == 2 && early) MC_CHECK(log.size() == 0, "fired after it was destroyed");
  if (how == 4 && early && log.count(1) == 0) MC_CHECK(log.count(2) == 1 && at - t0 >= 8000000, "fired %s after %lu", log.str().c_str(), at - t0);
  MC_CHECK(log.count(1) <= 1 && log.count(2) <= 1, "%s", log.str().c_str());
  h.in([&] { if (t) t.reset(); });
  mc::outcome(std::to_string(how) + log.str());
}
MC_SCENARIO(timer_signal, {.pb_quick = 2, .pb_thorough = 3}) {
  Host h;
  std::optional<SignalTimer> t;
  Log log;
  bool cyc = mc::choose(2, "cyclic");
  h.in([&] {
    t.emplace();
    t->setCyclic(cyc);
    t->timeoutSignal.connect([&] { log.add(1); });
    t->timeoutSignal.connect([&] { log.add(2); });
    t->start(5);
    MC_CHECK(t->running(), "not running");
  });
  mc::sleep_ns(12000000);
  mc::quiesce();
  h.in([&] { t->stop(); MC_CHECK(!t->running(), "running"); });
  MC_CHECK(cyc ? log.size() >= 2 && log.size() % 2 == 0 : log.str() == "1 2 ", "%s", log.str().c_str());
  size_t n = log.size();
  mc::sleep_ns(12000000);
  MC_CHECK(log.size() == n, "fired after stop");
  h.in([&] { t->restart(); });
  for (int i = 0; i < 6; ++i) { mc::sleep_ns(7000000); mc::quiesce(); }
  MC_CHECK(cyc ? log.size() >= n + 2 : log.size() == n + 2, "restart did not fire");
  h.in([&] { t.reset(); });
}
