// P12: SyncTimer under virtual time, all schedules.
#include <maf/messaging/SyncTimer.h>
#include "util.h"
#include <chrono>
#include <thread>
using namespace maf::messaging;
using namespace std::chrono;
static const uint64_t MS = 1000000;

struct Recorder : maf::util::ExecutorIF {
  int n = 0;
  bool execute(CallbackType cb) noexcept override { { mc::Quiet q; ++n; } cb(); return true; }
};
struct Run {
  SyncTimer t;
  Log cb;
  Obs<uint64_t> began, ended, fired;
  std::shared_ptr<Recorder> ex = std::make_shared<Recorder>();
  Run(bool cyclic = false) : t(cyclic) {}
  void start(int d, int id = 1, bool useEx = false) {
    began = mc::now_ns();
    auto f = [this, id] { cb.add(id); fired = mc::now_ns(); };
    useEx ? t.start(milliseconds(d), f, ex) : t.start((long long)d, f);
    ended = mc::now_ns();
  }
};
MC_SCENARIO(sync_waits_out, {.spurious = 2}) {
  Run r;
  bool ex = mc::choose(2, "executor");
  std::thread q([&] { r.t.running(); r.t.setCyclic(false); });
  r.start(10, 1, ex);
  q.join();
  MC_CHECK(r.cb.size() == 1 && r.ended - r.began >= 10 * MS && r.fired - r.began >= 10 * MS, "callbacks %zu after %lu ns", r.cb.size(), r.ended - r.began);
  MC_CHECK(!ex || r.ex->n == 1, "executor used %d times", r.ex->n);
  MC_CHECK(!r.t.running(), "still running");
}
// stop, at any moment
MC_SCENARIO(sync_stop, {.spurious = 1}) {
  Run r(mc::choose(2, "cyclic"));
  int when = mc::choose(2, "at once/later");
  Obs<int> wasRunning, done;
  std::thread s([&] {
    if (when) mc::sleep_ns(3 * MS);
    while (!done) {
      bool was = r.t.running();
      r.t.stop();
      wasRunning = 1;
      if (was) break;
      mc::sleep_ns(4 * MS);
    }
  });
  r.start(10);
  done = 1;
  uint64_t end = mc::now_ns();
  s.join();
  MC_CHECK(r.cb.size() > 0 || wasRunning, "returned without callback and without stop");
  MC_CHECK(r.cb.size() == 0 || r.fired - r.began >= 10 * MS, "callback after %lu ns", r.fired - r.began);
  MC_CHECK(!r.t.running(), "still running");
  (void)end;
  mc::outcome(std::to_string(r.cb.size()));
}
// a stop that comes while the timer certainly waits ends it without callback
MC_SCENARIO(sync_stop_wakes, {.spurious = 1}) {
  Run r(mc::choose(2, "cyclic"));
  std::thread w([&] { r.start(3600000); });
  mc::quiesce();
  MC_CHECK(r.t.running() || mc::now_ns() >= 3600000 * MS, "not running");
  uint64_t t1 = mc::now_ns();
  r.t.stop();
  uint64_t t0 = mc::now_ns();
  w.join();
  MC_CHECK(mc::now_ns() - t0 < 1000 * MS, "stop did not end the wait");
  MC_CHECK(r.cb.size() == 0 || t1 - r.began >= 3600000 * MS || t0 - r.began >= 3600000 * MS, "%zu callbacks", r.cb.size());
}
MC_SCENARIO(sync_restart, {.spurious = 1}) {
  Run r;
  std::thread w([&] { r.start(10); });
  mc::quiesce();
  mc::sleep_ns(5 * MS);
  uint64_t a = mc::now_ns();
  bool early = a - r.began < 10 * MS && r.t.running();
  uint64_t c = r.cb.size();
  r.t.restart();
  w.join();
  MC_CHECK(r.cb.size() == 1, "%zu callbacks", r.cb.size());
  if (early && c == 0 && r.fired >= a && r.fired - r.began != 10 * MS) MC_CHECK(r.fired - a >= 10 * MS || r.fired <= a, "fired %lu ns after the restart", r.fired - a);
  mc::outcome(std::to_string((r.fired - r.began) / MS));
}
// restart in the middle of the wait: a full new period (nobody else delayed)
MC_SCENARIO(sync_restart_full_period, {.pb_quick = 0, .pb_thorough = 0}) {
  Run r(false);
  int n = 1 + mc::choose(3, "restarts");
  std::thread w([&] { r.start(10); });
  mc::quiesce();
  uint64_t last = r.began;
  for (int i = 0; i < n; ++i) {
    mc::sleep_ns((3 + 2 * mc::choose(3, "after")) * MS);
    r.t.restart();
    last = mc::now_ns();
  }
  w.join();
  MC_CHECK(r.cb.size() == 1 && r.fired - last == 10 * MS, "fired %lu ns after the last restart", r.fired - last);
}
MC_SCENARIO(sync_cyclic) {
  Run r(true);
  int how = mc::choose(2, "stop/setCyclic(false)");
  Obs<int> done;
  std::thread s([&] {
    mc::sleep_ns(25 * MS);
    do { how ? r.t.setCyclic(false) : r.t.stop(); mc::sleep_ns(4 * MS); } while (!done);
  });
  r.start(10);
  done = 1;
  s.join();
  uint64_t dt = r.ended - r.began;
  MC_CHECK(r.cb.size() <= dt / (10 * MS), "%zu callbacks in %lu ns", r.cb.size(), dt);
  if (how == 1) MC_CHECK(r.cb.size() >= 1, "no callback");
  mc::outcome(std::to_string(r.cb.size()));
}
MC_SCENARIO(sync_cyclic_exact, {.pb_quick = 0, .pb_thorough = 0}) {
  Run r(true);
  int how = mc::choose(2, "stop/setCyclic(false)");
  std::thread s([&] { mc::sleep_ns(25 * MS); how ? r.t.setCyclic(false) : r.t.stop(); });
  r.start(10);
  s.join();
  MC_CHECK(r.cb.size() == (how ? 3 : 2), "%zu callbacks", r.cb.size());
  MC_CHECK(r.ended - r.began == (how ? 30 : 25) * MS, "returned after %lu", r.ended - r.began);
}
// the callback uses its own timer
MC_SCENARIO(sync_inside) {
  SyncTimer t(mc::choose(2, "cyclic"));
  Log log;
  int what = mc::choose(3, "stop/restart/setCyclic");
  uint64_t t0 = mc::now_ns();
  t.start(10, [&] {
    log.add(1);
    if (what == 0 || log.size() > 2) t.stop();
    else if (what == 1) t.restart();
    else t.setCyclic(false);
  });
  MC_CHECK(log.size() >= 1 && mc::now_ns() - t0 >= 10 * MS * log.size(), "%zu callbacks in %lu", log.size(), mc::now_ns() - t0);
  MC_CHECK(!t.running(), "running");
  mc::outcome(log.str());
}
// made cyclic by its own callback
MC_SCENARIO(sync_becomes_cyclic) {
  SyncTimer t;
  Log log;
  bool useEx = mc::choose(2, "executor"), there = mc::choose(2, "in another thread");
  auto ex = std::make_shared<Recorder>();
  uint64_t t0 = mc::now_ns();
  auto cb = [&] {
    log.add(1);
    if (log.size() == 3) t.stop();
    else if (there) std::thread([&] { t.setCyclic(true); }).join();
    else t.setCyclic(true);
  };
  useEx ? t.start(milliseconds(10), cb, ex) : t.start(10, cb);
  MC_CHECK(log.size() == 3, "%zu callbacks", log.size());
  MC_CHECK(mc::now_ns() - t0 >= 30 * MS, "returned after %lu", mc::now_ns() - t0);
}
// the callback waits for another thread that uses the timer
MC_SCENARIO(sync_callback_waits) {
  SyncTimer t(mc::choose(2, "cyclic"));
  Log log;
  int what = mc::choose(4, "stop/restart/setCyclic/running");
  uint64_t t0 = mc::now_ns();
  t.start(10, [&] {
    log.add(1);
    std::thread w([&] {
      if (what == 0 || log.size() > 2) t.stop();
      else if (what == 1) t.restart();
      else if (what == 2) t.setCyclic(false);
      else t.running();
    });
    w.join();
  });
  MC_CHECK(log.size() >= 1 && mc::now_ns() - t0 >= 10 * MS * log.size(), "%zu callbacks in %lu", log.size(), mc::now_ns() - t0);
  MC_CHECK(!t.running(), "running");
  mc::outcome(log.str());
}
// started again from its own callback, then stopped by another thread
MC_SCENARIO(sync_start_inside) {
  SyncTimer t(mc::choose(2, "cyclic"));
  Log log;
  Obs<int> inner, over;
  std::thread s([&] {
    while (!inner) mc::sleep_ns(10 * MS);
    for (; !over; mc::sleep_ns(10 * MS)) t.stop();  // might come before the start
  });
  uint64_t t0 = mc::now_ns();
  t.start(10, [&] {
    log.add(1);
    inner = 1;
    t.start(3600000, [&] { log.add(2); });
    over = 1;
    log.add(3);
  });
  over = 1;
  s.join();
  // the inner one may have waited its time out
  auto outs = log.size() - 2;
  MC_CHECK(log.str() == "1 " + std::string(outs ? "2 " : "") + (outs > 1 ? "2 " : "") + "3 " || outs > 2, "%s", log.str().c_str());
  MC_CHECK(mc::now_ns() - t0 >= 3600000 * MS * outs, "%s after %lu", log.str().c_str(), mc::now_ns() - t0);
  MC_CHECK(!t.running(), "running");
}
// a second start ends the first, which does not call back
MC_SCENARIO(sync_second_start) {
  Run r, q;
  Obs<int> first;
  std::thread w([&] { r.start(3600000, 1); first = 1; });
  mc::quiesce();
  uint64_t t0 = mc::now_ns();
  std::thread v([&] { mc::sleep_ns(0); r.t.start(10, [&] { r.cb.add(2); }); });
  w.join();
  v.join();
  // the first may have waited its time out before the second began
  bool late = mc::now_ns() - r.began >= 3600000 * MS;
  MC_CHECK(r.cb.str() == "2 " || (late && (r.cb.str() == "1 2 " || r.cb.str() == "2 1 ")), "%s", r.cb.str().c_str());
  MC_CHECK(mc::now_ns() - t0 >= 10 * MS, "took %lu", mc::now_ns() - t0);
}
MC_SCENARIO(sync_second_start_ends_first, {.pb_quick = 0, .pb_thorough = 0}) {
  Run r;
  int how = mc::choose(2, "executor"), cyclic = mc::choose(2, "cyclic");
  r.t.setCyclic(cyclic);
  std::thread w([&] { r.start(3600000, 1, how); });
  mc::quiesce();
  mc::sleep_ns(5 * MS);
  uint64_t t0 = mc::now_ns();
  std::thread v([&] { r.t.start(20, [&] { r.cb.add(2); r.t.stop(); }); });
  w.join();
  MC_CHECK(mc::now_ns() - t0 < 20 * MS, "the first went on for %lu", mc::now_ns() - t0);
  v.join();
  MC_CHECK(mc::now_ns() - t0 == 20 * MS && r.cb.str() == "2 ", "%s after %lu", r.cb.str().c_str(), mc::now_ns() - t0);
}
MC_SCENARIO(sync_start_again) {
  Run r;
  r.start(10, 1);
  r.start(5, 2);
  std::thread s([&] { mc::sleep_ns(2 * MS); r.t.stop(); });
  r.start(100, 3);
  s.join();
  MC_CHECK(r.cb.str() == "1 2 " || (r.cb.str() == "1 2 3 " && r.ended - r.began >= 100 * MS), "%s", r.cb.str().c_str());
}
