// P13: thread pools. Every kind through the factory, all schedules.
#include <maf/threading/Runnable.h>
#include <maf/threading/ThreadPoolFactory.h>
#include "util.h"
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>
using namespace maf::threading;

struct State {
  int runs[8] = {}, freed[8] = {}, stops[8] = {};
  int now = 0, peak = 0, order = 0;
  int pos[8] = {};
  bool down = false;
};
struct Task : Runnable {
  State &s;
  int id;
  std::function<void()> body;
  Task(State &s, int id, bool del, std::function<void()> body = {}) : s(s), id(id), body(body) { setAutoDeleted(del); }
  void run() override {
    {
      mc::Quiet q;
      MC_CHECK(!s.down, "task %d runs after the pool was shut down", id);
      ++s.runs[id];
      s.pos[id] = s.order++;
      s.peak = std::max(s.peak, ++s.now);
    }
    mc::point();
    if (body) body();
    { mc::Quiet q; --s.now; }
  }
  void stop() override { mc::Quiet q; MC_CHECK(!s.freed[id], "stop of a released task"); ++s.stops[id]; }
  ~Task() override { mc::Quiet q; ++s.freed[id]; }
};
static std::shared_ptr<IThreadPool> make(int kind, int size) { return ThreadPoolFactory::createPool((PoolType)kind, size); }
static void ranOnce(State &s, int n, bool del) {
  mc::Quiet q;
  for (int i = 0; i < n; ++i) {
    MC_CHECK(s.runs[i] == 1, "task %d ran %d times", i, s.runs[i]);
    MC_CHECK(s.freed[i] == (del ? 1 : 0), "task %d released %d times", i, s.freed[i]);
  }
}
static void noneLeft() {
  mc::quiesce();
  MC_CHECK(mc::live_threads() == 0, "%d pool threads left", mc::live_threads());
}
// plain use: each task once, released once, never more threads than configured
MC_SCENARIO(pool_runs_all, {.pb_quick = 2, .pb_thorough = 4}) {
  State s;
  int kind = mc::choose(3, "kind"), size = 1 + mc::choose(2, "size");
  bool del = mc::choose(2, "auto delete");
  std::vector<std::unique_ptr<Task>> own;
  auto p = make(kind, size);
  std::vector<Runnable *> ts;
  for (int i = 0; i < 3; ++i) {
    ts.push_back(new Task(s, i, del));
    if (!del) own.emplace_back((Task *)ts.back());
  }
  std::thread a([&] { p->run(ts[0]); });
  p->run(ts[1], 1);
  p->run(ts[2], 2);
  a.join();
  mc::quiesce();
  ranOnce(s, 3, del);
  MC_CHECK(s.peak <= size, "%d tasks at once in a pool of %d", s.peak, size);
  MC_CHECK(p->activeThreadCount() <= (unsigned)size && mc::live_threads() <= size, "too many threads");
  MC_CHECK(p->activeThreadCount() >= 1, "no thread");
  p->shutdown();
  noneLeft();
  p.reset();
  ranOnce(s, 3, del);
  mc::outcome(std::to_string(s.peak));
}
// shutdown while tasks are submitted: run or released unrun, each once
MC_SCENARIO(pool_shutdown_race) {
  State s;
  int kind = mc::choose(3, "kind"), size = 1 + mc::choose(2, "size");
  auto p = make(kind, size);
  std::thread a([&] { p->run(new Task(s, 0, true)); p->run(new Task(s, 1, true)); });
  p->run(new Task(s, 2, true));
  if (mc::choose(2, "destroy instead")) {
    // the submitter holds the pool alive
    auto q = p;
    a.join();
    q.reset();
    p.reset();
  } else {
    p->shutdown();
    { mc::Quiet q; s.down = true; }
    int left = mc::live_threads();
    a.join();
    MC_CHECK(left <= 1, "pool threads left after shutdown");
  }
  noneLeft();
  std::string out;
  mc::Quiet q;
  for (int i = 0; i < 3; ++i) {
    MC_CHECK(s.runs[i] <= 1, "task %d ran %d times", i, s.runs[i]);
    MC_CHECK(s.freed[i] == 1, "task %d released %d times", i, s.freed[i]);
    out += std::to_string(s.runs[i]);
  }
  mc::outcome(out);
}
// two shutdowns and the destructor
MC_SCENARIO(pool_shutdown_twice) {
  State s;
  auto p = make(mc::choose(3, "kind"), 1);
  p->run(new Task(s, 0, true));
  std::thread a([&] {
    p->shutdown();
    MC_CHECK(mc::live_threads() <= 1, "shutdown returned before its threads ended");
  });
  p->shutdown();
  { mc::Quiet q; s.down = true; }
  a.join();
  noneLeft();
  MC_CHECK(s.runs[0] <= 1 && s.freed[0] == 1, "ran %d released %d", s.runs[0], s.freed[0]);
  p->run(new Task(s, 1, true));
  MC_CHECK(s.runs[1] == 0 && mc::live_threads() == 0, "ran after shutdown");
  p.reset();
}
// tasks that only end when they are stopped
struct Waits : Runnable {
  State &s;
  int id;
  std::mutex m;
  std::condition_variable cv;
  bool stopped = false;
  Waits(State &s, int id) : s(s), id(id) { setAutoDeleted(true); }
  void run() override {
    { mc::Quiet q; ++s.runs[id]; }
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return stopped; });
  }
  void stop() override {
    { mc::Quiet q; ++s.stops[id]; }
    std::lock_guard<std::mutex> l(m);
    stopped = true;
    cv.notify_all();
  }
  ~Waits() override { mc::Quiet q; ++s.freed[id]; }
};
MC_SCENARIO(pool_stops_running, {.pb_quick = 3, .pb_thorough = 4}) {
  State s;
  int kind = mc::choose(3, "kind"), size = 1 + mc::choose(2, "size");
  auto p = make(kind, size);
  std::thread a([&] { p->run(new Waits(s, 0)); });
  p->run(new Waits(s, 1));
  if (mc::choose(2, "wait first")) mc::quiesce();
  p->shutdown();
  a.join();
  noneLeft();
  mc::Quiet q;
  std::string out;
  for (int i = 0; i < 2; ++i) {
    MC_CHECK(s.runs[i] <= 1 && s.freed[i] == 1, "task %d ran %d, released %d", i, s.runs[i], s.freed[i]);
    MC_CHECK(s.runs[i] == 0 || s.stops[i] >= 1, "running task %d not stopped", i);
    out += std::to_string(s.runs[i]);
  }
  mc::outcome(out);
}
// a task submits another one
MC_SCENARIO(pool_submit_from_task, {.pb_quick = 3, .pb_thorough = 4}) {
  State s;
  int kind = mc::choose(3, "kind"), size = 1 + mc::choose(2, "size");
  auto p = make(kind, size);
  bool wait = mc::choose(2, "wait");
  p->run(new Task(s, 0, true, [&] { p->run(new Task(s, 1, true)); }));
  if (wait) {
    mc::quiesce();
    ranOnce(s, 2, true);
  }
  p->shutdown();
  noneLeft();
  mc::Quiet q;
  MC_CHECK(s.freed[0] == 1 && s.freed[1] == s.freed[0] - (s.runs[0] == 0), "ran %d,%d released %d,%d", s.runs[0], s.runs[1], s.freed[0], s.freed[1]);
}
// the priority pool takes the most urgent waiting task
MC_SCENARIO(pool_priority, {.pb_quick = 1, .pb_thorough = 3}) {
  State s;
  auto p = make(Priority, 1);
  std::mutex m;
  m.lock();
  p->run(new Task(s, 0, true, [&] { std::lock_guard<std::mutex> l(m); }), 100);
  mc::quiesce();
  static const int pr[6][3] = {{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}};
  int k = mc::choose(6, "order");
  for (int i = 0; i < 3; ++i) p->run(new Task(s, pr[k][i], true), pr[k][i]);
  m.unlock();
  mc::quiesce();
  ranOnce(s, 4, true);
  { mc::Quiet q; MC_CHECK(s.pos[3] == 1 && s.pos[2] == 2 && s.pos[1] == 3, "order %d %d %d", s.pos[1], s.pos[2], s.pos[3]); }
  p->shutdown();
}
// the limit holds while many submit and while it is changed
MC_SCENARIO(pool_limit, {.pb_quick = 2, .pb_thorough = 3}) {
  State s;
  auto p = make(DynamicCount, 1);
  bool change = mc::choose(2, "raise the limit");
  std::thread a([&] { p->run(new Task(s, 0, true)); p->run(new Task(s, 1, true)); });
  std::thread b([&] { p->run(new Task(s, 2, true)); if (change) p->setMaxThreadCount(2); p->run(new Task(s, 3, true)); });
  a.join();
  b.join();
  mc::quiesce();
  ranOnce(s, 4, true);
  MC_CHECK(s.peak <= 1 + change && mc::live_threads() <= 1 + change && p->activeThreadCount() <= 1u + change, "peak %d, threads %d", s.peak, mc::live_threads());
  p->shutdown();
  noneLeft();
  mc::outcome(std::to_string(s.peak));
}
// all threads of a pool work
MC_SCENARIO(pool_threads_work, {.pb_quick = 2, .pb_thorough = 3}) {
  State s;
  auto p = make(mc::choose(3, "kind"), 2);
  std::mutex m;
  std::condition_variable cv;
  int here = 0;
  auto meet = [&] {
    std::unique_lock<std::mutex> l(m);
    ++here;
    cv.notify_all();
    cv.wait(l, [&] { return here == 2; });
  };
  p->run(new Task(s, 0, true, meet));
  p->run(new Task(s, 1, true, meet));
  mc::quiesce();
  ranOnce(s, 2, true);
  p->shutdown();
  noneLeft();
}
