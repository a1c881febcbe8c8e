// P02, P03, P04: run loop, posting and stopping of a processor, all schedules.
#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
#include <maf/messaging/Routing.h>
#include "util.h"
#include <chrono>
#include <functional>
#include <future>
#include <thread>
using namespace maf::messaging;
using namespace std::chrono;

struct M { int v; };
struct N { int v; };

enum { POST, TPOST, ASYNC, EXEC, AEXECUTOR, EXECUTOR, NFIRE };
// posts value v in the given way; the return value says whether it was accepted
static bool fire(ProcessorInstance p, int how, int v, Log &log) {
  auto f = [v, &log] { log.add(v); };
  switch (how) {
    case POST: return p->post(makeMessage<M>(v));
    case TPOST: return p->post<M>(v);
    case ASYNC: return p->executeAsync(f);
    case EXEC: return p->execute(f);
    case AEXECUTOR: return p->getAsyncExecutor()->execute(f);
    default: return p->getExecutor()->execute(f);
  }
}
static int ways(const char *tag, int n = NFIRE) { return mc::choose(n, tag); }

// handler log with checks that hold everywhere
struct Rig {
  ProcessorInstance p;
  Log log, ended;
  Obs<int> owner, over;
  Rig(const char *id = "") : p(Processor::create(id)) { owner = -1; }
  void handler(int v) {
    MC_CHECK(mc::self_id() == owner, "handled on thread %d, the processor runs on %d", mc::self_id(), (int)owner);
    MC_CHECK(this_processor::instance() == p, "this_processor is not the processor");
    MC_CHECK(!over, "value %d handled after the run loop returned", v);
    log.add(v);
  }
  void connect() { p->connect<M>([this](const M &m) { handler(m.v); }); }
  void run() {
    owner = mc::self_id();
    p->run();
    over = 1;
    MC_CHECK(!this_processor::instance(), "this_processor still set after run()");
  }
};

// ---------------------------------------------------------------- P02
static void order(Log &log, std::vector<int> a, std::vector<int> b) {
  for (int x : a) MC_CHECK(log.count(x) == 1, "%d handled %d times (%s)", x, log.count(x), log.str().c_str());
  for (int x : b) MC_CHECK(log.count(x) == 1, "%d handled %d times (%s)", x, log.count(x), log.str().c_str());
  for (size_t i = 1; i < a.size(); ++i) MC_CHECK(log.pos(a[i - 1]) < log.pos(a[i]), "order: %s", log.str().c_str());
  for (size_t i = 1; i < b.size(); ++i) MC_CHECK(log.pos(b[i - 1]) < log.pos(b[i]), "order: %s", log.str().c_str());
  MC_CHECK(log.size() == a.size() + b.size(), "more handled than posted: %s", log.str().c_str());
  mc::outcome(log.str());
}
MC_SCENARIO(proc_one_poster) {
  Rig r;
  r.connect();
  int h1 = ways("first"), h2 = ways("second");
  std::thread t([&] { r.run(); });
  MC_CHECK(fire(r.p, h1, 1, r.log), "refused");
  MC_CHECK(fire(r.p, h2, 2, r.log), "refused");
  r.p->waitableExecute([&] { r.handler(3); }).get();
  r.p->stop();
  t.join();
  order(r.log, {1, 2, 3}, {});
}
MC_SCENARIO(proc_two_posters, {.pb_quick = 2, .pb_thorough = 3}) {
  Rig r;
  r.connect();
  int h = mc::choose(2, "post/execute") ? ASYNC : POST;
  std::thread t([&] { r.run(); });
  std::thread q([&] {
    MC_CHECK(fire(r.p, POST, 11, r.log), "refused");
    MC_CHECK(fire(r.p, ASYNC, 12, r.log), "refused");
  });
  MC_CHECK(fire(r.p, h, 21, r.log), "refused");
  MC_CHECK(fire(r.p, TPOST, 22, r.log), "refused");
  q.join();
  r.p->waitableExecute([&] { r.p->stop(); }).get();
  t.join();
  order(r.log, {11, 12}, {21, 22});
}
// accepted: at most once, refused: never; nothing after the loop ended
MC_SCENARIO(proc_post_vs_stop) {
  Rig r;
  r.connect();
  int h = ways("how");
  Obs<int> ok;
  std::thread t([&] { r.run(); });
  std::thread q([&] {
    ok = fire(r.p, h, 1, r.log);
    int k = r.log.count(1);
    MC_CHECK(ok || k == 0, "refused but handled");
  });
  r.p->stop();
  t.join();
  int before = r.log.count(1);
  q.join();
  MC_CHECK(r.log.count(1) == before, "handled after the loop returned");
  MC_CHECK(r.log.count(1) <= (ok ? 1 : 0), "ok %d, handled %d times", (int)ok, r.log.count(1));
  MC_CHECK(!fire(r.p, h, 2, r.log), "a stopped processor accepts work");
  MC_CHECK(r.p->pendingCout() == 0, "pending work after stop");
  mc::outcome(std::to_string(ok) + r.log.str());
}
// refused after stop returned; accepted ones are not lost when there is no stop
MC_SCENARIO(proc_post_before_run) {
  Rig r;
  r.connect();
  int h1 = ways("first"), h2 = ways("second");
  MC_CHECK(fire(r.p, h1, 1, r.log), "refused");
  MC_CHECK(r.p->pendingCout() == 1, "not pending");
  std::thread t([&] { r.run(); });
  MC_CHECK(fire(r.p, h2, 2, r.log), "refused");
  r.p->executeAsync([&] { r.p->stop(); });
  t.join();
  order(r.log, {1, 2}, {});
}
// no handler: refused
MC_SCENARIO(proc_post_without_handler, {.pb_quick = 1, .pb_thorough = 2}) {
  Rig r;
  auto con = r.p->connect<N>([&](const N &) { mc::violation("handler of another message called"); });
  std::thread t([&] { r.run(); });
  MC_CHECK(!r.p->post<M>(1), "accepted a message nobody handles");
  MC_CHECK(!r.p->waitablePost<M>(1).valid(), "waitable post of a message nobody handles");
  MC_CHECK(!r.p->connected<M>() && r.p->connected<N>(), "connected() wrong");
  con.disconnect();
  MC_CHECK(!r.p->post<N>(1) && !r.p->connected<N>(), "still connected");
  r.p->stop();
  t.join();
}
// from inside: execute and waitables run at once, the others after
MC_SCENARIO(proc_post_inside) {
  Rig r;
  r.connect();
  int h = mc::choose(NFIRE + 2, "how");
  std::thread t([&] { r.run(); });
  r.p->executeAsync([&] {
    r.handler(1);
    if (h == NFIRE) r.p->waitablePost<M>(2).get();
    else if (h == NFIRE + 1) r.p->waitableExecute([&] { r.handler(2); }).get();
    else MC_CHECK(fire(r.p, h, 2, r.log), "refused");
    bool inl = h == EXEC || h == EXECUTOR || h >= NFIRE;
    MC_CHECK(r.log.count(2) == (inl ? 1 : 0), "way %d: handled %s", h, inl ? "late" : "at once");
    r.log.add(3);
  });
  r.p->executeAsync([&] { r.p->executeAsync([&] { r.p->stop(); }); });
  t.join();
  MC_CHECK(r.log.count(1) == 1 && r.log.count(2) == 1 && r.log.count(3) == 1, "handled: %s", r.log.str().c_str());
  mc::outcome(r.log.str());
}
// this_processor mirrors the member functions
MC_SCENARIO(proc_this_processor, {.pb_quick = 1, .pb_thorough = 2}) {
  Rig r;
  r.connect();
  std::thread t([&] { r.run(); });
  MC_CHECK(!this_processor::instance() && !this_processor::post(makeMessage<M>(9)) && !this_processor::executeAsync([] {}) && !this_processor::stop(),
           "this_processor outside of a processor");
  r.p->waitableExecute([&] {
    MC_CHECK(this_processor::ref().lock() == r.p && this_processor::id() == r.p->id(), "identity");
    MC_CHECK(this_processor::post<M>(5), "refused");
    MC_CHECK(this_processor::executeAsync([&] { r.handler(6); }), "refused");
    MC_CHECK(this_processor::execute([&] { r.handler(1); }), "refused");
    this_processor::waitableExecute([&] { r.handler(2); }).get();
    this_processor::waitablePost(makeMessage<M>(3)).get();
    this_processor::getExecutor()->execute([&] { r.handler(4); });
    this_processor::getAsyncExecutor()->execute([&] { r.handler(7); });
    MC_CHECK(r.log.str() == "1 2 3 4 ", "inline work: %s", r.log.str().c_str());
    this_processor::executeAsync([&] { MC_CHECK(!this_processor::stopped(), "stopped"); this_processor::stop(); MC_CHECK(this_processor::stopped(), "not stopped"); });
  }).get();
  t.join();
  MC_CHECK(r.log.str() == "1 2 3 4 5 6 7 ", "%s", r.log.str().c_str());
}
// runFor / runOnceFor hand out the same work as run()
MC_SCENARIO(proc_run_for, {.spurious = 1}) {
  Rig r;
  r.connect();
  int kind = mc::choose(4, "runFor/runUntil/runOnceFor/runOnceUntil");
  int slow = mc::choose(2, "second post at once/later");
  std::thread q([&] {
    MC_CHECK(r.p->post<M>(1), "refused");
    if (slow) mc::sleep_ns(5000000);
    MC_CHECK(r.p->post<M>(2), "refused");
  });
  r.owner = mc::self_id();
  // other threads may be delayed arbitrarily, so go on until all is handled
  for (int i = 0; i < 6 && r.log.size() < 2; ++i) {
    uint64_t t0 = mc::now_ns();
    size_t n = r.log.size();
    if (kind < 2) {
      if (kind == 0) r.p->runFor(milliseconds(20));
      else r.p->runUntil(system_clock::now() + milliseconds(20));
      MC_CHECK(mc::now_ns() - t0 >= 20000000, "runFor returned after %lu ns", mc::now_ns() - t0);
    } else {
      bool b = kind == 2 ? r.p->runOnceFor(milliseconds(20)) : r.p->runOnceUntil(system_clock::now() + milliseconds(20));
      MC_CHECK(r.log.size() == n + b, "runOnce returned %d, handled %zu", b, r.log.size() - n);
      MC_CHECK(b || mc::now_ns() - t0 >= 20000000, "runOnce gave up after %lu ns", mc::now_ns() - t0);
    }
    MC_CHECK(!this_processor::instance(), "this_processor still set");
    if (i == 4) q.join();
  }
  if (q.joinable()) q.join();
  order(r.log, {1, 2}, {});
}
// ---------------------------------------------------------------- P03
MC_SCENARIO(stop_idle, {.spurious = 1}) {
  Rig r;
  int kind = mc::choose(5, "run/runFor/runUntil/runOnceFor/runOnceUntil");
  Obs<uint64_t> end;
  std::thread t([&] {
    r.owner = mc::self_id();
    bool once = false;
    switch (kind) {
      case 0: r.p->run(); break;
      case 1: r.p->runFor(hours(1)); break;
      case 2: r.p->runUntil(system_clock::now() + hours(1)); break;
      case 3: once = r.p->runOnceFor(hours(1)); break;
      case 4: once = r.p->runOnceUntil(system_clock::now() + hours(1)); break;
    }
    MC_CHECK(!once, "runOnce reports work done");
    end = mc::now_ns();
  });
  r.p->stop();
  uint64_t t0 = mc::now_ns();
  MC_CHECK(r.p->stopped(), "not stopped");
  t.join();
  MC_CHECK((int64_t)(end - t0) < 1000000000ll, "ended by its timeout, not by stop()");
}
MC_SCENARIO(stop_with_work) {
  Rig r;
  r.connect();
  std::thread t([&] { r.run(); });
  for (int i = 1; i <= 2; ++i) r.p->post<M>(i);
  r.p->stop();
  t.join();
  int n = (int)r.log.size();
  for (int i = 0; i < n; ++i) MC_CHECK(r.log.pos(i + 1) == i, "handled %s", r.log.str().c_str());
  MC_CHECK(r.p->pendingCout() == 0, "pending work after stop");
  mc::outcome(r.log.str());
}
// stop in a handler: the handler completes, nothing after it
MC_SCENARIO(stop_inside) {
  Rig r;
  r.connect();
  std::thread t([&] { r.run(); });
  r.p->executeAsync([&] {
    r.handler(1);
    r.p->post<M>(5);
    if (mc::choose(2, "stop/this_processor::stop")) this_processor::stop();
    else r.p->stop();
    MC_CHECK(!r.p->post<M>(2), "accepted after stop");
    r.handler(3);
  });
  r.p->post<M>(4);
  t.join();
  MC_CHECK(r.log.str() == "1 3 ", "handled %s", r.log.str().c_str());
}
MC_SCENARIO(stop_twice) {
  Rig r(mc::choose(2, "anonymous/named") ? "x" : "");
  r.connect();
  std::thread t([&] { r.run(); });
  std::thread s([&] { r.p->stop(); });
  r.p->post<M>(1);
  r.p->stop();
  MC_CHECK(r.p->stopped(), "not stopped");
  s.join();
  t.join();
  MC_CHECK(!routing::findProcessor("x"), "still registered");
  mc::outcome(r.log.str());
}
// the processor object may go as soon as its loop has returned
MC_SCENARIO(stop_and_destroy) {
  auto p = Processor::create();
  std::weak_ptr<Processor> w = p;
  auto ex = p->getExecutor();
  auto will = p->willExecuteOnThis([] { mc::violation("run on a dead processor"); });
  std::thread t([p]() mutable { p->run(); p.reset(); });
  std::thread q([p]() mutable { p->executeAsync([] {}); p.reset(); });
  p->stop();
  p.reset();
  t.join();
  q.join();
  MC_CHECK(!w.lock(), "processor kept alive");
  MC_CHECK(!ex->execute([] { mc::violation("run on a dead processor"); }), "accepted by a dead processor");
  will();
}
// what pending work owns may use the processor when it is released
struct Late {
  ProcessorInstance p;
  int *n;
  Late(ProcessorInstance p, int *n) : p(p), n(n) {}
  ~Late() { { mc::Quiet q; ++*n; } p->post<M>(7); p->executeAsync([] {}); p->stopped(); p->pendingCout(); }
};
MC_SCENARIO(stop_releases_work) {
  int released = 0;
  {
    Rig r;
    r.p->connect<M>([&](const M &) {});
    std::thread t([&] { r.run(); });
    r.p->executeAsync([l = std::make_shared<Late>(r.p, &released)] {});
    r.p->executeAsync([l = std::make_shared<Late>(r.p, &released)] {});
    r.p->stop();
    t.join();
    MC_CHECK(r.p->pendingCout() == 0, "pending work after stop");
  }
  MC_CHECK(released == 2, "%d of 2 executions released", released);
}
MC_SCENARIO(stop_thread_functions) {
  Rig r;
  r.connect();
  std::thread t([&] {
    r.owner = mc::self_id();
    r.p->run([&] { MC_CHECK(this_processor::instance() == r.p, "init"); r.log.add(100); },
             [&] { MC_CHECK(this_processor::instance() == r.p, "deinit"); r.log.add(200); });
    r.over = 1;
  });
  r.p->post<M>(1);
  if (mc::choose(2, "stop at once / after")) r.p->executeAsync([&] { r.p->stop(); });
  else r.p->stop();
  t.join();
  MC_CHECK(r.log.pos(100) == 0 && r.log.count(100) == 1 && r.log.count(200) == 1 && r.log.pos(200) == (int)r.log.size() - 1, "%s", r.log.str().c_str());
  mc::outcome(r.log.str());
}
MC_SCENARIO(stop_async_processor) {
  Log log;
  ProcessorInstance keep;
  {
    AsyncProcessor a;
    keep = a.instance();
    a->connect<M>([&](const M &m) { log.add(m.v); });
    int how = mc::choose(6, "destroy/stopAndWait/stop/stop inside/timed/not launched");
    if (how != 5) a.launch();
    a->post<M>(1);
    if (how == 1) { a.stopAndWait(); MC_CHECK(!a.running(), "running after stopAndWait"); }
    if (how == 2) { a->stop(); a.wait(); }
    if (how == 3) a->executeAsync([] { this_processor::stop(); });
    if (how == 4) a.stopAndWait(milliseconds(50));
    if (how == 5) a->stop();
    if (how == 3) a.wait();
    if (how == 1 || how == 2 || how == 3) mc::quiesce();
  }
  size_t n = log.size();
  MC_CHECK(keep->stopped() , "not stopped");
  MC_CHECK(!keep->post<M>(2), "accepted");
  mc::quiesce();
  MC_CHECK(log.size() == n, "handled after the thread was given back");
  MC_CHECK(mc::live_threads() == 0, "thread left behind");
  mc::outcome(log.str());
}
// replacing a running AsyncProcessor ends the old one and goes on with the new
MC_SCENARIO(stop_async_move) {
  Log log;
  AsyncProcessor a;
  auto old = a.instance();
  a.launch();
  {
    AsyncProcessor b;
    b->connect<M>([&](const M &m) { log.add(m.v); });
    b.launch();
    if (mc::choose(2, "assign/construct")) {
      AsyncProcessor c = std::move(b);
      c->waitablePost<M>(1).get();
      a = std::move(c);
    } else {
      a = std::move(b);
    }
  }
  MC_CHECK(old->stopped(), "replaced processor still running");
  a->waitablePost<M>(2).get();
  MC_CHECK(log.count(2) == 1, "%s", log.str().c_str());
  a.stopAndWait();
  MC_CHECK(mc::live_threads() == 0, "thread left behind");
}
struct MyEx : ProcessorEx {
  Log &log;
  MyEx(Log &l) : log(l) {}
  void threadInit() override { log.add(1); }
  void threadDeinit() override { log.add(9); }
};
MC_SCENARIO(stop_processor_ex) {
  Log log;
  MyEx p(log);
  std::thread t([&] { p.run(); });
  p->executeAsync([&] { log.add(5); });
  p.stop();
  t.join();
  MC_CHECK(log.str() == "1 9 " || log.str() == "1 5 9 ", "%s", log.str().c_str());
}
MC_SCENARIO(stop_reuse) {
  Rig r;
  r.connect();
  std::thread t([&] { r.run(); });
  r.p->post<M>(1);
  r.p->stop();
  t.join();
  r.p->reuse();
  MC_CHECK(!r.p->stopped(), "stopped after reuse()");
  r.over = 0;
  std::thread t2([&] { r.run(); });
  MC_CHECK(r.p->post<M>(2), "refused after reuse()");
  r.p->waitablePost<M>(3).get();
  r.p->stop();
  t2.join();
  MC_CHECK(r.log.count(2) == 1 && r.log.count(3) == 1 && r.log.pos(2) < r.log.pos(3), "%s", r.log.str().c_str());
  mc::outcome(r.log.str());
}
// ---------------------------------------------------------------- P04
enum { WPOST, WEXEC, BEXECUTOR, WILL, SEND, SENDALL, VALUE, NWAIT };
// returns 1 completed, 0 not accepted, -1 failed
static int waitFor(ProcessorInstance p, int how, std::function<void(int)> f) {
  Processor::CompleteSignal s;
  switch (how) {
    case WPOST: s = p->waitablePost<M>(1); break;
    case WEXEC: s = p->waitableExecute([f] { f(1); }); break;
    case BEXECUTOR: return p->getBlockingExecutor()->execute([f] { f(1); }) ? 1 : 0;
    case WILL: { Obs<int> n; p->willBlockingExecuteOnThis([f, &n] { f(1); n = 1; })(); return n; }
    case SEND: s = routing::send<M>("x", 1); break;
    case SENDALL: s = routing::sendToAll<M>(1); break;
    case VALUE:
      try {
        int v = p->waitableExecute([f] { f(1); return 77; });
        MC_CHECK(v == 77, "waitableExecute returned %d", v);
        return 1;
      } catch (const std::future_error &) {
        return -1;
      }
  }
  if (!s.valid()) return 0;
  try {
    if (mc::choose(2, "get/wait")) { s.wait(); }
    s.get();
    return 1;
  } catch (const std::future_error &) {
    return -1;
  }
}
MC_SCENARIO(wait_completes) {
  Rig r("x");
  Log done;
  int nh = 1 + mc::choose(2, "handlers");
  for (int i = 0; i < nh; ++i)
    r.p->connect<M>([&, i](const M &) { r.handler(10 + i); mc::point(); done.add(10 + i); });
  int how = mc::choose(NWAIT, "how");
  std::thread t([&] { r.run(); });
  int res = waitFor(r.p, how, [&](int v) { r.handler(v); mc::point(); done.add(v); });
  MC_CHECK(res == 1, "way %d: result %d", how, res);
  bool msg = how == WPOST || how == SEND || how == SENDALL;
  MC_CHECK(done.size() == (msg ? nh : 1), "way %d: returned with %zu handlers finished", how, done.size());
  r.p->stop();
  t.join();
}
MC_SCENARIO(wait_vs_stop) {
  Rig r("x");
  Log done;
  r.p->connect<M>([&](const M &) { r.handler(1); mc::point(); done.add(1); });
  int how = mc::choose(NWAIT, "how");
  std::thread t([&] { r.run(); });
  std::thread s([&] { r.p->stop(); });
  int res = waitFor(r.p, how, [&](int v) { r.handler(v); mc::point(); done.add(v); });
  size_t n = done.size();
  MC_CHECK(res == 1 ? n == 1 : n == 0, "way %d: result %d with %zu handlers finished", how, res, n);
  s.join();
  t.join();
  MC_CHECK(done.size() == n, "handled after completion");
  mc::outcome(std::to_string(how) + ":" + std::to_string(res));
}
// the processor is stopped and gone without ever running
MC_SCENARIO(wait_never_run) {
  Rig r("x");
  r.connect();
  int how = mc::choose(NWAIT, "how");
  std::thread s([&] { if (mc::choose(2, "stop at once/later")) mc::sleep_ns(1000); r.p->stop(); });
  int res = waitFor(r.p, how, [&](int v) { mc::violation("run"); });
  MC_CHECK(res <= 0, "way %d: completed but nothing ran the processor", how);
  s.join();
  MC_CHECK(waitFor(r.p, how, [&](int v) { mc::violation("run"); }) <= 0, "completed on a stopped processor");
}
MC_SCENARIO(wait_inside) {
  Rig r("x");
  r.connect();
  int how = mc::choose(NWAIT, "how");
  int depth = mc::choose(2, "from an execution/from a handler");
  auto body = [&] {
    MC_CHECK(waitFor(r.p, how, [&](int v) { r.handler(v); }) == 1, "way %d failed", how);
    MC_CHECK(r.log.count(1) == 1, "not run");
  };
  r.p->connect<N>([&](const N &) { body(); });
  std::thread t([&] { r.run(); });
  if (depth) r.p->post<N>(0);
  else r.p->executeAsync(body);
  r.p->executeAsync([&] { r.p->stop(); });
  t.join();
  MC_CHECK(r.log.count(1) == 1, "not run");
}
// a failing execution: its waiter gets the failure, the next ones go on
MC_SCENARIO(wait_failure, {.pb_quick = 2, .pb_thorough = 3}) {
  Rig r;
  int where = mc::choose(3, "waitableExecute/waitablePost/value");
  r.p->connect<M>([&](const M &) { throw 5; });
  std::thread t([&] { r.run(); });
  int got = 0;
  try {
    if (where == 0) r.p->waitableExecute([] { throw 5; }).get();
    else if (where == 1) r.p->waitablePost<M>(1).get();
    else (void)r.p->waitableExecute([]() -> int { throw 5; });
  } catch (int e) { got = e; }
  MC_CHECK(got == 5, "failure not passed on");
  r.p->waitableExecute([&] { r.handler(1); }).get();
  r.p->stop();
  t.join();
}
// two processors wait for each other's work in turn, never at the same time
MC_SCENARIO(wait_two_processors, {.pb_quick = 2, .pb_thorough = 2}) {
  Rig a("a"), b("b");
  a.p->connect<M>([&](const M &m) { a.handler(m.v); });
  b.p->connect<N>([&](const N &m) { b.handler(m.v); a.p->post<M>(2); });
  std::thread ta([&] { a.run(); }), tb([&] { b.run(); });
  a.p->waitableExecute([&] { routing::send<N>("b", 1).get(); }).get();
  a.p->waitableExecute([] {}).get();
  MC_CHECK(a.log.count(2) == 1 && b.log.count(1) == 1, "lost");
  a.p->stop();
  b.p->stop();
  ta.join();
  tb.join();
}
// the handler of M waits for a processor whose handler posts M back
MC_SCENARIO(wait_posts_back, {.pb_quick = 1, .pb_thorough = 2}) {
  Rig a("a"), b("b");
  a.p->connect<M>([&](const M &m) { a.handler(m.v); if (m.v == 1) routing::send<N>("b", 1).get(); });
  b.p->connect<N>([&](const N &m) { b.handler(m.v); a.p->post<M>(2); });
  std::thread ta([&] { a.run(); }), tb([&] { b.run(); });
  a.p->waitablePost<M>(1).get();
  a.p->waitableExecute([] {}).get();
  MC_CHECK(a.log.count(2) == 1 && b.log.count(1) == 1, "lost");
  a.p->stop();
  b.p->stop();
  ta.join();
  tb.join();
}
// a task that runs a queue itself, its own or that of another processor
static void waitNow(ProcessorInstance p, int how, Log &log) {
  size_t n = log.size();
  auto f = [&] {
    MC_CHECK(this_processor::instance() == p, "work of '%s' done in the name of '%s'", p->id().c_str(), this_processor::id().c_str());
    log.add(7);
  };
  if (how == 0) p->waitableExecute(f).get();
  else if (how == 1) p->waitablePost<N>(7).get();
  else if (how == 2) MC_CHECK(p->execute(f), "refused");
  else p->waitableExecute([&] { f(); return 1; });
  MC_CHECK(log.size() == n + 1, "way %d: not done at once", how);
}
MC_SCENARIO(wait_in_nested_run, {.pb_quick = 1, .pb_thorough = 2}) {
  Rig a("a"), b("b");
  a.connect();
  a.p->connect<N>([&](const N &m) { a.handler(m.v); });
  b.p->connect<N>([&](const N &m) { b.handler(m.v); });
  int own = mc::choose(2, "other queue/own queue");
  int run = mc::choose(3, "runOnceFor/runFor/run");
  int how = mc::choose(4, "how");
  auto &in = own ? a : b;
  if (own && run == 2) mc::prune();
  std::thread t([&] { a.run(); });
  a.p->executeAsync([&] {
    b.owner = mc::self_id();
    auto inner = [&] {
      MC_CHECK(this_processor::instance() == in.p, "inner work in the name of '%s'", this_processor::id().c_str());
      waitNow(in.p, how, in.log);
      waitNow(a.p, how, a.log);
      MC_CHECK(this_processor::instance() == in.p, "inner work continues in the name of '%s'", this_processor::id().c_str());
      in.log.add(1);
      if (run == 2) this_processor::stop();
    };
    in.p->executeAsync(inner);
    for (int i = 0; i < 4 && !in.log.count(1); ++i) {
      if (run == 0) in.p->runOnceFor(milliseconds(5));
      else if (run == 1) in.p->runFor(milliseconds(5));
      else in.p->run();
    }
    MC_CHECK(in.log.count(1) == 1, "inner work not done");
    MC_CHECK(this_processor::instance() == a.p, "after the inner loop: '%s'", this_processor::id().c_str());
    waitNow(a.p, how, a.log);
    this_processor::executeAsync([&] { a.log.add(9); a.p->stop(); });
  });
  t.join();
  MC_CHECK(a.log.count(9) == 1, "posted to another processor");
}
