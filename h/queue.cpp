// P01, schedules: producers, consumers, close, clear and reopen.
#include <maf/threading/Queue.h>
#include <mc.h>
#include <chrono>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
using namespace maf::threading;
using namespace std::chrono;

static std::string str(const std::vector<int> &v) {
  std::string s;
  for (int x : v) s += std::to_string(x) + ",";
  return s;
}
// values 10*p+k: k-th value of producer p; each producer's values stay in order
static void checkOrder(const std::vector<int> &got) {
  int last[10] = {0};
  for (int v : got) {
    MC_CHECK(v % 10 > last[v / 10], "order of producer %d not kept: %s", v / 10, str(got).c_str());
    last[v / 10] = v % 10;
  }
}
template <class Q> static bool waitSome(Q &q, int &v, int how) {
  if (how == 0) return q.wait(v);
  if (how == 1) return q.waitFor(v, hours(1));
  return q.waitUntil(v, system_clock::now() + hours(1));
}

// a consumer blocked on an empty queue is released by close()
MC_SCENARIO(queue_close_wakes, {.spurious = 1}) {
  Queue<int> q;
  int how = mc::choose(3, "wait/waitFor/waitUntil");
  std::thread c([&] {
    int v;
    MC_CHECK(!waitSome(q, v, how), "wait returned a value from an empty queue");
  });
  q.close();
  uint64_t t0 = mc::now_ns();
  c.join();
  MC_CHECK(mc::now_ns() - t0 < 1000000000ull, "close() did not wake the consumer, its timeout did");
  MC_CHECK(q.isClosed(), "not closed");
}
// two consumers are both released
MC_SCENARIO(queue_close_wakes_all, {.pb_quick = 2, .pb_thorough = 3}) {
  Queue<int> q;
  auto f = [&] { int v; MC_CHECK(!q.wait(v), "value from an empty queue"); };
  std::thread a(f), b(f);
  q.close();
  a.join();
  b.join();
}
MC_SCENARIO(queue_two_producers, {.pb_quick = 2, .pb_thorough = 3, .spurious = 1}) {
  Queue<int> q;
  std::vector<int> got;
  std::thread c([&] { int v; while (got.size() < 4 && q.wait(v)) got.push_back(v); });
  std::thread p([&] { q.push(11); q.push(12); });
  q.push(21);
  int x = 22;
  q.push(x);
  p.join();
  c.join();
  MC_CHECK(got.size() == 4, "4 pushed, %s received", str(got).c_str());
  checkOrder(got);
  mc::outcome(str(got));
}
// every element reaches exactly one of two consumers
MC_SCENARIO(queue_two_consumers, {.pb_quick = 2, .pb_thorough = 3}) {
  Queue<int> q;
  std::vector<int> got[2];
  auto f = [&](int i) { int v; if (q.wait(v)) got[i].push_back(v); };
  std::thread a(f, 0), b(f, 1);
  if (mc::choose(2, "one by one / at once") == 0) {
    q.push(11);
    q.push(12);
  } else {
    q.push(std::vector<int>{11, 12});
  }
  a.join();
  b.join();
  MC_CHECK(got[0].size() == 1 && got[1].size() == 1 && got[0][0] + got[1][0] == 23, "received %s and %s", str(got[0]).c_str(), str(got[1]).c_str());
  MC_CHECK(q.empty(), "queue not empty");
  mc::outcome(str(got[0]));
}
// a consumer that gives up must not take the wake-up of another one with it
MC_SCENARIO(queue_timeout_vs_wait, {.pb_quick = 2, .pb_thorough = 3}) {
  Queue<int> q;
  int a = 0, b = 0;
  std::thread t([&] { int v; if (q.waitFor(v, milliseconds(1))) a = v; });
  std::thread w([&] { int v; if (q.wait(v)) b = v; });
  std::thread p([&] { if (mc::choose(2, "sleep")) mc::sleep_ns(1000000); q.push(11); q.push(12); });
  w.join();
  t.join();
  p.join();
  std::vector<int> rest;
  q.clear([&](int &v) { rest.push_back(v); });
  MC_CHECK(b != 0, "consumer got nothing");
  std::multiset<int> all(rest.begin(), rest.end());
  if (a) all.insert(a);
  all.insert(b);
  MC_CHECK(all == (std::multiset<int>{11, 12}), "lost or doubled: timed %d blocking %d left %s", a, b, str(rest).c_str());
  mc::outcome(std::to_string(a) + "/" + std::to_string(b));
}
// a timed wait returns not before its time unless there is a reason
MC_SCENARIO(queue_timed_wait, {.pb_quick = 2, .pb_thorough = 3, .spurious = 2}) {
  Queue<int> q;
  int how = mc::choose(3, "waitFor(ms)/waitFor/waitUntil");
  int when = mc::choose(3, "push at 5ms / at 15ms / never");
  uint64_t t0 = mc::now_ns();
  std::thread p([&] {
    if (when == 2) return;
    mc::sleep_ns(when == 0 ? 5000000 : 15000000);
    q.push(11);
  });
  int v = 0;
  bool r = how == 0 ? q.waitFor(v, 10LL) : how == 1 ? q.waitFor(v, milliseconds(10)) : q.waitUntil(v, system_clock::now() + milliseconds(10));
  uint64_t dt = mc::now_ns() - t0;
  if (when == 0) MC_CHECK((r && v == 11 && dt >= 5000000) || (!r && dt >= 10000000), "returned %d after %lu ns, value %d", r, dt, v);
  else MC_CHECK((!r && dt >= 10000000) || (r && v == 11 && when == 1 && dt >= 15000000), "returned %d after %lu ns, value %d", r, dt, v);
  p.join();
}
// push against close: nothing is left behind in a queue closed and cleared
MC_SCENARIO(queue_push_vs_close, {.pb_quick = 2, .pb_thorough = 4}) {
  Queue<int> q;
  int how = mc::choose(3, "copy/move/sequence");
  std::thread p([&] {
    if (how == 0) { int x = 11; q.push(x); x = 12; q.push(x); }
    if (how == 1) { q.push(11); q.push(12); }
    if (how == 2) q.push(std::vector<int>{11, 12});
  });
  q.close();
  std::vector<int> got;
  q.clear([&](int &v) { got.push_back(v); });
  p.join();
  checkOrder(got);
  MC_CHECK(q.size() == 0, "an element was put into a closed queue (%s cleared before)", str(got).c_str());
  q.reOpen();
  int v;
  MC_CHECK(!q.tryPop(v), "an element was put into a closed queue");
  mc::outcome(str(got));
}
// a consumer, then close, reopen and push
MC_SCENARIO(queue_reopen, {.pb_quick = 2, .pb_thorough = 4}) {
  Queue<int> q;
  std::vector<int> got;
  bool second = false;
  std::thread c([&] {
    int v;
    if (q.wait(v)) got.push_back(v);
    else if (q.tryPop(v)) got.push_back(v);
  });
  q.close();
  q.reOpen();
  q.push(11);
  mc::quiesce();
  if (mc::live_threads()) { q.close(); second = true; }
  c.join();
  MC_CHECK(!second || q.size() == 1 || got.size() == 1, "consumer blocked although an element is available");
  MC_CHECK(!second, "consumer still blocked although an element was available");
  mc::outcome(str(got) + (q.empty() ? "e" : "n"));
}
// consumers and a clear in between: nothing twice, nothing lost
MC_SCENARIO(queue_clear_vs_pop, {.pb_quick = 2, .pb_thorough = 3}) {
  Queue<int> q;
  q.push(11);
  q.push(12);
  std::vector<int> got, cleared;
  std::thread c([&] { int v; while (q.tryPop(v)) got.push_back(v); });
  std::thread d([&] { q.clear([&](int &v) { cleared.push_back(v); }); });
  q.push(13);
  c.join();
  d.join();
  int v;
  std::vector<int> rest;
  while (q.tryPop(v)) rest.push_back(v);
  checkOrder(got);
  checkOrder(cleared);
  std::multiset<int> all(rest.begin(), rest.end());
  all.insert(got.begin(), got.end());
  all.insert(cleared.begin(), cleared.end());
  MC_CHECK(all == (std::multiset<int>{11, 12, 13}), "popped %s cleared %s left %s", str(got).c_str(), str(cleared).c_str(), str(rest).c_str());
  mc::outcome(str(got) + "|" + str(cleared));
}
// priority queue: best first, every element once
MC_SCENARIO(queue_priority, {.pb_quick = 2, .pb_thorough = 3}) {
  PriorityQueue<int> q;
  std::vector<int> got, rest;
  std::thread p([&] { q.push(11); q.push(31); });
  std::thread c([&] { int v; for (int i = 0; i < 2; ++i) if (q.wait(v)) got.push_back(v); });
  q.push(21);
  p.join();
  c.join();
  int v;
  while (q.tryPop(v)) rest.push_back(v);
  std::multiset<int> all(rest.begin(), rest.end());
  all.insert(got.begin(), got.end());
  MC_CHECK(all == (std::multiset<int>{11, 21, 31}), "received %s left %s", str(got).c_str(), str(rest).c_str());
  // 31 comes before whatever is still there once it is in
  mc::outcome(str(got));
}
// destroying the elements of a closed queue may use the queue again
struct Back {
  Queue<std::shared_ptr<Back>> *q;
  ~Back() { q->size(); }
};
MC_SCENARIO(queue_reentrant_clear) {
  auto q = std::make_unique<Queue<std::shared_ptr<Back>>>();
  auto b = std::make_shared<Back>();
  b->q = q.get();
  q->push(std::move(b));
  std::thread t([&] { q->close(); });
  q->clear();
  t.join();
}
