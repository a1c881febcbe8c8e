// P06, schedules: creating, stopping, finding and addressing named processors.
#include <maf/messaging/Processor.h>
#include <maf/messaging/Routing.h>
#include "util.h"
#include <chrono>
#include <thread>
using namespace maf::messaging;
struct M { int v; };
using routing::ProcessorStatusUpdateMsg;

static bool handleAll(ProcessorInstance p) {
  bool any = false;
  while (p->pendingCout() && p->runOnceFor(std::chrono::milliseconds(1))) any = true;
  return any;
}
// of two creators of one id exactly one gets it
MC_SCENARIO(route_two_creators) {
  ProcessorInstance a, b;
  std::thread t([&] { a = Processor::create("x"); });
  b = Processor::create("x");
  t.join();
  MC_CHECK((a != nullptr) != (b != nullptr), "creators got %p and %p", a.get(), b.get());
  auto p = a ? a : b;
  MC_CHECK(p->id() == "x" && routing::findProcessor("x") == p && Processor::findProcessor("x") == p, "find");
  MC_CHECK(!Processor::create("x"), "created twice");
  p->stop();
  MC_CHECK(!routing::findProcessor("x"), "found after stop");
  auto q = Processor::create("x");
  MC_CHECK(q && q != p && routing::findProcessor("x") == q, "id not free after stop");
  mc::outcome(a ? "a" : "b");
}
// anonymous ids differ
MC_SCENARIO(route_anonymous_ids) {
  ProcessorInstance a, b;
  std::thread t([&] { a = Processor::create(); });
  b = Processor::create();
  t.join();
  MC_CHECK(a && b && a->id() != b->id(), "ids of anonymous processors");
  MC_CHECK(!routing::findProcessor(a->id()), "anonymous processor is registered");
}
// stop of the old holder never removes the new one
MC_SCENARIO(route_stop_vs_create) {
  auto old = Processor::create("x");
  ProcessorInstance n;
  std::thread t([&] { n = Processor::create("x"); if (!n) n = Processor::create("x"); });
  old->stop();
  t.join();
  auto f = routing::findProcessor("x");
  MC_CHECK(f == n, "find gives %s, created %d", !f ? "nothing" : f == old ? "the stopped one" : "the new one", n != nullptr);
  if (!n) n = Processor::create("x");
  MC_CHECK(n && routing::findProcessor("x") == n, "id not free");
  mc::outcome(f ? "1" : "0");
}
// two stops of one processor and a new holder
MC_SCENARIO(route_two_stops) {
  auto old = Processor::create("x");
  std::thread t([&] { old->stop(); });
  old->stop();
  ProcessorInstance n = Processor::create("x");
  t.join();
  if (!n) n = Processor::create("x");
  MC_CHECK(n, "id not free");
  MC_CHECK(routing::findProcessor("x") == n, "new holder not found");
}
// a routed message reaches the holder at that time and no other
MC_SCENARIO(route_post_vs_handover) {
  Log log;
  auto handler = [&](ProcessorInstance p, int n) { p->connect<M>([&log, n](const M &m) { log.add(n + m.v); }); };
  auto a = Processor::create("x"), other = Processor::create("y");
  handler(a, 10);
  handler(other, 30);
  ProcessorInstance b;
  Obs<int> ok;
  std::thread t([&] { ok = routing::post<M>("x", 1); });
  a->runOnceFor(std::chrono::microseconds(1));
  a->stop();
  b = Processor::create("x");
  MC_CHECK(b, "id not free after stop");
  handler(b, 20);
  t.join();
  handleAll(a);
  handleAll(b);
  handleAll(other);
  int na = log.count(11), nb = log.count(21), no = log.count(31);
  MC_CHECK(na + nb <= (ok ? 1 : 0) && no == 0, "ok %d, handled %s", (int)ok, log.str().c_str());
  MC_CHECK(!routing::post<M>("z", 1) && !routing::send<M>("z", 1).valid(), "posted to an unknown id");
  mc::outcome(std::to_string(ok) + log.str());
}
// broadcast reaches each registered processor once
MC_SCENARIO(route_broadcast) {
  Log log;
  auto a = Processor::create("a"), b = Processor::create("b"), c = Processor::create("c");
  a->connect<M>([&](const M &m) { log.add(10 + m.v); });
  b->connect<M>([&](const M &m) { log.add(20 + m.v); });
  int how = mc::choose(2, "stop/create meanwhile");
  ProcessorInstance d;
  std::thread t([&] {
    if (how == 0) b->stop();
    else { d = Processor::create("d"); d->connect<M>([&](const M &m) { log.add(40 + m.v); }); }
  });
  MC_CHECK(routing::postToAll<M>(1), "postToAll failed");
  t.join();
  handleAll(a);
  handleAll(b);
  handleAll(c);
  if (d) handleAll(d);
  MC_CHECK(log.count(11) == 1, "%s", log.str().c_str());
  MC_CHECK(how == 0 ? log.count(21) == 0 : log.count(21) == 1, "%s", log.str().c_str());
  MC_CHECK(log.count(41) <= 1, "%s", log.str().c_str());
  mc::outcome(log.str());
}
// routing from inside handlers while others come and go
MC_SCENARIO(route_inside) {
  Log log;
  auto a = Processor::create("a"), b = Processor::create("b");
  int in = mc::choose(6, "inside: post/all/sendToAll/send self/create/stop"), out = mc::choose(4, "outside: stop b/create/postToAll/find");
  a->connect<M>([&](const M &m) { log.add(10 + m.v); });
  a->connect<ProcessorStatusUpdateMsg>([&](const ProcessorStatusUpdateMsg &) { routing::findProcessor("b"); });
  b->connect<M>([&](const M &m) { log.add(20 + m.v); });
  std::thread t([&] { a->run(); });
  std::thread o([&] {
    switch (out) {
      case 0: b->stop(); break;
      case 1: if (auto c = Processor::create("c")) c->stop(); break;
      case 2: routing::postToAll<M>(2); break;
      case 3: routing::findProcessor("b"); break;
    }
  });
  a->waitableExecute([&] {
    switch (in) {
      case 0: routing::post<M>("a", 1); routing::post<M>("b", 1); break;
      case 1: routing::postToAll<M>(1); break;
      case 2: b->disconnect<M>(); if (auto s = routing::sendToAll<M>(1); s.valid()) s.get(); break;
      case 3: if (auto s = routing::send<M>("a", 1); s.valid()) s.get(); MC_CHECK(log.count(11) == 1, "send to itself not handled"); break;
      case 4: if (auto c = Processor::create("c2")) c->stop(); break;
      case 5: b->stop(); break;
    }
  }).get();
  o.join();
  a->waitableExecute([] {}).get();
  a->waitableExecute([] {}).get();
  MC_CHECK(log.count(11) == (in < 4 ? 1 : 0), "%s", log.str().c_str());
  a->stop();
  t.join();
  if (out != 0 && in != 5) MC_CHECK(routing::findProcessor("b") == b, "b lost");
  else MC_CHECK(!routing::findProcessor("b"), "b still registered");
  mc::outcome(log.str());
}
// synchronous send to a processor in its own thread, stopped meanwhile
MC_SCENARIO(route_send_vs_stop) {
  Log log;
  auto a = Processor::create("a");
  a->connect<M>([&](const M &m) { log.add(m.v); });
  std::thread t([&] { a->run(); });
  std::thread s([&] { a->stop(); });
  int all = mc::choose(2, "send/sendToAll"), res = 0;
  auto sig = all ? routing::sendToAll<M>(1) : routing::send<M>("a", 1);
  if (sig.valid()) {
    try { sig.get(); res = 1; } catch (const std::future_error &) { res = -1; }
  }
  MC_CHECK(res == 1 ? log.count(1) == 1 : log.count(1) == 0, "result %d, handled %s", res, log.str().c_str());
  s.join();
  t.join();
  mc::outcome(std::to_string(res));
}
// a send to all is complete only when every receiver has handled the message
MC_SCENARIO(route_send_all_completes) {
  Log log;
  ProcessorInstance p[3] = {Processor::create("a"), Processor::create("b"), Processor::create("c")};
  for (int i = 0; i < 3; ++i) p[i]->connect<M>([&, i](const M &m) { log.add(i * 10 + m.v); });
  auto sig = routing::sendToAll<M>(1);
  MC_CHECK(sig.valid(), "no completion signal");
  std::thread w([&] {
    sig.wait();
    MC_CHECK(log.size() == 3, "complete when handled: %s", log.str().c_str());
  });
  static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  int k = mc::choose(6, "order of handling");
  for (int i : perm[k]) handleAll(p[i]);
  w.join();
  MC_CHECK(log.size() == 3 && log.count(1) == 1 && log.count(11) == 1 && log.count(21) == 1, "%s", log.str().c_str());
}
// the handler a send to all runs at once changes who is there
MC_SCENARIO(route_handler_changes_all) {
  Log log;
  ProcessorInstance p[3] = {Processor::create("a"), Processor::create("b"), Processor::create("c")}, made;
  int self = mc::choose(3, "self"), whom = mc::choose(3, "whom"), what = mc::choose(4, "stop/find/create/from another thread");
  for (int i = 0; i < 3; ++i)
    p[i]->connect<M>([&, i](const M &m) {
      log.add(i * 10 + m.v);
      if (i != self) return;
      if (what == 0) p[whom]->stop();
      if (what == 1) MC_CHECK(routing::findProcessor(p[whom]->id()) == p[whom], "not found");
      if (what == 2) MC_CHECK((made = Processor::create("bb")), "not created");
      if (what == 3) std::thread([&] { p[whom]->stop(); }).join();
    });
  Processor::CompleteSignal all;
  std::thread t([&] { p[self]->runOnceFor(std::chrono::milliseconds(0)); });
  p[self]->executeAsync([&] { all = routing::sendToAll<M>(1); });
  t.join();
  if (log.size() == 0) handleAll(p[self]);
  for (auto &x : p) handleAll(x);
  MC_CHECK(all.valid(), "no completion signal");
  try { all.get(); } catch (const std::future_error &) {}
  for (int i = 0; i < 3; ++i) {
    bool stopped = (what == 0 || what == 3) && i == whom;
    // its own handler runs before it is told to stop
    MC_CHECK(log.count(i * 10 + 1) == (stopped && i != self ? 0 : 1), "%s", log.str().c_str());
    MC_CHECK((routing::findProcessor(p[i]->id()) == p[i]) == !stopped, "processor %d", i);
  }
  MC_CHECK(what != 2 || routing::findProcessor("bb") == made, "the new one");
}
