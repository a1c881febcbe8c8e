// P19, schedules: typed proxy and stub used from several threads.
#include "typed.h"
#include <maf/messaging/ProcessorEx.h>
#include <thread>
using namespace ty;
using std::vector;
using maf::messaging::AsyncProcessor;
static auto direct() { return maf::util::directExecutor(); }
static void doubles(const StubPtr &stub) {
  stub->registerRequestHandler<other_request::input>([](Req<other_request::input> r) { r.respond<other_request::output>(r.getInput()->get_n() * 2); });
}
// two threads ask synchronously: each gets the reply to its own request
MC_SCENARIO(typt_sync, {.pb_quick = 2, .pb_thorough = 3}) {
  bool async = mc::choose(2, "handler on a processor");
  AsyncProcessor proc;
  if (async) proc.launch();
  auto stub = maf::itc::createStub("s", async ? proc->getExecutor() : direct());
  doubles(stub);
  stub->startServing();
  auto px = maf::itc::createProxy("s", direct());
  auto ask = [&](int n) {
    auto st = ACS::FailedUnknown;
    auto r = px->sendRequest<other_request::output>(other_request::make_input(n), &st);
    MC_CHECK(st == ACS::Success && r.isOutput() && r.getOutput() && r.getOutput()->get_n() == 2 * n, "reply to %d: %s, status %d", n, show(r).c_str(), int(st));
  };
  std::thread t([&] { ask(1); ask(2); });
  ask(3);
  t.join();
  stub->stopServing();
  if (async) { proc.stopAndWait(); }
  mc::outcome(async ? "a" : "d");
}
// the service goes away under synchronous requests: they end
MC_SCENARIO(typt_sync_stop, {.pb_quick = 2, .pb_thorough = 4}) {
  auto stub = maf::itc::createStub("s", direct());
  vector<Req<other_request::input>> kept;
  int how = mc::choose(3, "handler keeps/answers/ignores");
  stub->registerRequestHandler<other_request::input>([&](Req<other_request::input> r) {
    if (how == 0) { mc::Quiet q; kept.push_back(std::move(r)); }
    if (how == 1) r.respond<other_request::output>(8);
  });
  stub->startServing();
  auto px = maf::itc::createProxy("s", direct());
  std::string got;
  std::thread t([&] {
    auto st = ACS::FailedUnknown;
    auto r = px->sendRequest<other_request::output>(other_request::make_input(4), &st);
    MC_CHECK(r.isError() || (how == 1 && r.getOutput()->get_n() == 8), "reply %s", show(r).c_str());
    MC_CHECK(r.isOutput() == (how == 1 && st == ACS::Success), "status %d with %s", int(st), show(r).c_str());
    got = r.isOutput() ? "o" : st == ACS::Success ? "e" : st == ACS::ActionBroken ? "b" : "u";
  });
  stub->stopServing();
  t.join();
  MC_CHECK(px->serviceStatus() == Availability::Unavailable, "status");
  mc::outcome(to_string(how) + got);
  for (auto &r : kept) r.respond<other_request::output>(9);
}
// updates race with a registration and another one: each callback sees increasing values, the last one included
MC_SCENARIO(typt_status, {.pb_quick = 2, .pb_thorough = 3}) {
  bool queued = mc::choose(2, "callbacks on a processor");
  AsyncProcessor proc;
  if (queued) proc.launch();
  auto stub = maf::itc::createStub("s", direct());
  auto px = maf::itc::createProxy("s", queued ? proc->getExecutor() : direct());
  stub->startServing();
  Log a, b;
  px->registerStatus<mode_property::status>([&](const std::shared_ptr<mode_property::status> &s) { a.add(s ? s->get_n() : -1); });
  std::thread t([&] { for (int i = 1; i <= 2; ++i) stub->setStatus<mode_property::status>(i); });
  px->registerStatus<mode_property::status>([&](const std::shared_ptr<mode_property::status> &s) { b.add(s ? s->get_n() : -1); });
  t.join();
  if (queued) mc::quiesce();
  MC_CHECK(a.str() == "1 2 ", "first registration saw %s", a.str().c_str());
  MC_CHECK(b.count(2) >= 1, "the late registration never saw the final value: %s", b.str().c_str());
  MC_CHECK(b.count(1) <= 2 && b.count(2) <= 2 && b.count(-1) == 0, "late registration: %s", b.str().c_str());
  auto s = px->getStatus<mode_property::status>();
  MC_CHECK(s && s->get_n() == 2, "status asked for afterwards");
  mc::outcome(b.str());
  stub->stopServing();
  if (queued) proc.stopAndWait();
}
// signals: each one once and in order to every registration
MC_SCENARIO(typt_signal, {.pb_quick = 2, .pb_thorough = 3}) {
  AsyncProcessor proc;
  proc.launch();
  auto stub = maf::itc::createStub("s", direct());
  auto px = maf::itc::createProxy("s", proc->getExecutor());
  stub->startServing();
  Log a, n;
  px->registerSignal<news_signal::attributes>([&](const std::shared_ptr<news_signal::attributes> &s) { a.add(s->get_n()); });
  std::thread t([&] { stub->broadcastSignal<news_signal::attributes>(1, vector<int>{1}); stub->broadcastSignal<news_signal::attributes>(2, vector<int>{2}); });
  auto id = px->registerSignal<tick_signal>([&] { n.add(7); });
  stub->broadcastSignal<tick_signal>();
  px->unregister(id);
  stub->broadcastSignal<tick_signal>();
  t.join();
  mc::quiesce();
  MC_CHECK(a.str() == "1 2 ", "news: %s", a.str().c_str());
  MC_CHECK(n.str() == "7 ", "ticks: %s", n.str().c_str());
  stub->stopServing();
  proc.stopAndWait();
}
// proxies and stubs of one service made at the same time belong together
MC_SCENARIO(typt_create, {.pb_quick = 2, .pb_thorough = 3}) {
  ProxyPtr p1, p2;
  StubPtr s1, s2;
  std::thread t([&] { p1 = maf::itc::createProxy("s", direct()); s1 = maf::itc::createStub("s", direct()); });
  s2 = maf::itc::createStub("s", direct());
  p2 = maf::itc::createProxy("s", direct());
  t.join();
  doubles(s1);
  MC_CHECK(!s2->registerRequestHandler<other_request::input>([](Req<other_request::input>) {}), "the two stubs have different providers");
  s2->startServing();
  MC_CHECK(s1->availability() == Availability::Available, "availability seen from the other stub");
  for (auto &p : {p1, p2}) {
    auto r = p->sendRequest<other_request::output>(other_request::make_input(21));
    MC_CHECK(r.isOutput() && r.getOutput()->get_n() == 42, "reply: %s", show(r).c_str());
  }
  s1->stopServing();
}
// waiting for the service status
MC_SCENARIO(typt_wait, {.pb_quick = 3, .pb_thorough = 5}) {
  auto stub = maf::itc::createStub("s", direct());
  auto px = maf::itc::createProxy("s", direct());
  int how = mc::choose(4, "start/start and stop/interrupt/timed");
  Log seen;
  auto obs = px->onServiceStatusChanged([&](Availability, Availability n) { seen.add(int(n)); });
  std::thread t([&] { if (how != 2) stub->startServing(); if (how == 1) stub->stopServing(); });
  auto w = serviceStatusSignal(px);
  if (how == 0) {
    MC_CHECK(w->waitIfNot(Availability::Available).isReady() && w->currentStatus() == Availability::Available, "waited for the service");
    MC_CHECK(px->serviceStatus() == Availability::Available, "available");
    doubles(stub);
    auto r = px->sendRequest<other_request::output>(other_request::make_input(1));
    MC_CHECK(r.isOutput(), "request after the wait: %s", show(r).c_str());
  } else if (how == 1) {
    t.join();
    MC_CHECK(w->waitIfNot(Availability::Unavailable).isReady(), "gone again");
    MC_CHECK(w->waitIfNot(Availability::Available, 5).isTimeout(), "waiting for a service that is gone");
  } else if (how == 2) {
    std::thread u([&] { w->stop(); });
    MC_CHECK(w->waitIfNot(Availability::Available).isInterrupted(), "interrupted wait");
    u.join();
  } else {
    auto s = w->waitIfNot(Availability::Available, 1000);
    t.join();
    MC_CHECK(s.isReady() || s.isTimeout(), "timed wait");
    mc::outcome(s.isReady() ? "ready" : "timeout");
    MC_CHECK(w->waitIfNot(Availability::Available, 1).isReady(), "after the start");
  }
  if (t.joinable()) t.join();
  auto s = seen.str();
  string a = to_string(int(Availability::Available)) + " ", u = to_string(int(Availability::Unavailable)) + " ";
  MC_CHECK(how == 0 || how == 3 ? s == a : how == 1 ? s == a + u : s.empty(), "observer saw %s", s.c_str());
}
// a reply races with the abort: the client sees the reply, or the service is told of the abort
MC_SCENARIO(typt_abort, {.pb_quick = 3, .pb_thorough = 5}) {
  auto stub = maf::itc::createStub("s", direct());
  auto px = maf::itc::createProxy("s", direct());
  stub->startServing();
  std::shared_ptr<Req<other_request::input>> kept;
  Log ab, re;
  auto through = std::make_shared<Later>();
  stub->registerRequestHandler<other_request::input>([&](Req<other_request::input> r) {
    r.onAborted([&] { ab.add(1); }, direct());
    kept = std::make_shared<Req<other_request::input>>(std::move(r));
  });
  auto id = px->sendRequestAsync<other_request::output>(other_request::make_input(4), [&](Resp<other_request::output> r) { re.add(r.isOutput() ? r.getOutput()->get_n() : -1); });
  bool drop = mc::choose(2, "answered by ignoring it");
  std::thread t([&] { if (drop) kept.reset(); else kept->respond<other_request::output>(5); });
  px->abortRequest(id);
  t.join();
  MC_CHECK(re.size() <= 1 && ab.size() <= 1 && re.count(drop ? -1 : 5) == (int)re.size(), "replies %s", re.str().c_str());
  mc::outcome(re.str() + "/" + ab.str());
  kept.reset();
  MC_CHECK(re.size() <= 1, "answered again");
  stub->stopServing();
}
// a processor that stops with requests queued: the client is not left waiting
MC_SCENARIO(typt_executor_stops, {.pb_quick = 2, .pb_thorough = 4}) {
  AsyncProcessor proc;
  proc.launch();
  auto stub = maf::itc::createStub("s", proc->getExecutor());
  doubles(stub);
  stub->startServing();
  auto px = maf::itc::createProxy("s", direct());
  Obs<int> done;
  std::thread t([&] {
    auto st = ACS::FailedUnknown;
    auto r = px->sendRequest<other_request::output>(other_request::make_input(4), &st);
    MC_CHECK(r.isError() || r.getOutput()->get_n() == 8, "reply %s", show(r).c_str());
    done = 1;
    mc::outcome(r.isOutput() ? "o" : st == ACS::Success ? "e" : "b");
  });
  proc.stopAndWait();
  stub->stopServing();
  t.join();
  MC_CHECK(done == 1, "waiting");
}
