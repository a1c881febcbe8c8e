// P20, schedules: status changes, observers and requesters in several threads.
#include "cs.h"
#include <maf/messaging/client-server/ServiceStatusSignal.h>
#include <maf/messaging/client-server/AsyncServiceStatusObserver.h>
#include <thread>
using namespace cs;
using Av = Availability;

struct Ob : ServiceStatusObserverIF {
  string log;
  std::function<void(Av)> then;
  string sid = S;
  void onServiceStatusChanged(const ServiceID &s, Availability, Availability n) override {
    { mc::Quiet q; MC_CHECK(s == sid, "told about another service"); log += n == Av::Available ? '+' : n == Av::Unavailable ? '-' : '?'; }
    if (then) then(n);
  }
  string got() { mc::Quiet q; return log; }
};
struct W {
  std::shared_ptr<TestClient> c = std::make_shared<TestClient>();
  ~W() { c->deinit(); }
};
static bool alternates(const string &s) {
  for (size_t i = 1; i < s.size(); ++i) if (s[i] == s[i - 1]) return false;
  return s.empty() || s[0] == '+';
}
// changes in one thread, registration in another: what is told is the history
// from some point on, and its end is the current state
MC_SCENARIO(st_observe_vs_change, {.pb_quick = 3, .pb_thorough = 5}) {
  W w;
  auto o = std::make_shared<Ob>(), late = std::make_shared<Ob>();
  auto r = w.c->getServiceRequester(S);
  r->registerServiceStatusObserver(o);
  int n = mc::choose(3, "changes");
  std::thread t([&] { w.c->available(); if (n > 0) w.c->unavailable(); if (n > 1) w.c->available(); });
  r->registerServiceStatusObserver(late);
  t.join();
  string all = string("+-+").substr(0, n + 1);
  MC_CHECK(o->got() == all, "observer told %s, expected %s", o->log.c_str(), all.c_str());
  string l = late->got();
  // it may join at any change; joining while available it is told so at once
  bool ok = alternates(l.empty() || l[0] == '+' ? l : "+" + l);
  ok = ok && l.size() <= all.size() && (l.empty() ? all.back() == '-' : l.back() == all.back());
  MC_CHECK(ok, "late observer told %s of %s", l.c_str(), all.c_str());
  MC_CHECK((r->serviceStatus() == Av::Available) == (all.back() == '+'), "status");
  mc::outcome(all + l);
}
// the requester is created while the service appears or goes
MC_SCENARIO(st_requester_vs_change, {.pb_quick = 4, .pb_thorough = 6}) {
  W w;
  int n = mc::choose(4, "changes");
  std::thread t([&] {
    if (n < 2) w.c->available(); else w.c->incoming(createCSMessage(S, OpID_ServiceAvailable, OpCode::ServiceStatusUpdate));
    if (n == 1) w.c->unavailable();
    if (n == 3) w.c->onServerStatusChanged(Av::Available, Av::Unavailable);
  });
  auto o = std::make_shared<Ob>();
  auto r = w.c->getServiceRequester(S);
  r->registerServiceStatusObserver(o);
  t.join();
  bool up = n == 0 || n == 2;
  MC_CHECK((r->serviceStatus() == Av::Available) == up, "the requester sees the service %s", up ? "unavailable" : "available");
  MC_CHECK((w.c->getServiceStatus(S) == Av::Available) == up, "the client sees the service %s", up ? "unavailable" : "available");
  string l = o->got();
  MC_CHECK(up ? l == "+" : l == "" || l == "+-" || l == "-", "observer told %s", l.c_str());
  mc::outcome(l);
}
// two threads ask for the same requester
MC_SCENARIO(st_one_requester, {.pb_quick = 3, .pb_thorough = 5}) {
  W w;
  std::shared_ptr<ServiceRequesterIF> a, b, c;
  std::thread t([&] { a = w.c->getServiceRequester(S); w.c->getServiceRequester("other"); });
  std::thread u([&] { c = w.c->getServiceRequester(S); w.c->available(); });
  b = w.c->getServiceRequester(S);
  w.c->hasServiceRequester("other");
  t.join(); u.join();
  MC_CHECK(a && a == b && b == c && w.c->hasServiceRequester("other"), "different requesters");
  MC_CHECK(a->serviceStatus() == Av::Available, "status");
}
// an observer calls back into the client while others change and (un)register
MC_SCENARIO(st_observer_calls_back, {.pb_quick = 2, .pb_thorough = 4}) {
  W w;
  auto r = w.c->getServiceRequester(S);
  auto o = std::make_shared<Ob>(), more = std::make_shared<Ob>();
  int what = mc::choose(5, "what");
  o->then = [&](Av n) {
    if (what == 0) { w.c->getServiceRequester("q"); w.c->getServiceStatus(S); }
    if (what == 1) r->unregisterServiceStatusObserver(o);
    if (what == 2 && n == Av::Available) r->registerServiceStatusObserver(more);
    if (what == 3) { r->registerSignal("x", [](auto &) {}, nullptr); r->sendRequestAsync("a", pay(1), [](auto &) {}, nullptr); }
    if (what == 4) w.c->onServiceStatusChanged("q", Av::Unavailable, Av::Available);
  };
  r->registerServiceStatusObserver(o);
  std::thread t([&] { w.c->available(); w.c->unavailable(); });
  auto q = w.c->getServiceRequester("q");
  auto b = std::make_shared<Ob>();
  r->registerServiceStatusObserver(b);
  r->registerSignal("y", [](auto &) {}, nullptr);
  r->unregisterServiceStatusObserver(b);
  t.join();
  string l = o->got();
  MC_CHECK(l == (what == 1 ? "+" : "+-"), "observer told %s", l.c_str());
  if (what == 2) MC_CHECK(more->got() == "+-" || more->got() == "-", "added observer told %s", more->log.c_str());
  if (what == 4) MC_CHECK(q->serviceStatus() == Av::Available, "status of the other service");
  o->then = nullptr;
}
// an observer is gone for good once unregistered, except for a call under way
MC_SCENARIO(st_unregister_vs_change, {.pb_quick = 3, .pb_thorough = 5}) {
  W w;
  auto r = w.c->getServiceRequester(S);
  auto o = std::make_shared<Ob>(), b = std::make_shared<Ob>();
  Obs<int> gone{0}, started{0};
  r->registerServiceStatusObserver(o);
  r->registerServiceStatusObserver(b);
  std::thread t([&] {
    w.c->available();
    bool g = gone; size_t k = o->got().size();
    w.c->unavailable();
    if (g) MC_CHECK(o->got().size() == k, "told after unregistering");
  });
  r->unregisterServiceStatusObserver(o);
  gone = 1;
  t.join();
  string l = o->got();
  MC_CHECK(l == "" || l == "+" || l == "+-", "unregistered observer told %s", l.c_str());
  MC_CHECK(b->got() == "+-", "the other observer was told %s", b->log.c_str());
  mc::outcome(l);
}
// changes from two threads are told in the order they happened
MC_SCENARIO(st_changes_from_two, {.pb_quick = 3, .pb_thorough = 5}) {
  W w;
  auto r = w.c->getServiceRequester(S);
  auto o = std::make_shared<Ob>(), b = std::make_shared<Ob>();
  Obs<int> under{0};
  o->then = [&](Av) { MC_CHECK(under == 0, "told of two changes at once"); under = 1; r->serviceStatus(); under = 0; };
  r->registerServiceStatusObserver(o);
  r->registerServiceStatusObserver(b);
  int first = mc::choose(2, "available first");
  if (first) w.c->available();
  std::thread t([&] { w.c->unavailable(); w.c->available(); });
  if (first) w.c->onServerStatusChanged(Av::Available, Av::Unavailable); else w.c->available();
  t.join();
  bool up = r->serviceStatus() == Av::Available;
  for (auto &x : {o, b}) {
    MC_CHECK(alternates(x->got()), "told %s", x->log.c_str());
    MC_CHECK(!x->log.empty() && (x->log.back() == '+') == up, "told %s, the service is %s", x->log.c_str(), up ? "there" : "gone");
  }
  MC_CHECK(o->log == b->log, "one told %s, the other %s", o->log.c_str(), b->log.c_str());
  mc::outcome(o->log);
  o->then = nullptr;
}
// an observer unregisters another one, which is not told any more
MC_SCENARIO(st_unregisters_other, {.pb_quick = 3, .pb_thorough = 5}) {
  W w;
  auto r = w.c->getServiceRequester(S);
  std::shared_ptr<Ob> o[3];
  int who = mc::choose(3, "who"), whom = mc::choose(3, "whom"), when = mc::choose(2, "when");
  for (auto &x : o) { x = std::make_shared<Ob>(); r->registerServiceStatusObserver(x); }
  size_t had = 0;
  bool other = mc::choose(2, "from another thread"), done = false;
  o[who]->then = [&](Av n) {
    if (done || (n == Av::Available) != (when == 0)) return;
    done = true;
    auto off = [&] { r->unregisterServiceStatusObserver(o[whom]); };
    if (other) std::thread(off).join(); else off();
    had = o[whom]->got().size();
  };
  w.c->available();
  w.c->unavailable();
  w.c->available();
  for (int i = 0; i < 3; ++i)
    MC_CHECK(o[i]->got() == (i == whom ? string("+-+").substr(0, had) : "+-+"), "observer %d told %s", i, o[i]->log.c_str());
  MC_CHECK(had == size_t(when + (whom <= who)), "told %zu before", had);
  for (auto &x : o) x->then = nullptr;
}
// with the server go all its services
MC_SCENARIO(st_server_gone_all, {.pb_quick = 1, .pb_thorough = 2}) {
  W w;
  int n = mc::choose(5, "services"), up = mc::choose(1 << n, "available");
  std::vector<std::shared_ptr<ServiceRequesterIF>> r;
  std::vector<std::shared_ptr<Ob>> o;
  for (int i = 0; i < n; ++i) {
    string sid = "s" + std::to_string(i);
    r.push_back(w.c->getServiceRequester(sid));
    o.push_back(std::make_shared<Ob>());
    o[i]->sid = sid;
    r[i]->registerServiceStatusObserver(o[i]);
    if (up >> i & 1) w.c->onServiceStatusChanged(sid, Av::Unavailable, Av::Available);
  }
  w.c->onServerStatusChanged(Av::Available, Av::Unavailable);
  for (int i = 0; i < n; ++i) {
    bool was = up >> i & 1;
    MC_CHECK(o[i]->got() == (was ? "+-" : ""), "service %d told %s", i, o[i]->log.c_str());
    MC_CHECK(r[i]->serviceStatus() != Av::Available && w.c->getServiceStatus(o[i]->sid) != Av::Available, "service %d still there", i);
  }
}
// the wait of a status signal ends with the status, its timeout or stop
MC_SCENARIO(st_signal_wait, {.pb_quick = 3, .pb_thorough = 5}) {
  W w;
  auto r = w.c->getServiceRequester(S);
  auto sig = serviceStatusSignal();
  r->registerServiceStatusObserver(sig);
  int how = mc::choose(3, "available/stop/nothing");
  bool timed = how == 2 || mc::choose(2, "timed");
  auto t0 = mc::now_ns();
  std::thread t([&] { if (how == 0) w.c->available(); if (how == 1) sig->stop(); });
  auto s = timed ? sig->waitIfNot(Av::Available, 50) : sig->waitIfNot(Av::Available);
  bool late = mc::now_ns() - t0 >= 50000000ull;
  t.join();
  if (s.isTimeout()) MC_CHECK(timed && late, "gave up early");
  else if (how == 0) MC_CHECK(s.isReady() && sig->currentStatus() == Av::Available, "not ready");
  else if (how == 1) MC_CHECK(s.isInterrupted(), "not interrupted");
  else mc::violation("nothing happened, but the wait ended");
}
// every thread that waits for the service goes on
MC_SCENARIO(st_signal_waiters, {.pb_quick = 3, .pb_thorough = 5}) {
  W w;
  auto r = w.c->getServiceRequester(S);
  auto sig = serviceStatusSignal();
  r->registerServiceStatusObserver(sig);
  bool stops = mc::choose(2, "stop");
  Log ok;
  auto wait = [&] { auto s = sig->waitIfNot(Av::Available); if (stops ? s.isInterrupted() : s.isReady()) ok.add(1); };
  std::thread a(wait), b(wait);
  if (stops) sig->stop(); else w.c->available();
  a.join(), b.join();
  MC_CHECK(ok.count(1) == 2, "%d of 2 waiting threads went on as they should", ok.count(1));
}
// an observer that posts to a processor
MC_SCENARIO(st_async_observer, {.pb_quick = 2, .pb_thorough = 3}) {
  W w;
  auto r = w.c->getServiceRequester(S);
  string got;
  auto p = Processor::create("p");
  p->connect<ServiceStatusMsg>([&](const ServiceStatusMsg &m) { MC_CHECK(m.serviceID == S, "service id"); got += m.newStatus == Av::Available ? '+' : '-'; if (got == "+-") p->stop(); });
  r->registerServiceStatusObserver(asyncServiceStatusObserver(p));
  std::thread t([&] { w.c->available(); w.c->unavailable(); });
  p->run();
  t.join();
  MC_CHECK(got == "+-", "told %s", got.c_str());
}
// two services change in two threads
MC_SCENARIO(st_two_services, {.pb_quick = 3, .pb_thorough = 5}) {
  W w;
  auto r = w.c->getServiceRequester("a"), q = w.c->getServiceRequester("b");
  auto o = std::make_shared<Ob>(), p = std::make_shared<Ob>();
  o->sid = "a"; p->sid = "b";
  o->then = [&](Av) { w.c->getServiceRequester("b")->serviceStatus(); q->registerSignal("x", [](auto &) {}, nullptr); };
  p->then = [&](Av) { w.c->getServiceRequester("a")->serviceStatus(); r->registerSignal("x", [](auto &) {}, nullptr); };
  r->registerServiceStatusObserver(o); q->registerServiceStatusObserver(p);
  bool lost = mc::choose(2, "server lost");
  std::thread t([&] { w.c->available("a"); if (!lost) w.c->unavailable("a"); });
  w.c->available("b");
  if (lost) { t.join(); w.c->onServerStatusChanged(Av::Available, Av::Unavailable); }
  else t.join();
  MC_CHECK(o->got() == "+-" && p->got() == (lost ? "+-" : "+"), "told %s and %s", o->log.c_str(), p->log.c_str());
  o->then = p->then = nullptr;
}
// serving and asking for providers in several threads
struct Srv : TestServer {
  void notifyServiceStatusToClient(const ServiceID &sid, Availability o, Availability n) override { mc::point(); TestServer::notifyServiceStatusToClient(sid, o, n); if (then) then(); }
  std::function<void()> then;
};
MC_SCENARIO(st_serve, {.pb_quick = 3, .pb_thorough = 5}) {
  auto s = std::make_shared<Srv>();
  bool back = mc::choose(2, "asks back");
  if (back) s->then = [&] { s->getServiceProvider("a"); s->hasServiceProvider("b"); };
  ServiceProviderIFPtr a;
  std::thread t([&] { a = s->getServiceProvider("a"); a->startServing(); a->stopServing(); });
  auto b = s->getServiceProvider("a"), c = s->getServiceProvider("b");
  auto av = b->availability();
  s->incoming(createCSMessage("a", "x", OpCode::SignalRegister, 1, {}, Address("c", 0)));
  c->startServing();
  t.join();
  MC_CHECK(a == b && a != c, "providers");
  string l; for (auto &x : s->status) if (x[0] == 'a') l += x;
  MC_CHECK(l == "a+a-" && s->status.size() == 3, "told %s", l.c_str());
  s->then = nullptr;
}
MC_SCENARIO(st_server_deinit, {.pb_quick = 3, .pb_thorough = 5}) {
  auto s = std::make_shared<Srv>();
  s->then = [&] { s->hasServiceProvider("b"); };
  auto a = s->getServiceProvider("a");
  a->startServing();
  a->registerRequestHandler("x", [](const std::shared_ptr<RequestIF> &r) { r->respond(pay(1)); });
  std::thread t([&] {
    s->incoming(createCSMessage("a", "x", OpCode::Request, 1, {}, Address("c", 0)));
    s->getServiceProvider("b");
  });
  s->deinit();
  t.join();
  string l; for (auto &x : s->status) l += x;
  MC_CHECK(l == "a+a-" || l == "a+a-b-" , "told %s", l.c_str());
  MC_CHECK(!s->hasServiceProvider("a"), "provider left");
  s->then = nullptr;
  s->deinit();
}
