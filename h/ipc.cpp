// P29: client and service at the two ends of the local IPC transport, over
// simulated sockets.
#include <vsock.h>
#include <mc.h>
#include "util.h"
#include <thread>
#include <maf/messaging/client-server/CSMgmt.h>
#include <maf/messaging/client-server/CSError.h>
#include <maf/messaging/client-server/CSMessage.h>
#include <maf/messaging/client-server/ClientIF.h>
#include <maf/messaging/client-server/RequestIF.h>
#include <maf/messaging/client-server/ServerIF.h>
#include <maf/messaging/client-server/ServiceProviderIF.h>
#include <maf/messaging/client-server/ServiceRequesterIF.h>
#include <maf/messaging/client-server/ServiceStatusObserverIF.h>
#include <maf/messaging/client-server/ipc/local/ConnectionType.h>
#include <maf/messaging/client-server/ipc/local/IncomingPayload.h>
#include <maf/messaging/client-server/ipc/local/OutgoingPayload.h>
#include "messaging/client-server/ipc/LocalIPCClient.h"
#include "messaging/client-server/ipc/LocalIPCServer.h"
#include "messaging/client-server/ipc/LocalIPCBufferReceiver.h"
#include "messaging/client-server/ipc/LocalIPCBufferSender.h"
#include "messaging/client-server/ipc/LocalIPCMessage.h"
using namespace maf::messaging;
using namespace maf::messaging::ipc;
using RequestIFPtr = std::shared_ptr<RequestIF>;
using std::string;
using Av = Availability;
using ACS = ActionCallStatus;
static const Address A("srv", 1);
static const char *S = "svc", *S2 = "svc2";
static const uint64_t MS = 1000000;
static CSPayloadIFPtr pay(int v) { return std::make_shared<local::OutgoingPayloadT<int>>(std::make_shared<int>(v)); }
// -1: null, -2: error, -3: anything else
static int val(const CSPayloadIFPtr &p) {
  mc::Quiet q;
  if (!p) return -1;
  if (p->type() == CSPayloadType::Error) return -2;
  if (p->type() != CSPayloadType::IncomingData) return -3;
  auto s = static_cast<local::IncomingPayload *>(p.get())->streamView();
  try {
    maf::srz::DSR<maf::srz::IByteStreamView> d(s);
    std::shared_ptr<int> v;
    d >> v;
    return v ? *v : -4;
  } catch (...) { return -3; }
}
struct Ob : ServiceStatusObserverIF {
  string log;
  void onServiceStatusChanged(const ServiceID &, Availability, Availability n) override { mc::Quiet q; log += n == Av::Available ? '+' : '-'; }
  string got() { mc::Quiet q; return log; }
};
struct Str {
  string s;
  void add(const string &x) { mc::Quiet q; s += x + " "; }
  string got() { mc::Quiet q; return s; }
};

template <class P> static bool within(uint64_t ms, P pred) {
  for (uint64_t end = mc::now_ns() + ms * MS;;) {
    mc::quiesce();
    if (pred()) return true;
    if (mc::now_ns() >= end) return false;
    mc::sleep_ns(20 * MS);
  }
}
// a server with one service: "inc" answers one more, "err" an error, "hold" later
struct Srv {
  std::shared_ptr<ServerIF> s = local::makeServer();
  std::shared_ptr<ServiceProviderIF> p;
  Str log;
  std::vector<RequestIFPtr> held;
  bool up = false;
  bool begin(const char *sid = S, bool serve = true) {
    if (!s->init(A)) return false;
    p = s->getServiceProvider(sid);
    p->registerRequestHandler("inc", [this](RequestIFPtr r) { int v = val(r->getInput()); log.add("inc" + std::to_string(v)); r->respond(pay(v + 1)); });
    p->registerRequestHandler("err", [](RequestIFPtr r) { r->respond(std::make_shared<CSError>("no", CSErrorCode::HandlerUnavailable)); });
    p->registerRequestHandler("hold", [this](RequestIFPtr r) {
      log.add("hold");
      r->onAborted([this] { log.add("aborted"); });
      mc::Quiet q;
      held.push_back(r);
    });
    s->start();
    if (serve) p->startServing();
    return up = true;
  }
  void end() {  // the way the factory ends it
    if (!up) return;
    up = false;
    s->stop();
    s->deinit();
  }
  void die() { up = false; s->stop(); }  // nobody is told
  ~Srv() { end(); s->stop(); }
};
struct Cl {
  std::shared_ptr<ClientIF> c = local::makeClient();
  std::shared_ptr<ServiceRequesterIF> r;
  std::shared_ptr<Ob> o = std::make_shared<Ob>();
  Str log;
  bool up = false;
  bool begin(const char *sid = S) {
    if (!c->init(A)) return false;
    up = true;
    c->start();
    r = c->getServiceRequester(sid);
    r->registerServiceStatusObserver(o);
    return true;
  }
  bool there() { return r->serviceStatus() == Av::Available; }
  CSPayloadProcessCallback to(string n) { return [this, n](const CSPayloadIFPtr &p) { log.add(n + std::to_string(val(p))); }; }
  void end() {
    if (!up) return;
    up = false;
    c->stop();
    c->deinit();
  }
  ~Cl() { end(); }
};
static void all_closed() { MC_CHECK(vs::open_fds() == 0, "%d descriptors left open", vs::open_fds()); }
static int ask(Cl &c, int v, ACS *st = nullptr) {
  ACS a = ACS::FailedUnknown;
  auto p = c.r->sendRequest("inc", pay(v), &a, RequestTimeoutMs{0});
  if (st) *st = a;
  if (a != ACS::Success) mc::note("request status %d", int(a));
  return val(p);
}

// the whole conversation
MC_SCENARIO(ipc_talk, {.pb_quick = 1, .pb_thorough = 2, .blocked_ok = true, .delays = true}) {
  Srv s;
  Cl c;
  bool client_first = mc::choose(2, "client first");
  if (client_first) { MC_CHECK(c.begin(), "client"); MC_CHECK(!c.there(), "the service is there before it is"); }
  MC_CHECK(s.begin(), "server");
  if (!client_first) MC_CHECK(c.begin(), "client");
  MC_CHECK(within(1200, [&] { return c.there(); }), "the client does not notice the service");
  MC_CHECK(c.o->got() == "+", "observer told %s", c.o->log.c_str());
  ACS st;
  c.r->registerStatus("prop", c.to("p"), &st);
  MC_CHECK(st == ACS::Success, "register");
  c.r->registerSignal("sig", c.to("s"), &st);
  MC_CHECK(st == ACS::Success, "register");
  c.r->sendRequestAsync("inc", pay(1), c.to("r"), &st);
  MC_CHECK(st == ACS::Success, "request");
  c.r->sendRequestAsync("err", pay(1), c.to("e"), &st);
  MC_CHECK(st == ACS::Success, "request");
  MC_CHECK(ask(c, 10) == 11, "wrong answer");
  // both registrations came before the request
  s.p->setStatus("prop", pay(5));
  s.p->broadcastSignal("sig", pay(6));
  s.p->setStatus("prop", pay(5));
  s.p->setStatus("prop", pay(7));
  s.p->broadcastSignal("sig", pay(6));
  mc::quiesce();
  MC_CHECK(c.log.got() == "r2 e-2 p5 s6 p7 s6 ", "the client received %s", c.log.s.c_str());
  MC_CHECK(val(c.r->getStatus("prop", &st, RequestTimeoutMs{3000})) == 7 && st == ACS::Success, "status");
  MC_CHECK(s.log.got() == "inc1 inc10 ", "the service received %s", s.log.s.c_str());
  if (mc::choose(2, "who goes first")) {
    s.end();
    mc::quiesce();
    MC_CHECK(!c.there() && c.o->got() == "+-", "told %s", c.o->log.c_str());
    c.end();
  } else {
    c.end();
    s.p->setStatus("prop", pay(9));
    mc::quiesce();
    s.end();
  }
  mc::quiesce();
  all_closed();
}
// a service starts, stops and starts while a client comes
MC_SCENARIO(ipc_status, {.pb_quick = 1, .pb_thorough = 2, .blocked_ok = true, .delays = true}) {
  Srv s;
  Cl c;
  int n = mc::choose(3, "changes");
  MC_CHECK(s.begin(S, n != 0), "server");
  MC_CHECK(c.begin(), "client");
  if (mc::choose(2, "settled")) mc::quiesce();
  if (n == 0) s.p->startServing();
  if (n >= 1) s.p->stopServing();
  if (n == 2) s.p->startServing();
  bool up = n != 1;
  mc::sleep_ns(1200 * MS);
  mc::quiesce();
  MC_CHECK(c.there() == up, "the service is %s, the client sees it %s", up ? "up" : "down", c.there() ? "up" : "down");
  string l = c.o->got();
  for (size_t i = 0; i < l.size(); ++i) MC_CHECK(l[i] == (i % 2 ? '-' : '+'), "observer told %s", l.c_str());
  MC_CHECK(l.empty() ? !up : (l.back() == '+') == up, "observer told %s", l.c_str());
  if (up) MC_CHECK(ask(c, 1) == 2, "wrong answer");
  mc::outcome(std::to_string(n) + l);
  c.end();
  s.end();
  mc::quiesce();
  all_closed();
}
// the server goes and comes back
MC_SCENARIO(ipc_server_returns, {.pb_quick = 1, .pb_thorough = 2, .blocked_ok = true, .delays = true}) {
  int down[] = {0, 100, 700}, t = down[mc::choose(3, "down for")];
  bool dies = mc::choose(2, "dies");
  if (dies && t < 700) mc::prune();  // only polling tells
  Cl c;
  MC_CHECK(c.begin(), "client");
  auto s = std::make_unique<Srv>();
  MC_CHECK(s->begin(), "server");
  MC_CHECK(within(1200, [&] { return c.there(); }), "the client does not notice the service");
  ACS st;
  c.r->registerSignal("sig", c.to("s"), &st);
  c.r->sendRequestAsync("hold", pay(1), c.to("h"), &st);
  MC_CHECK(st == ACS::Success, "request");
  mc::quiesce();
  if (dies) s->die(); else s->end();
  if (t) mc::sleep_ns(t * MS);
  if (t >= 700 || (!dies && t)) {
    mc::quiesce();
    MC_CHECK(!c.there() && c.o->got() == "+-", "the client does not notice the server has gone: %s", c.o->log.c_str());
    c.r->sendRequestAsync("inc", pay(1), c.to("x"), &st);
    MC_CHECK(st != ACS::Success, "request sent to nobody");
  }
  Srv s2;
  MC_CHECK(s2.begin(), "server cannot come back");
  MC_CHECK(within(1200, [&] { return c.o->got() == "+-+"; }), "the client does not notice the server is back: %s", c.o->log.c_str());
  MC_CHECK(ask(c, 3) == 4, "wrong answer");
  s2.p->broadcastSignal("sig", pay(1));
  mc::quiesce();
  MC_CHECK(c.log.got() == "", "received %s, registered and asked before", c.log.s.c_str());
  c.r->registerSignal("sig", c.to("t"), &st);
  MC_CHECK(ask(c, 4) == 5, "wrong answer");
  s2.p->broadcastSignal("sig", pay(2));
  mc::quiesce();
  MC_CHECK(c.log.got() == "t2 ", "received %s", c.log.s.c_str());
  c.end();
  s2.end();
  mc::quiesce();
  s.reset();
  all_closed();
}
// calls of the client fail when it looks for the server and makes itself known
MC_SCENARIO(ipc_client_retries, {.pb_quick = 0, .pb_thorough = 1, .faults = 2, .faults_thorough = 2, .blocked_ok = true, .delays = true}) {
  Srv s;
  Cl c;
  int first = mc::choose(2, "client first");
  if (first) { MC_CHECK(c.begin(), "client"); mc::quiesce(); }
  MC_CHECK(s.begin(S, false), "server");
  if (!first) MC_CHECK(c.begin(), "client");
  vs::set_faults("ckw");
  mc::sleep_ns(1100 * MS);
  mc::quiesce();
  vs::set_faults("");
  mc::sleep_ns(1100 * MS);
  mc::quiesce();
  MC_CHECK(!c.there() && c.o->got() == "", "told %s of a service that is not there", c.o->log.c_str());
  s.p->startServing();
  mc::quiesce();
  MC_CHECK(c.there() && c.o->got() == "+", "the client does not notice the service: told '%s'", c.o->log.c_str());
  MC_CHECK(ask(c, 3) == 4, "wrong answer");
  s.end();
  mc::quiesce();
  MC_CHECK(!c.there() && c.o->got() == "+-", "the client does not notice that the server has gone: %s", c.o->log.c_str());
  c.end();
  mc::quiesce();
  all_closed();
}
// a server of two services, one or both there when the client comes
MC_SCENARIO(ipc_two_services, {.pb_quick = 1, .pb_thorough = 2, .blocked_ok = true, .delays = true}) {
  Srv s;
  Cl c;
  int up = 1 + mc::choose(3, "served"), late = mc::choose(2, "client late");
  if (!late) MC_CHECK(c.begin(), "client");
  MC_CHECK(s.begin(S, false), "server");
  auto p2 = s.s->getServiceProvider(S2);
  if (up & 2) p2->startServing();
  if (up & 1) s.p->startServing();
  if (late) MC_CHECK(c.begin(), "client");
  auto r2 = c.c->getServiceRequester(S2);
  auto o2 = std::make_shared<Ob>();
  r2->registerServiceStatusObserver(o2);
  auto there2 = [&] { return r2->serviceStatus() == Av::Available; };
  mc::sleep_ns(1200 * MS);
  mc::quiesce();
  MC_CHECK(c.there() == (up & 1) && c.o->got() == (up & 1 ? "+" : ""), "the first service: told %s", c.o->log.c_str());
  MC_CHECK(there2() == (up >> 1) && o2->got() == (up & 2 ? "+" : ""), "the second service: told %s", o2->log.c_str());
  if (up & 1) s.p->stopServing(); else s.p->startServing();
  mc::quiesce();
  MC_CHECK(c.there() == !(up & 1) && there2() == (up >> 1), "the wrong service changed");
  mc::sleep_ns(1200 * MS);
  mc::quiesce();
  MC_CHECK(c.there() == !(up & 1) && there2() == (up >> 1), "changed when nothing happened");
  MC_CHECK(c.o->got() == (up & 1 ? "+-" : "+") && o2->got() == (up & 2 ? "+" : ""), "told %s and %s", c.o->log.c_str(), o2->log.c_str());
  c.end();
  s.end();
  mc::quiesce();
  all_closed();
}
// a client that waits for an answer when the server goes
MC_SCENARIO(ipc_broken_request, {.pb_quick = 1, .pb_thorough = 2, .blocked_ok = true, .delays = true}) {
  Cl c;
  Srv s;
  MC_CHECK(c.begin() && s.begin(), "begin");
  MC_CHECK(within(1200, [&] { return c.there(); }), "the client does not notice the service");
  std::thread t([&] { s.end(); });
  ACS st = ACS::FailedUnknown;
  auto p = c.r->sendRequest("hold", pay(1), &st, RequestTimeoutMs{0});
  MC_CHECK(!p && st != ACS::Success, "answered though the service has gone");
  t.join();
  mc::outcome(std::to_string(int(st)) + s.log.got());
  c.end();
  mc::quiesce();
  all_closed();
}
// the client goes, and comes back
MC_SCENARIO(ipc_client_returns, {.pb_quick = 1, .pb_thorough = 2, .blocked_ok = true, .delays = true}) {
  Srv s;
  MC_CHECK(s.begin(), "server");
  int with_request = mc::choose(2, "request");
  {
    Cl c;
    MC_CHECK(c.begin(), "client");
    MC_CHECK(within(1200, [&] { return c.there(); }), "the client does not notice the service");
    ACS st;
    c.r->registerStatus("prop", c.to("p"), &st);
    if (with_request) c.r->sendRequestAsync("hold", pay(1), c.to("h"), &st);
    if (mc::choose(2, "settled")) mc::quiesce();
    c.end();
    MC_CHECK(c.log.got() == "", "received %s", c.log.s.c_str());
  }
  mc::quiesce();
  MC_CHECK(s.log.got() == (with_request ? "hold aborted " : ""), "the service sees %s", s.log.s.c_str());
  s.p->setStatus("prop", pay(1));
  Cl c;
  MC_CHECK(c.begin(), "client cannot come back");
  MC_CHECK(within(1200, [&] { return c.there(); }), "the client does not notice the service");
  ACS st;
  c.r->registerStatus("prop", c.to("p"), &st);
  MC_CHECK(ask(c, 1) == 2, "wrong answer");
  mc::quiesce();
  MC_CHECK(c.log.got() == "p1 ", "received %s", c.log.s.c_str());
  s.held.clear();
  c.end();
  s.end();
  mc::quiesce();
  all_closed();
}
// the client stops at any moment and is destroyed, while messages come in
MC_SCENARIO(ipc_stop_client, {.pb_quick = 1, .pb_thorough = 2, .blocked_ok = true, .delays = true}) {
  int stage = mc::choose(3, "stage");
  Srv s;
  MC_CHECK(s.begin(), "server");
  {
    Cl c;
    MC_CHECK(c.begin(), "client");
    if (stage) {
      MC_CHECK(within(1200, [&] { return c.there(); }), "the client does not notice the service");
      ACS st;
      c.r->registerSignal("sig", [](const CSPayloadIFPtr &) {}, &st);
      if (stage == 2) mc::quiesce();
      s.p->broadcastSignal("sig", pay(1));
      s.p->stopServing();
    }
    c.r.reset();
    c.end();
    if (mc::choose(2, "kept")) {  // stopped is stopped, destroyed or not
      mc::sleep_ns(100 * MS);
      mc::quiesce();
      int n = vs::connects();
      mc::sleep_ns(2000 * MS);
      mc::quiesce();
      MC_CHECK(vs::connects() == n, "a stopped client contacted the server %d times", vs::connects() - n);
    }
  }
  mc::sleep_ns(2000 * MS);  // whatever it has left behind gets its turn
  mc::quiesce();
  MC_CHECK(vs::open_fds() == 1, "%d descriptors left open", vs::open_fds() - 1);
  s.end();
  mc::quiesce();
  all_closed();
}
// likewise the server
MC_SCENARIO(ipc_stop_server, {.pb_quick = 1, .pb_thorough = 2, .blocked_ok = true, .delays = true}) {
  int stage = mc::choose(3, "stage");
  Cl c;
  MC_CHECK(c.begin(), "client");
  {
    Srv s;
    MC_CHECK(s.begin(), "server");
    if (stage) {
      MC_CHECK(within(1200, [&] { return c.there(); }), "the client does not notice the service");
      ACS st;
      c.r->sendRequestAsync("err", pay(1), [](const CSPayloadIFPtr &) {}, &st);
      c.r->registerSignal("sig", [](const CSPayloadIFPtr &) {}, &st);
    }
    if (stage == 2) std::thread([&] { s.p->setStatus("x", pay(1)); }).join();
    s.end();
    s.p.reset();
  }
  mc::sleep_ns(2000 * MS);
  mc::quiesce();
  MC_CHECK(!c.there(), "the client does not notice that the server has gone");
  c.end();
  mc::quiesce();
  all_closed();
}
// several services of one server, through the management functions
MC_SCENARIO(ipc_mgmt, {.pb_quick = 1, .pb_thorough = 2, .blocked_ok = true, .delays = true}) {
  auto type = local::connection_type;
  auto p = csmgmt::getServiceProvider(type, A, S), p2 = csmgmt::getServiceProvider(type, A, S2);
  auto r = csmgmt::getServiceRequester(type, A, S), r2 = csmgmt::getServiceRequester(type, A, S2);
  MC_CHECK(p && p2 && r && r2, "not created");
  MC_CHECK(p == csmgmt::getServiceProvider(type, A, S) && r == csmgmt::getServiceRequester(type, A, S), "created twice");
  auto o = std::make_shared<Ob>(), o2 = std::make_shared<Ob>();
  r->registerServiceStatusObserver(o);
  r2->registerServiceStatusObserver(o2);
  p->startServing();
  MC_CHECK(within(1200, [&] { return o->got() == "+"; }), "told %s", o->log.c_str());
  MC_CHECK(o2->got() == "", "the other service is told to be there");
  p2->startServing();
  mc::quiesce();
  MC_CHECK(o2->got() == "+", "told %s", o2->log.c_str());
  int how = mc::choose(3, "how");
  if (how == 0) csmgmt::shutdownAll();
  if (how == 1) { csmgmt::shutdownAllClients(); csmgmt::shutdownAllServers(); }
  if (how == 2) { std::thread t([] { csmgmt::shutdownAllServers(); }); csmgmt::shutdownAllClients(); t.join(); }
  mc::quiesce();
  MC_CHECK(o->got() == "+" || o->got() == "+-", "told %s", o->log.c_str());
  all_closed();
}

// those who are told that things end or begin may turn to the management again
MC_SCENARIO(ipc_mgmt_back, {.pb_quick = 1, .pb_thorough = 2, .blocked_ok = true, .delays = true}) {
  auto type = local::connection_type;
  auto p = csmgmt::getServiceProvider(type, A, S);
  auto r = csmgmt::getServiceRequester(type, A, S);
  MC_CHECK(p && r, "not created");
  struct Back : Ob {
    void onServiceStatusChanged(const ServiceID &s, Availability o, Availability n) override {
      Ob::onServiceStatusChanged(s, o, n);
      csmgmt::getServiceRequester(local::connection_type, A, S2);
    }
  };
  int who = mc::choose(3, "who");  // a status observer, a request's handler, or the one aborted
  auto o = std::make_shared<Ob>();
  if (who == 0) o = std::make_shared<Back>();
  Str log;
  RequestIFPtr held;
  p->registerRequestHandler("req", [&](RequestIFPtr q) {
    log.add("in");
    if (who == 1) csmgmt::getServiceProvider(type, A, S2);
    q->onAborted([&] { if (who == 2) csmgmt::getServiceProvider(type, A, S2); log.add("aborted"); });
    mc::Quiet z;
    held = q;
  });
  r->registerServiceStatusObserver(o);
  p->startServing();
  if (who != 0) {
    MC_CHECK(within(1200, [&] { return o->got() == "+"; }), "told %s", o->got().c_str());
    ACS st;
    r->sendRequestAsync("req", pay(1), [](const CSPayloadIFPtr &) {}, &st);
    if (who == 2) MC_CHECK(within(100, [&] { return log.got() == "in "; }), "never came");
  } else
    mc::sleep_ns(600 * MS);
  if (mc::choose(2, "servers first")) { csmgmt::shutdownAllServers(); csmgmt::shutdownAllClients(); }
  else { csmgmt::shutdownAllClients(); csmgmt::shutdownAllServers(); }
  mc::quiesce();
  if (who == 2) MC_CHECK(log.got() == "in aborted ", "log %s", log.got().c_str());
  { mc::Quiet z; held.reset(); }
  csmgmt::shutdownAll();  // what was made meanwhile
  all_closed();
}

// a client registers while the service starts or stops: what it hears last is so
struct Peer : BytesComeObserver {
  Address a;
  local::LocalIPCBufferReceiver r;
  string heard;
  std::thread t;
  explicit Peer(const char *name) : a(name, 1) {
    r.setObserver(this);
    MC_CHECK(r.init(a), "init");
    t = std::thread([this] { r.start(); });
  }
  void onBytesCome(maf::srz::Buffer &&b) override {
    mc::Quiet q;
    local::LocalIPCMessage m;
    MC_CHECK(m.fromBytes(std::move(b)), "undecodable message sent");
    heard += m.operationCode() != OpCode::ServiceStatusUpdate ? '?' : m.operationID() == OpID_ServiceAvailable ? '+' : '-';
  }
  CSMessagePtr msg(OpCode c, const char *sid = "", const char *op = "") {
    auto m = createCSMessage<local::LocalIPCMessage>(sid, op, c);
    m->setSourceAddress(a);
    return m;
  }
  void end() { r.stop(); t.join(); }
};
MC_SCENARIO(ipc_register_vs_change, {.pb_quick = 2, .pb_thorough = 3, .blocked_ok = true, .delays = true}) {
  Srv s;
  int n = mc::choose(3, "changes");
  MC_CHECK(s.begin(S, n != 0), "server");
  Peer c("cl");
  std::thread t([&] { static_cast<CSMessageReceiverIF *>(s.s.get())->onIncomingMessage(c.msg(OpCode::RegisterServiceStatus)); });
  std::thread u([&] {
    if (n == 0) s.p->startServing();
    if (n >= 1) s.p->stopServing();
    if (n == 2) s.p->startServing();
  });
  t.join();
  u.join();
  mc::quiesce();
  char last = c.heard.empty() ? '-' : c.heard.back();
  MC_CHECK(last == (n == 1 ? '-' : '+'), "the service is %s, the client was told %s", n == 1 ? "down" : "up", c.heard.c_str());
  mc::outcome(std::to_string(n) + c.heard);
  c.end();
  s.end();
}
// clients come and go, the server tells those that are there
MC_SCENARIO(ipc_clients, {.pb_quick = 1, .pb_thorough = 2, .blocked_ok = true, .delays = true}) {
  Srv s;
  MC_CHECK(s.begin(S, false), "server");
  bool last = mc::choose(2, "order");
  Peer a(last ? "cl3" : "cl"), b("cl2");
  auto in = [&](const CSMessagePtr &m) { static_cast<CSMessageReceiverIF *>(s.s.get())->onIncomingMessage(m); };
  in(a.msg(OpCode::RegisterServiceStatus));
  in(b.msg(OpCode::RegisterServiceStatus));
  int how = mc::choose(4, "how");
  std::thread t([&] {
    if (how == 0) a.end();
    if (how == 1) in(a.msg(OpCode::UnregisterServiceStatus));
    if (how == 2) in(b.msg(OpCode::RegisterServiceStatus));
    if (how == 3) { a.end(); in(a.msg(OpCode::UnregisterServiceStatus)); }
  });
  s.p->startServing();
  s.p->stopServing();
  s.p->startServing();
  t.join();
  mc::quiesce();
  auto told = b.heard;
  MC_CHECK(how == 2 ? told.back() == '+' : told == "+-+", "told %s", told.c_str());
  if (how == 2) MC_CHECK(a.heard == "+-+", "told %s", a.heard.c_str());
  else MC_CHECK(string("+-+").rfind(a.heard, 0) == 0, "told %s", a.heard.c_str());
  s.p->stopServing();
  mc::quiesce();
  MC_CHECK(b.heard == told + "-", "told %s", b.heard.c_str());
  if (how == 1) MC_CHECK(a.heard.size() < 4, "told after it unregistered");
  mc::outcome(std::to_string(how) + a.heard);
  if (how == 1 || how == 2) a.end();
  b.end();
  s.end();
}

// what a client asked for ends with it; the service may use its server then
MC_SCENARIO(ipc_client_off, {.pb_quick = 1, .pb_thorough = 2, .blocked_ok = true, .delays = true}) {
  Srv s;
  MC_CHECK(s.begin(), "server");
  Peer a("cl"), b("cl2");
  auto in = [&](const CSMessagePtr &m) { static_cast<CSMessageReceiverIF *>(s.s.get())->onIncomingMessage(m); };
  s.p->registerRequestHandler("mine", [&](RequestIFPtr r) {
    auto *q = r.get();
    r->onAborted([&, q] { s.log.add("off"); s.s->hasServiceProvider(S2); s.s->getServiceProvider(S)->setStatus("left", pay(1)); });
    mc::Quiet z;
    s.held.push_back(r);
  });
  bool all = mc::choose(2, "all services");
  for (auto x : {&a, &b}) {
    in(x->msg(OpCode::RegisterServiceStatus));
    in(x->msg(OpCode::SignalRegister, S, "sig"));
    in(x->msg(OpCode::Request, S, "mine"));
  }
  std::thread t([&] { s.p->broadcastSignal("sig", {}); });
  in(a.msg(OpCode::UnregisterServiceStatus, all ? "" : S));
  t.join();
  mc::quiesce();
  MC_CHECK(s.log.got() == "off ", "requests ended: %s", s.log.s.c_str());
  s.p->broadcastSignal("sig", {});
  mc::quiesce();
  MC_CHECK(a.heard == "+" || a.heard == "+?", "told %s after it went", a.heard.c_str());
  MC_CHECK(b.heard == "+??", "the other is told %s", b.heard.c_str());
  s.held.clear();
  a.end();
  b.end();
  s.end();
}
