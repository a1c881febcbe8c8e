// P18, schedules: requests, answers, aborts, notifications of one provider.
#include "cs.h"
#include <thread>
using namespace cs;

struct P {
  std::shared_ptr<TestServer> s = std::make_shared<TestServer>();
  ServiceProviderIFPtr p = s->getServiceProvider(S);
  std::vector<std::shared_ptr<RequestIF>> rs;
  void take(const char *op = "a") { p->registerRequestHandler(op, [this](const std::shared_ptr<RequestIF> &r) { mc::Quiet q; rs.push_back(r); }); }
  void ask(const char *c, int id, int v = 0) { s->from(c, OpCode::Request, "a", id, pay(v)); }
  // final answers to a client for a request
  int answers(const char *c, int id) { mc::Quiet q; int n = 0; for (auto &o : s->out) n += o.code == OpCode::Request && o.addr == c && (int)o.id == id; return n; }
  std::vector<int> told(const char *c, const char *op) { mc::Quiet q; std::vector<int> r; for (auto &o : s->out) if (o.addr == c && o.op == op && o.code != OpCode::Request) r.push_back(o.v); return r; }
  ~P() { s->hook = nullptr; p->deinit(); rs.clear(); }
};

// an answer competes with another answer, abort, the client leaving, deinit
MC_SCENARIO(prov_answer_vs, {.pb_quick = 3, .pb_thorough = 5}) {
  P w; w.take();
  Log ab; Obs<int> okA, okB;
  w.ask("c1", 0, 7);
  w.ask("c2", 0, 8);
  auto r = w.rs[0], other = w.rs[1];
  r->onAborted([&] { ab.add(1); });
  other->onAborted([&] { ab.add(2); });
  int how = mc::choose(4, "answer/abort/leave/deinit");
  std::thread t([&] { okA = r->respond(pay(1)) == ActionCallStatus::Success; });
  if (how == 0) okB = r->respond(pay(2)) == ActionCallStatus::Success;
  if (how == 1) w.s->from("c1", OpCode::Abort, "a", 0);
  if (how == 2) w.s->from("c1", OpCode::UnregisterServiceStatus, "");
  if (how == 3) w.p->deinit();
  t.join();
  int n = w.answers("c1", 0);
  MC_CHECK(n == okA + okB && n <= 1, "%d answers sent, reported %d %d", n, int(okA), int(okB));
  MC_CHECK(!r->valid(), "still valid");
  if (how == 0) MC_CHECK(n == 1 && ab.count(1) == 0, "%d answers, %d abort callbacks", n, ab.count(1));
  else MC_CHECK(n + ab.count(1) == 1, "%d answers, %d abort callbacks", n, ab.count(1));
  MC_CHECK(ab.count(2) == (how == 3), "the other request's abort callback was called %d times", ab.count(2));
  MC_CHECK(other->valid() == (how != 3), "the other request is %svalid", other->valid() ? "" : "in");
  MC_CHECK((other->respond(pay(3)) == ActionCallStatus::Success) == (how != 3), "other request");
  MC_CHECK(w.answers("c2", 0) == (how != 3), "answer to the other client");
  mc::outcome(std::to_string(how) + std::to_string(n));
}
// requests arrive in two threads while a third thread answers / the handler answers itself
MC_SCENARIO(prov_two_receivers, {.pb_quick = 2, .pb_thorough = 4}) {
  P w;
  bool inside = mc::choose(2, "answered in handler");
  w.p->registerRequestHandler("a", [&](const std::shared_ptr<RequestIF> &r) {
    if (inside) { r->update(pay(val(r->getInput()) + 50)); r->respond(pay(val(r->getInput()) + 100)); }
    else { mc::Quiet q; w.rs.push_back(r); }
  });
  std::thread t([&] { w.ask("c1", 0, 1); w.ask("c1", 1, 2); });
  w.ask("c2", 0, 3);
  t.join();
  if (!inside) {
    MC_CHECK(w.rs.size() == 3, "handler called %zu times", w.rs.size());
    std::thread u([&] { w.rs[0]->respond(pay(val(w.rs[0]->getInput()) + 100)); });
    w.rs[1]->respond(pay(val(w.rs[1]->getInput()) + 100));
    w.rs[2]->respond(pay(val(w.rs[2]->getInput()) + 100));
    u.join();
  }
  mc::Quiet q;
  string s1, s2;
  for (auto &o : w.s->out) if (o.code == OpCode::Request) {
    int want = o.addr == "c2" ? 103 : o.id == 0 ? 101 : 102;
    MC_CHECK(o.v == want, "%s request %d answered %d", o.addr.c_str(), (int)o.id, o.v);
  }
  MC_CHECK(w.answers("c1", 0) == 1 && w.answers("c1", 1) == 1 && w.answers("c2", 0) == 1, "answers: %s", show(w.s->out).c_str());
}
// an abort callback uses the provider while another thread does
MC_SCENARIO(prov_abort_calls_back, {.pb_quick = 3, .pb_thorough = 4}) {
  P w; w.take();
  Log ab;
  for (int i = 0; i < 2; ++i) w.ask("c1", i);
  auto r0 = w.rs[0], r1 = w.rs[1];
  r0->onAborted([&] { ab.add(1); r1->respond(pay(9)); w.p->setStatus("p", pay(2)); w.p->registerRequestHandler("b", [](auto &) {}); });
  std::thread t([&] { r1->respond(pay(1)); w.p->broadcastSignal("s", pay(1)); w.s->from("c1", OpCode::StatusRegister, "p", 5); });
  if (mc::choose(2)) w.s->from("c1", OpCode::Abort, "a", 0); else w.p->deinit();
  t.join();
  MC_CHECK(ab.count(1) == 1, "%d abort callbacks", ab.count(1));
  MC_CHECK(w.answers("c1", 1) <= 1 && w.answers("c1", 0) == 0, "%s", show(w.s->out).c_str());
}
// subscribing, unsubscribing and leaving while signals are broadcast
MC_SCENARIO(prov_broadcast_vs, {.pb_quick = 3, .pb_thorough = 5}) {
  P w;
  int how = mc::choose(3, "subscribe/unsubscribe/leave");
  if (how) w.s->from("c1", OpCode::SignalRegister, "s", 1);
  w.s->from("c2", OpCode::SignalRegister, "s", 1);
  Obs<int> done{0}, at{0};
  std::thread t([&] {
    for (int i = 1; i <= 3; ++i) { if (!done) at = i; w.p->broadcastSignal("s", pay(i)); }
  });
  if (how == 0) w.s->from("c1", OpCode::SignalRegister, "s", 1);
  if (how == 1) w.s->from("c1", OpCode::Unregister, "s");
  if (how == 2) w.s->from("c1", OpCode::UnregisterServiceStatus, "");
  done = 1;
  t.join();
  auto v2 = w.told("c2", "s"), v1 = w.told("c1", "s");
  MC_CHECK((v2 == std::vector<int>{1, 2, 3}), "c2 was told %zu", v2.size());
  std::vector<int> want;
  if (how == 0) {  // a suffix that misses nothing broadcast afterwards
    MC_CHECK(v1.size() <= 3 && v1.size() >= size_t(3 - at), "subscriber told %zu, broadcasts %d.. were later", v1.size(), at + 1);
    for (int i = 3 - (int)v1.size(); i < 3; ++i) want.push_back(i + 1);
  } else {         // a prefix, and nothing broadcast afterwards
    MC_CHECK(v1.size() <= size_t(at), "told %zu after it left at %d", v1.size(), int(at));
    for (size_t i = 0; i < v1.size(); ++i) want.push_back(i + 1);
  }
  MC_CHECK(v1 == want, "c1 was told something else");
  w.s->out.clear();
  w.p->broadcastSignal("s", pay(4));
  MC_CHECK((w.told("c1", "s").size() == 1) == (how == 0), "later broadcast");
  mc::outcome(std::to_string(how) + std::to_string(v1.size()));
}
// two clients subscribe, leave and set at the same time: nobody else is touched
MC_SCENARIO(prov_two_clients, {.pb_quick = 3, .pb_thorough = 4}) {
  P w; w.take();
  int how = mc::choose(3, "how");
  w.s->from("c2", OpCode::SignalRegister, "s", 1);
  w.ask("c2", 0, 5);
  std::thread t([&] {
    if (how == 0) w.s->from("c2", OpCode::UnregisterServiceStatus, "");
    if (how == 1) { w.s->from("c2", OpCode::SignalRegister, "t", 1); w.s->from("c2", OpCode::Unregister, "s"); }
    if (how == 2) w.rs[0]->respond(pay(1));
  });
  w.s->from("c1", OpCode::SignalRegister, "s", 1);
  w.ask("c1", 0, 6);
  t.join();
  w.p->broadcastSignal("s", pay(1));
  w.p->broadcastSignal("t", pay(1));
  MC_CHECK(w.told("c1", "s").size() == 1 && w.told("c2", "s").size() == (how == 2) && w.told("c2", "t").size() == (how == 1), "how %d: %s", how, show(w.s->out).c_str());
  MC_CHECK(w.rs.size() == 2 && w.rs[1]->respond(pay(7)) == ActionCallStatus::Success && w.answers("c1", 0) == 1, "request of the other client");
}
// the value last set is the value read and kept
MC_SCENARIO(prov_set_set, {.pb_quick = 3, .pb_thorough = 5}) {
  P w;
  std::vector<int> heard;
  w.p->registerNotification("p", [&](const CSPayloadIFPtr &x) { mc::Quiet q; heard.push_back(val(x)); });
  w.s->from("c1", OpCode::StatusRegister, "p", 1);
  bool same = mc::choose(2, "same value");
  Obs<int> a, b;
  std::thread t([&] { a = w.p->setStatus("p", pay(1)) != ActionCallStatus::NoAction; });
  b = w.p->setStatus("p", pay(same ? 1 : 2)) != ActionCallStatus::NoAction;
  int g = val(w.p->getStatus("p"));
  MC_CHECK(g == 1 || g == 2, "reads %d", g);
  t.join();
  auto v = w.told("c1", "p");
  MC_CHECK((int)v.size() == a + b && heard.size() == v.size() && a + b == (same ? 1 : 2), "%zu updates sent, %zu heard, %d changes", v.size(), heard.size(), a + b);
}
// one thread sets; a client subscribes meanwhile: it ends up with the last value
MC_SCENARIO(prov_subscribe_vs_set, {.pb_quick = 3, .pb_thorough = 5}) {
  P w;
  if (mc::choose(2, "has value")) w.p->setStatus("p", pay(1));
  std::thread t([&] { w.p->setStatus("p", pay(2)); });
  w.s->from("c1", OpCode::StatusRegister, "p", 1);
  t.join();
  auto v = w.told("c1", "p");
  MC_CHECK(!v.empty(), "the new subscriber was told nothing");
  MC_CHECK(std::count(v.begin(), v.end(), 2), "the new subscriber never got the value");
  MC_CHECK(v.back() == 2, "subscriber ends with a stale value %d", v.back());
}
MC_SCENARIO(prov_set_in_two_threads, {.pb_quick = 2, .pb_thorough = 4}) {
  P w;
  w.s->from("c1", OpCode::StatusRegister, "p", 1);
  std::thread t([&] { w.p->setStatus("p", pay(1)); });
  w.p->setStatus("p", pay(2));
  t.join();
  auto v = w.told("c1", "p");
  MC_CHECK(v.size() == 2, "%zu updates", v.size());
  MC_CHECK(v.back() == val(w.p->getStatus("p")), "subscriber ends with a stale value %d", v.back());
}
// server side listeners use the provider and disconnect themselves
MC_SCENARIO(prov_listener_calls_back, {.pb_quick = 3, .pb_thorough = 4}) {
  P w;
  Log log;
  maf::signal_slots::Connection c;
  c = w.p->registerNotification("p", [&](const CSPayloadIFPtr &x) {
    log.add(val(x));
    w.p->getStatus("p");
    w.p->broadcastSignal("s", pay(1));
    w.p->registerNotification("q", [](const CSPayloadIFPtr &) {});
  });
  std::thread t([&] { w.p->setStatus("p", pay(1)); });
  auto d = w.p->registerNotification("p", [&](const CSPayloadIFPtr &x) { log.add(10 + val(x)); });
  w.p->setStatus("p", pay(2));
  t.join();
  MC_CHECK(log.count(1) == 1 && log.count(2) == 1, "first listener heard [%s]", log.str().c_str());
  MC_CHECK(log.count(12) == 1 && log.count(11) <= 1, "second listener heard [%s]", log.str().c_str());
}
// a handler is removed while requests arrive: each is handled or refused
MC_SCENARIO(prov_handler_removed, {.pb_quick = 3, .pb_thorough = 5}) {
  P w; w.take();
  std::thread t([&] { w.ask("c1", 0, 1); w.ask("c1", 1, 1); });
  bool again = mc::choose(2, "registered again");
  MC_CHECK(w.p->unregisterRequestHandler("a"), "unregister");
  if (again) w.take();
  t.join();
  mc::Quiet q;
  for (int i = 0; i < 2; ++i) {
    int handled = 0;
    for (auto &r : w.rs) handled += (int)r->getRequestID() == i;
    MC_CHECK(handled + w.answers("c1", i) == 1, "request %d: handled %d, refused %d", i, handled, w.answers("c1", i));
  }
  mc::outcome(std::to_string(w.rs.size()));
}
// the last owner of the server and the provider goes while requests are answered
MC_SCENARIO(prov_server_gone, {.pb_quick = 3, .pb_thorough = 5}) {
  auto s = std::make_shared<TestServer>();
  auto p = s->getServiceProvider(S);
  std::shared_ptr<RequestIF> r;
  Log ab;
  p->registerRequestHandler("a", [&](const std::shared_ptr<RequestIF> &x) { r = x; });
  s->from("c1", OpCode::Request, "a", 1, pay(1));
  MC_CHECK(r && r->valid(), "not handled");
  r->onAborted([&] { ab.add(1); });
  std::thread t([&, r] { r->respond(pay(1)); r->valid(); });
  p.reset();
  s.reset();
  t.join();
  MC_CHECK(!r->valid(), "still valid");
  MC_CHECK(r->respond(pay(2)) != ActionCallStatus::Success, "answered without server");
}
