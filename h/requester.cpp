// P15/P16/P17, schedules: callers, the receiving thread and service status.
#include "cs.h"
#include <deque>
#include <thread>
using namespace cs;
using ms = RequestTimeoutMs;

struct W {
  std::shared_ptr<TestClient> c = std::make_shared<TestClient>();
  ServiceRequesterIFPtr r = c->getServiceRequester(S);
  W() { c->available(); }
  ~W() { c->hook = nullptr; c->deinit(); }
};
// messages to the service, answered by another thread
struct Wire {
  std::mutex m;
  std::condition_variable cv;
  std::deque<CSMessagePtr> q;
  bool closed = false;
  ActionCallStatus put(const CSMessagePtr &x) {
    std::lock_guard l(m);
    if (closed) return ActionCallStatus::ReceiverUnavailable;
    q.push_back(x); cv.notify_all();
    return ActionCallStatus::Success;
  }
  CSMessagePtr take() {
    std::unique_lock l(m);
    cv.wait(l, [&] { return closed || !q.empty(); });
    if (q.empty()) return nullptr;
    auto x = q.front(); q.pop_front();
    return x;
  }
  CSMessagePtr tryTake() { std::lock_guard l(m); if (q.empty()) return nullptr; auto x = q.front(); q.pop_front(); return x; }
  void close() { std::lock_guard l(m); closed = true; cv.notify_all(); }
};
static void answer(TestClient &c, const CSMessagePtr &m) { c.reply(OpCode::Request, m->operationID(), m->requestID(), pay(val(m->payload()) + 100)); }

// two callers, asynchronous and synchronous, one service thread
MC_SCENARIO(req_two_callers, {.pb_quick = 2, .pb_thorough = 4}) {
  W w; Wire wire; Log log;
  w.c->hook = [&](const CSMessagePtr &m) { return wire.put(m); };
  int last = mc::choose(2, "answers in reverse");
  std::thread srv([&] {
    if (last) { auto a = wire.take(), b = wire.take(); answer(*w.c, b); answer(*w.c, a); }
    else while (auto m = wire.take()) answer(*w.c, m);
  });
  std::thread t([&] {
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    int g = val(w.r->sendRequest("a", pay(1), &st, ms(0)));
    MC_CHECK(g == 101 && st == ActionCallStatus::Success, "sync request got %d, status %d", g, int(st));
  });
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  auto id = w.r->sendRequestAsync("a", pay(2), [&](const CSPayloadIFPtr &p) { log.add(val(p)); }, &st);
  MC_CHECK(id.valid() && st == ActionCallStatus::Success, "async request refused");
  t.join();
  mc::quiesce();
  wire.close();
  srv.join();
  MC_CHECK(log.size() == 1 && log.count(102) == 1, "async request got [%s]", log.str().c_str());
}
// a caller waits without timeout; the service goes away or answers
MC_SCENARIO(req_sync_vs_loss, {.pb_quick = 3, .pb_thorough = 5}) {
  W w; Wire wire;
  // once gone, the service takes what it is sent but never answers
  bool silent = mc::choose(2, "gone: still answers/silent");
  Obs<int> gone;
  w.c->hook = [&](const CSMessagePtr &m) { return gone ? ActionCallStatus::Success : wire.put(m); };
  int how = mc::choose(3, "service/server/client");
  bool timed = mc::choose(2, "timeout");
  Obs<int> answered;
  std::thread t([&] {
    ActionCallStatus st = ActionCallStatus::Success;
    int g = val(w.r->sendRequest("a", pay(1), &st, ms(timed ? 50 : 0)));
    if (g == 101) MC_CHECK(st == ActionCallStatus::Success && answered, "answer with status %d", int(st));
    else MC_CHECK(g == -1 && st != ActionCallStatus::Success, "got %d with status %d", g, int(st));
    mc::outcome(std::to_string(g) + "/" + std::to_string(int(st)));
  });
  std::thread srv([&] { if (auto m = wire.take()) { answered = 1; answer(*w.c, m); } });
  gone = silent;
  if (how == 0) w.c->unavailable();
  if (how == 1) w.c->onServerStatusChanged(Availability::Available, Availability::Unavailable);
  if (how == 2) w.r->deinit();
  t.join();
  wire.close();
  srv.join();
}
// asynchronous request, loss, answer
MC_SCENARIO(req_async_vs_loss, {.pb_quick = 3, .pb_thorough = 5}) {
  W w; Wire wire; Log log;
  Obs<int> gone;
  w.c->hook = [&](const CSMessagePtr &m) { return gone ? ActionCallStatus::Success : wire.put(m); };
  auto tok = std::make_shared<int>(0);
  std::weak_ptr<int> left = tok;
  int then = mc::choose(3, "comes back/stays away/stays away, silent");
  std::thread srv([&] { if (auto m = wire.take()) answer(*w.c, m); });
  std::thread l([&] { gone = then == 2; w.c->unavailable(); if (then == 0) w.c->available(); });
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  auto id = w.r->sendRequestAsync("a", pay(1), [&log, tok](const CSPayloadIFPtr &p) { log.add(val(p)); }, &st);
  tok.reset();
  l.join();
  MC_CHECK(id.valid() == (st == ActionCallStatus::Success), "status %d, id valid %d", int(st), id.valid());
  wire.close();
  srv.join();
  MC_CHECK(log.size() <= 1 && (log.size() == 0 || log.v[0] == 101), "callback got [%s]", log.str().c_str());
  if (!id.valid()) MC_CHECK(log.size() == 0, "refused request answered");
  MC_CHECK(left.expired(), "the request was not ended");
  mc::outcome(log.str() + std::to_string(int(st)));
}
// what is sent after the service came back is answered
MC_SCENARIO(req_after_flap, {.pb_quick = 3, .pb_thorough = 5}) {
  W w; Wire wire; Log log;
  w.c->hook = [&](const CSMessagePtr &m) { return wire.put(m); };
  w.c->unavailable();
  std::thread srv([&] { while (auto m = wire.take()) answer(*w.c, m); });
  std::thread l([&] { w.c->available(); });
  ActionCallStatus st;
  RegID id;
  for (int k = 0; k < 2 && !id.valid(); ++k) {
    id = w.r->sendRequestAsync("a", pay(1), [&](const CSPayloadIFPtr &p) { log.add(val(p)); }, &st);
    if (!id.valid()) { l.join(); l = std::thread([] {}); }
  }
  MC_CHECK(id.valid(), "refused although available");
  l.join();
  mc::quiesce();
  wire.close();
  srv.join();
  MC_CHECK(log.size() == 1 && log.v[0] == 101, "callback got [%s]", log.str().c_str());
}
// abort against answer: one of them
MC_SCENARIO(req_abort_vs_answer, {.pb_quick = 3, .pb_thorough = 6}) {
  W w; Log log;
  Obs<int> aborted;
  w.c->hook = [&](const CSMessagePtr &m) { if (m->operationCode() == OpCode::Abort) aborted = 1; return ActionCallStatus::Success; };
  auto id = w.r->sendRequestAsync("a", pay(1), [&](const CSPayloadIFPtr &p) { log.add(val(p)); }, nullptr);
  auto id2 = w.r->sendRequestAsync("a", pay(2), [&](const CSPayloadIFPtr &p) { log.add(val(p)); }, nullptr);
  int n = mc::choose(2, "who is aborted");
  std::thread srv([&] {
    for (int k = 0; k < 2; ++k) w.c->reply(OpCode::Request, "a", w.c->out[k].id, pay(101 + k));
  });
  std::thread t2([&] { w.r->abortRequest(n ? id2 : id, nullptr); });
  w.r->abortRequest(n ? id2 : id, nullptr);
  srv.join();
  t2.join();
  int aborts = 0;
  for (auto &s : w.c->out) aborts += s.code == OpCode::Abort;
  MC_CHECK(log.count(101 + n) + aborts == 1 && log.count(102 - n) == 1, "%d aborts, callbacks [%s]", aborts, log.str().c_str());
  mc::outcome(log.str());
}
// expiry against answer
MC_SCENARIO(req_timeout_vs_answer, {.pb_quick = 2, .pb_thorough = 4}) {
  W w; Wire wire;
  w.c->hook = [&](const CSMessagePtr &m) { return m->operationCode() == OpCode::Request ? wire.put(m) : ActionCallStatus::Success; };
  std::thread srv([&] { while (auto m = wire.take()) { mc::sleep_ns(5000000); answer(*w.c, m); } });
  for (int k = 1; k <= 2; ++k) {
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    int g = val(w.r->sendRequest("a", pay(k), &st, ms(k == 1 ? 5 : 500)));
    if (g == -1) MC_CHECK(st == ActionCallStatus::Timeout, "no answer, status %d", int(st));
    else MC_CHECK(g == 100 + k && st == ActionCallStatus::Success, "request %d got %d, status %d", k, g, int(st));
    mc::outcome(std::to_string(k) + ":" + std::to_string(g));
  }
  wire.close();
  srv.join();
}
// callbacks own things that come back to the requester when they go
MC_SCENARIO(req_callback_released, {.pb_quick = 2, .pb_thorough = 4}) {
  W w; Log log;
  struct Owner { ServiceRequesterIFPtr r; RegID *reg; ~Owner() { r->abortRequest(*reg, nullptr); r->unregister(*reg); ActionCallStatus s; r->sendRequestAsync("x", nullptr, {}, &s); } };
  RegID none; none.opID = "a"; none.requestID = 999;
  auto own = std::make_shared<Owner>(Owner{w.r, &none});
  ActionCallStatus st;
  auto id = w.r->sendRequestAsync("a", pay(1), [own](const CSPayloadIFPtr &) {}, &st);
  auto reg = w.r->registerStatus("p", [own](const CSPayloadIFPtr &) {}, &st);
  own.reset();
  int how = mc::choose(5, "how it ends");
  std::thread t([&] {
    if (how == 0) { w.r->unregister(reg); w.r->abortRequest(id, nullptr); }
    if (how == 1) w.c->unavailable();
    if (how == 2) { w.r->unregisterAll("p"); w.c->reply(OpCode::Request, "a", w.c->out[0].id, pay(1)); }
    if (how == 3) w.c->onServerStatusChanged(Availability::Available, Availability::Unavailable);
    if (how == 4) { w.r->deinit(); w.r->unregister(reg); }
  });
  t.join();
}

// ---- registrations ---------------------------------------------------------
struct Told {
  int on = 0;
  // what the service believes after each message, by operation "p"
  void operator()(const CSMessagePtr &m) {
    if (m->operationID() != "p" && m->operationID() != "s") return;
    mc::Quiet q;
    if (m->operationCode() == OpCode::StatusRegister || m->operationCode() == OpCode::SignalRegister) {
      if (on) mc::violation("service told twice to start");
      on = 1;
    }
    if (m->operationCode() == OpCode::Unregister) {
      if (!on) mc::violation("service told to stop what is not started");
      on = 0;
    }
  }
};
MC_SCENARIO(reg_come_and_go, {.pb_quick = 2, .pb_thorough = 4}) {
  W w; Told told;
  bool sig = mc::choose(2, "signal");
  // the message reaches the service after the caller has been held up
  w.c->hook = [&](const CSMessagePtr &m) { mc::point(); told(m); return ActionCallStatus::Success; };
  auto reg = [&] {
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    auto id = sig ? w.r->registerSignal("s", [](auto &) {}, &st) : w.r->registerStatus("p", [](auto &) {}, &st);
    MC_CHECK(id.valid() && st == ActionCallStatus::Success, "refused %d", int(st));
    return id;
  };
  int stay = mc::choose(2, "one stays");
  std::thread a([&] { auto id = reg(); w.r->unregister(id); if (stay) reg(); });
  std::thread b([&] { auto id = reg(); w.r->unregister(id); });
  a.join(); b.join();
  MC_CHECK(told.on == stay, "%d registered, service believes %d", stay, told.on);
}
// the transport fails once, somebody else registers meanwhile
MC_SCENARIO(reg_first_fails, {.pb_quick = 2, .pb_thorough = 4}) {
  W w; Told told;
  Obs<int> n;
  w.c->hook = [&](const CSMessagePtr &m) { mc::point(); if (n == 0) { n = 1; return ActionCallStatus::ReceiverBusy; } told(m); return ActionCallStatus::Success; };
  Obs<int> ok;
  auto reg = [&] {
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    auto id = w.r->registerStatus("p", [](auto &) {}, &st);
    MC_CHECK(id.valid() == (st == ActionCallStatus::Success), "status %d", int(st));
    if (id.valid()) ok = ok + 1;
  };
  std::thread a(reg), b(reg);
  a.join(); b.join();
  MC_CHECK(told.on == 1 && ok == 1, "%d registered, service believes %d", int(ok), told.on);
}
// updates while callbacks come and go
MC_SCENARIO(reg_updates, {.pb_quick = 3, .pb_thorough = 5}) {
  W w; Log a, b;
  auto id = w.r->registerStatus("p", [&](const CSPayloadIFPtr &p) { a.add(val(p)); }, nullptr);
  w.c->reply(OpCode::StatusRegister, "p", RequestIDInvalid, pay(1));
  std::thread srv([&] { for (int v = 2; v <= 3; ++v) w.c->reply(OpCode::StatusRegister, "p", RequestIDInvalid, pay(v)); });
  int how = mc::choose(2, "late registrant / unregister");
  Obs<int> before;
  if (how == 0) {
    w.r->registerStatus("p", [&](const CSPayloadIFPtr &p) { b.add(val(p)); }, nullptr);
  } else {
    w.r->unregister(id);
  }
  srv.join();
  if (how == 0) {
    MC_CHECK(a.v == std::vector<int>({1, 2, 3}), "first got [%s]", a.str().c_str());
    // the value known when it came, and every later one
    MC_CHECK(b.count(3) >= 1, "late registrant got [%s]", b.str().c_str());
    MC_CHECK(b.count(1) || b.count(2) || b.count(3) > 1 || b.v == std::vector<int>({3}), "late registrant got [%s]", b.str().c_str());
    if (b.count(1)) MC_CHECK(b.count(2), "late registrant missed a change: [%s]", b.str().c_str());
    MC_CHECK(b.size() <= 3, "late registrant got [%s]", b.str().c_str());
  } else {
    for (size_t k = 0; k < a.size(); ++k) MC_CHECK(a.v[k] == int(k + 1), "got [%s]", a.str().c_str());
    size_t n = a.size();
    w.c->reply(OpCode::StatusRegister, "p", RequestIDInvalid, pay(4));
    MC_CHECK(a.size() == n, "called after unregistration");
  }
  mc::outcome(a.str() + "/" + b.str());
}
// registering against service loss: nothing stays behind
MC_SCENARIO(reg_vs_loss, {.pb_quick = 3, .pb_thorough = 5}) {
  W w;
  std::thread l([&] { w.c->unavailable(); });
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  Log a;
  auto id = w.r->registerStatus("p", [&](const CSPayloadIFPtr &p) { a.add(val(p)); }, &st);
  MC_CHECK(id.valid() == (st == ActionCallStatus::Success), "status %d", int(st));
  l.join();
  w.c->available();
  size_t n = w.c->sent();
  auto id2 = w.r->registerStatus("p", [](auto &) {}, &st);
  MC_CHECK(id2.valid() && w.c->sent() == n + 1, "the service is not told after it came back");
  w.c->reply(OpCode::StatusRegister, "p", RequestIDInvalid, pay(4));
  MC_CHECK(a.size() == 0, "registration survived the loss");
}
// callbacks that register and unregister themselves, others at the same time
MC_SCENARIO(reg_from_callback, {.pb_quick = 2, .pb_thorough = 4}) {
  W w; Told told; Log log;
  w.c->hook = [&](const CSMessagePtr &m) {
    told(m);
    if (m->operationCode() == OpCode::StatusRegister) w.c->reply(OpCode::StatusRegister, "p", m->requestID(), pay(1));
    return ActionCallStatus::Success;
  };
  RegID second;
  ActionCallStatus st;
  auto first = w.r->registerStatus("p", [&](const CSPayloadIFPtr &p) {
    log.add(val(p));
    if (val(p) == 1) second = w.r->registerStatus("p", [&](const CSPayloadIFPtr &q) { log.add(10 + val(q)); }, nullptr);
    if (val(p) == 2) w.r->unregister(second);
  }, &st);
  MC_CHECK(first.valid() && second.valid(), "refused");
  std::thread srv([&] { w.c->reply(OpCode::StatusRegister, "p", RequestIDInvalid, pay(2)); w.c->reply(OpCode::StatusRegister, "p", RequestIDInvalid, pay(3)); });
  auto third = w.r->registerStatus("p", [](auto &) {}, nullptr);
  w.r->unregister(third);
  srv.join();
  MC_CHECK(log.count(1) == 1 && log.count(2) == 1 && log.count(3) == 1 && !log.count(13), "[%s]", log.str().c_str());
  w.r->unregister(first);
  MC_CHECK(told.on == 0, "service believes %d", told.on);
}

// ---- reads -----------------------------------------------------------------
// a reader never sees an older value than one already delivered
MC_SCENARIO(read_latest, {.pb_quick = 3, .pb_thorough = 5}) {
  W w;
  Obs<int> seen;
  w.c->hook = [&](const CSMessagePtr &m) {
    if (m->operationCode() == OpCode::StatusGet) w.c->reply(OpCode::StatusGet, "p", m->requestID(), pay(3));
    return ActionCallStatus::Success;
  };
  auto id = w.r->registerStatus("p", [&](const CSPayloadIFPtr &) {}, nullptr);
  w.c->reply(OpCode::StatusRegister, "p", RequestIDInvalid, pay(1));
  std::thread srv([&] { for (int v = 2; v <= 3; ++v) { w.c->reply(OpCode::StatusRegister, "p", RequestIDInvalid, pay(v)); seen = v; } });
  std::thread u;
  bool leave = mc::choose(2, "unregister");
  if (leave) u = std::thread([&] { w.r->unregister(id); });
  int last = 1;
  for (int k = 0; k < 2; ++k) {
    int low = std::max<int>(last, seen);
    ActionCallStatus st = ActionCallStatus::FailedUnknown;
    last = val(w.r->getStatus("p", &st, ms(0)));
    MC_CHECK(st == ActionCallStatus::Success && last >= low && last <= 3, "read %d (status %d) after %d", last, int(st), low);
  }
  srv.join();
  if (leave) u.join();
}
// nothing from before a loss
MC_SCENARIO(read_after_loss, {.pb_quick = 3, .pb_thorough = 5}) {
  W w;
  Obs<int> phase;
  w.c->hook = [&](const CSMessagePtr &m) {
    if (m->operationCode() == OpCode::StatusGet) w.c->reply(OpCode::StatusGet, "p", m->requestID(), pay(9));
    return ActionCallStatus::Success;
  };
  w.r->registerStatus("p", [&](const CSPayloadIFPtr &) {}, nullptr);
  std::thread upd([&] { w.c->reply(OpCode::StatusRegister, "p", RequestIDInvalid, pay(1)); });
  std::thread l([&] { w.c->unavailable(); w.c->available(); phase = 1; });
  bool reg = mc::choose(2, "register again");
  l.join();
  if (reg) w.r->registerStatus("p", [&](const CSPayloadIFPtr &) {}, nullptr);
  if (!reg) upd.join();
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  int g = val(w.r->getStatus("p", &st, ms(0)));
  if (reg) { upd.join(); MC_CHECK(st == ActionCallStatus::Success && (g == 9 || g == 1), "read %d, status %d", g, int(st)); }
  else MC_CHECK(st == ActionCallStatus::Success && g == 9, "read %d, status %d: from before the loss", g, int(st));
}
MC_SCENARIO(read_vs_loss, {.pb_quick = 3, .pb_thorough = 5}) {
  W w; Wire wire;
  w.c->hook = [&](const CSMessagePtr &m) { return wire.put(m); };
  std::thread srv([&] { if (auto m = wire.take()) w.c->reply(OpCode::StatusGet, "p", m->requestID(), mc::choose(2) ? pay(5) : nullptr); });
  std::thread l([&] { w.c->unavailable(); });
  ActionCallStatus st = ActionCallStatus::FailedUnknown;
  int g = val(w.r->getStatus("p", &st, ms(0)));
  MC_CHECK((g == 5) == (st == ActionCallStatus::Success), "read %d, status %d", g, int(st));
  MC_CHECK(g == 5 || g == -1, "read %d", g);
  l.join();
  wire.close();
  srv.join();
}
