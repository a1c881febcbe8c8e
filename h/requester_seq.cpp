// P15/P16/P17: histories of a service requester against a model.
#include "cs.h"
#include <deque>
#include <map>
using namespace cs;
using ms = RequestTimeoutMs;

struct World {
  std::shared_ptr<TestClient> c = std::make_shared<TestClient>();
  ServiceRequesterIFPtr r = c->getServiceRequester(S);
  bool avail = false;
  string log;
  World() { c->available("other"); }
  ~World() { c->hook = nullptr; c->deinit(); }
};

// ---- requests ------------------------------------------------------------
struct Req {
  OpID op; int v; RegID id; RequestID wire; std::weak_ptr<int> token;
  bool live = true;       // the client still waits for it
  bool pending = true;    // the service has not answered it
  std::vector<int> got, want;
};
static void requests(int depth, bool deepOps) {
  World w;
  auto &c = *w.c; auto &r = *w.r;
  std::deque<Req> rs;
  enum { Ok, Fail, Inline, InlineNull, Lose, Mute, PartialInline } how = Ok;
  int next = 1, syncAborts = 0;
  c.hook = [&](const CSMessagePtr &m) {
    if (m->operationCode() != OpCode::Request) return ActionCallStatus::Success;
    MC_CHECK(m->serviceID() == S, "service id");
    if (how == Fail) return ActionCallStatus::ReceiverUnavailable;
    if (how == Inline) c.reply(OpCode::Request, m->operationID(), m->requestID(), pay(val(m->payload()) + 1000));
    if (how == InlineNull) c.reply(OpCode::Request, m->operationID(), m->requestID(), nullptr);
    if (how == PartialInline) {
      c.reply(OpCode::PartialRequestUpdate, m->operationID(), m->requestID(), pay(val(m->payload()) + 500));
      c.reply(OpCode::PartialRequestUpdate, m->operationID(), m->requestID(), pay(val(m->payload()) + 501));
      c.reply(OpCode::Request, m->operationID(), m->requestID(), pay(val(m->payload()) + 1000));
    }
    if (how == Lose) c.unavailable();
    return ActionCallStatus::Success;
  };
  auto lost = [&] { w.avail = false; for (auto &q : rs) q.live = false; };
  auto sendAsync = [&](const char *op, bool reenter = false) {
    rs.emplace_back();
    size_t k = rs.size() - 1;
    auto &q = rs[k];
    q.op = op; q.v = next++;
    auto tok = std::make_shared<int>(0);
    q.token = tok;
    auto st = ActionCallStatus::FailedUnknown;
    size_t n = c.out.size();
    q.id = r.sendRequestAsync(op, pay(q.v), [&rs, &r, &c, k, tok, reenter, &how](const CSPayloadIFPtr &p) {
      rs[k].got.push_back(val(p));
      if (reenter) {
        auto old = how; how = Inline;
        ActionCallStatus s2;
        MC_CHECK(val(r.sendRequest("n", pay(7), &s2, ms(0))) == 1007 && s2 == ActionCallStatus::Success, "request from inside a callback");
        how = old;
      }
    }, &st);
    tok.reset();
    if (!w.avail) {
      MC_CHECK(!q.id.valid() && st == ActionCallStatus::ServiceUnavailable && c.out.size() == n, "%s: accepted while unavailable", w.log.c_str());
      q.live = q.pending = false;
    } else if (how == Fail) {
      MC_CHECK(!q.id.valid() && st == ActionCallStatus::ReceiverUnavailable, "%s: failed send reported as %d", w.log.c_str(), int(st));
      q.live = q.pending = false;
    } else {
      MC_CHECK(q.id.valid() && st == ActionCallStatus::Success && c.out.size() > n, "%s: send", w.log.c_str());
      auto &m = c.out[n];
      MC_CHECK(m.code == OpCode::Request && m.op == op && m.v == q.v, "%s: wrong message", w.log.c_str());
      for (auto &o : rs) MC_CHECK(&o == &q || !o.pending || o.wire != m.id, "%s: id used twice", w.log.c_str());
      q.wire = m.id;
    }
  };
  auto pick = [&](bool oldest, bool live) -> Req * {
    Req *f = nullptr;
    for (auto &q : rs) if (live ? q.live : q.pending) { f = &q; if (oldest) break; }
    return f;
  };
  for (int step = 0; step < depth; ++step) {
    int op = mc::choose(deepOps ? 12 : 20, "op");
    w.log += std::to_string(op) + " ";
    switch (op) {
      case 0: sendAsync("a"); break;
      case 1: sendAsync("b"); break;
      case 2: case 3: {  // the service answers
        auto *q = pick(op == 2, false);
        if (!q) mc::prune();
        q->pending = false;
        // a value, nothing or an error
        CSPayloadIFPtr ans = op == 2 ? pay(q->v + 100) : q->v % 2 ? CSPayloadIFPtr{} : std::make_shared<CSError>("e", CSErrorCode::OperationFailed);
        if (q->live) q->want.push_back(val(ans));
        q->live = false;
        c.reply(OpCode::Request, q->op, q->wire, ans);
        break;
      }
      case 4: {  // partial update
        auto *q = pick(true, false);
        if (!q) mc::prune();
        if (q->live) q->want.push_back(q->v + 200);
        c.reply(OpCode::PartialRequestUpdate, q->op, q->wire, pay(q->v + 200));
        break;
      }
      case 5: case 6: {  // abort
        Req *q = pick(op == 5, true);
        if (!q) mc::prune();
        size_t n = c.out.size();
        auto st = ActionCallStatus::FailedUnknown;
        r.abortRequest(q->id, &st);
        MC_CHECK(st == ActionCallStatus::Success && c.out.size() == n + 1 && c.out[n].code == OpCode::Abort && c.out[n].id == q->wire && c.out[n].op == q->op,
                 "%s: abort sent %s", w.log.c_str(), show(c.out).c_str());
        q->live = false;
        break;
      }
      case 7: if (!w.avail) mc::prune(); c.unavailable(); lost(); break;
      case 8: if (w.avail) mc::prune(); c.available(); w.avail = true; break;
      case 9: {  // a synchronous request, answered
        if (!w.avail) mc::prune();
        bool null = mc::choose(2, "answered with nothing");
        how = null ? InlineNull : Inline;
        auto st = ActionCallStatus::FailedUnknown;
        int v = next++;
        int g = val(r.sendRequest("a", pay(v), &st, ms(mc::choose(2) * 5)));
        MC_CHECK(g == (null ? -1 : v + 1000) && st == ActionCallStatus::Success, "%s: sync request gave %d, status %d", w.log.c_str(), g, int(st));
        how = Ok;
        break;
      }
      case 10: {  // synchronous and never answered in time
        if (!w.avail) mc::prune();
        auto st = ActionCallStatus::Success;
        size_t n = c.out.size();
        auto t0 = mc::now_ns();
        how = Mute;
        auto p = r.sendRequest("a", pay(next++), &st, ms(5));
        how = Ok;
        MC_CHECK(!p && st == ActionCallStatus::Timeout && mc::now_ns() - t0 >= 5000000, "%s: timeout gave %d", w.log.c_str(), int(st));
        MC_CHECK(c.out.size() == n + 2 && c.out[n + 1].code == OpCode::Abort && c.out[n + 1].id == c.out[n].id, "%s: expired request not aborted", w.log.c_str());
        c.reply(OpCode::Request, "a", c.out[n].id, pay(99));  // too late
        break;
      }
      case 11: {  // the service goes while the caller waits
        if (!w.avail) mc::prune();
        auto st = ActionCallStatus::Success;
        how = Lose;
        auto p = r.sendRequest("a", pay(next++), &st, ms(mc::choose(2) * 5));
        how = Ok;
        lost();
        MC_CHECK(!p && st != ActionCallStatus::Success, "%s: lost request gave %d", w.log.c_str(), int(st));
        break;
      }
      case 12: how = Fail; sendAsync("a"); how = Ok; break;
      case 13: {  // answered twice
        Req *q = nullptr;
        for (auto &x : rs) if (!x.pending && x.id.valid()) q = &x;
        if (!q) mc::prune();
        c.reply(OpCode::Request, q->op, q->wire, pay(77));
        break;
      }
      case 14: c.reply(OpCode::Request, "a", 12345, pay(78)); break;
      case 15: {  // right id, other operation or other service
        auto *q = pick(true, false);
        if (!q) mc::prune();
        c.reply(OpCode::Request, q->op == "a" ? "b" : "a", q->wire, pay(79));
        c.incoming(createCSMessage("other", q->op, OpCode::Request, q->wire, pay(79)));
        c.reply(OpCode::StatusRegister, q->op, q->wire, pay(79));
        break;
      }
      case 16: if (!w.avail) mc::prune(); c.onServerStatusChanged(Availability::Available, Availability::Unavailable); lost(); break;
      case 17: sendAsync("a", true); break;
      case 18: {
        if (!w.avail) mc::prune();
        auto st = ActionCallStatus::FailedUnknown;
        int v = next++;
        how = PartialInline;
        int g = val(r.sendRequest("a", pay(v), &st, ms(0)));
        how = Ok;
        MC_CHECK(g >= v + 500 && g <= v + 1000 && st == ActionCallStatus::Success, "%s: sync request with partial updates gave %d, status %d", w.log.c_str(), g, int(st));
        break;
      }
      case 19: {  // aborting what has ended changes nothing
        Req *q = nullptr;
        for (auto &x : rs) if (!x.live && x.id.valid()) q = &x;
        if (!q) mc::prune();
        size_t n = c.out.size();
        auto st = ActionCallStatus::FailedUnknown;
        r.abortRequest(q->id, &st);
        MC_CHECK(c.out.size() == n, "%s: abort of an ended request sent", w.log.c_str());
        break;
      }
    }
    for (size_t k = 0; k < rs.size(); ++k) {
      auto &q = rs[k];
      MC_CHECK(q.got == q.want, "%s: request %zu got %zu answers, last %d; expected %zu, last %d", w.log.c_str(), k, q.got.size(), q.got.empty() ? 0 : q.got.back(), q.want.size(), q.want.empty() ? 0 : q.want.back());
      MC_CHECK(q.token.expired() != q.live, "%s: callback of request %zu %s", w.log.c_str(), k, q.live ? "lost" : "kept");
    }
    MC_CHECK((r.serviceStatus() == Availability::Available) == w.avail, "%s: status", w.log.c_str());
  }
  c.deinit();
  for (auto &q : rs) MC_CHECK(q.token.expired() && q.got == q.want, "%s: request survives deinit", w.log.c_str());
  string o;
  for (auto &q : rs) o += std::to_string(q.got.size()) + (q.live ? "l" : "") + (q.pending ? "p" : "") + " ";
  mc::outcome(o);
}
MC_SCENARIO(reqs_requests, {.inproc = true}) { requests(mc::thorough() ? 6 : 5, false); }
MC_SCENARIO(reqs_deep, {.inproc = true}) { requests(mc::thorough() ? 9 : 7, true); }

// ---- registrations and reads ----------------------------------------------
struct Cb { OpID op; RegID id; bool live = false; std::vector<int> got, want; };
static const char *OPS[] = {"p", "q", "s"};
// reading uses the value up, as decoding a received payload does
static int use(const CSPayloadIFPtr &x) { int v = val(x); if (auto y = dynamic_cast<Pay *>(x.get())) y->v = -4; return v; }
// late: what the service says waits, in order, until it is delivered (op 20) or
// the answer to a read passes along the same way
static void notifications(int depth, const std::vector<int> &ops, const std::vector<int> &prefix = {}, bool late = false) {
  World w;
  struct Said { OpCode code; string op; RequestID id; int v; };
  std::deque<Said> said;
  auto &c = *w.c; auto &r = *w.r;
  std::deque<Cb> cbs;
  std::map<string, bool> told;      // what the service believes
  std::map<string, int> sv, known;  // its values, and what the client knows
  bool fail = false;
  int next = 1;
  auto count = [&](const string &op) { int n = 0; for (auto &x : cbs) n += x.live && x.op == op; return n; };
  auto deliver = [&](const string &op, int v) {  // model
    for (auto &x : cbs) if (x.live && x.op == op) x.want.push_back(v);
    if (count(op) && op != "s") { if (v >= 0) known[op] = v; else known.erase(op); }
  };
  auto say = [&](OpCode code, const string &op, RequestID id, int v) {
    if (late) said.push_back({code, op, id, v});
    else { deliver(op, v); c.reply(code, op, id, pay(v)); }
  };
  auto hear = [&] {
    auto x = said.front();
    said.pop_front();
    deliver(x.op, x.v);
    c.reply(x.code, x.op, x.id, pay(x.v));
  };
  Cb *registering = nullptr;
  c.hook = [&](const CSMessagePtr &m) {
    auto op = m->operationID();
    MC_CHECK(w.avail, "%s: message while unavailable", w.log.c_str());
    switch (m->operationCode()) {
      case OpCode::StatusRegister: case OpCode::SignalRegister:
        MC_CHECK((m->operationCode() == OpCode::SignalRegister) == (op == "s"), "%s: kind", w.log.c_str());
        MC_CHECK(!told[op], "%s: service told twice to start %s", w.log.c_str(), op.c_str());
        if (fail) return ActionCallStatus::ReceiverBusy;
        told[op] = true;
        if (op != "s" && sv.count(op)) {
          if (registering) registering->live = true;
          say(OpCode::StatusRegister, op, m->requestID(), sv[op]);
        }
        break;
      case OpCode::Unregister:
        MC_CHECK(told[op], "%s: service told to stop %s which it never started", w.log.c_str(), op.c_str());
        told[op] = false;
        break;
      case OpCode::StatusGet:
        if (fail) return ActionCallStatus::ReceiverBusy;
        while (!said.empty()) hear();
        c.reply(OpCode::StatusGet, op, m->requestID(), sv.count(op) ? pay(sv[op]) : nullptr);
        break;
      default: mc::violation("%s: unexpected message", w.log.c_str());
    }
    return ActionCallStatus::Success;
  };
  auto reg = [&](const string &op) {
    cbs.emplace_back();
    size_t k = cbs.size() - 1;
    cbs[k].op = op;
    bool first = !count(op);
    size_t n = c.out.size();
    auto st = ActionCallStatus::FailedUnknown;
    registering = &cbs[k];
    auto cb = [&cbs, k](const CSPayloadIFPtr &p) { cbs[k].got.push_back(use(p)); };
    auto id = op == "s" ? r.registerSignal(op, cb, &st) : r.registerStatus(op, cb, &st);
    registering = nullptr;
    cbs[k].id = id;
    if (!w.avail) {
      MC_CHECK(!id.valid() && st == ActionCallStatus::ServiceUnavailable, "%s: registered while unavailable", w.log.c_str());
      return;
    }
    if (first && fail) {
      MC_CHECK(!id.valid() && st == ActionCallStatus::ReceiverBusy, "%s: failed registration reported as %d", w.log.c_str(), int(st));
      return;
    }
    MC_CHECK(id.valid() && st == ActionCallStatus::Success, "%s: registration failed (%d)", w.log.c_str(), int(st));
    MC_CHECK(c.out.size() == n + first, "%s: %zu messages for a registration", w.log.c_str(), c.out.size() - n);
    cbs[k].live = true;
    if (!first && op != "s" && known.count(op)) cbs[k].want.push_back(known[op]);
  };
  auto off = [&](Cb *x) {
    if (!x) mc::prune();
    bool last = x->live && count(x->op) == 1;
    size_t n = c.out.size();
    auto st = r.unregister(x->id);
    if (w.avail) MC_CHECK(st == ActionCallStatus::Success, "%s: unregister says %d", w.log.c_str(), int(st));
    MC_CHECK(c.out.size() == n + last, "%s: %zu messages for an unregistration", w.log.c_str(), c.out.size() - n);
    x->live = false;
    if (last) known.erase(x->op);
  };
  auto lost = [&] { w.avail = false; for (auto &x : cbs) x.live = false; told.clear(); said.clear(); };
  auto change = [&](const string &op) {
    int v = next++;
    if (op != "s") sv[op] = v;
    if (!told[op]) return;
    say(op == "s" ? OpCode::SignalRegister : OpCode::StatusRegister, op, RequestIDInvalid, v);
  };
  for (int step = 0; step < depth; ++step) {
    int op = step < (int)prefix.size() ? prefix[step] : ops[mc::choose(ops.size(), "op")];
    w.log += std::to_string(op) + " ";
    switch (op) {
      case 0: case 1: case 2: reg(OPS[op]); break;
      case 3: case 4: {
        Cb *f = nullptr;
        for (auto &x : cbs) if (x.live) { f = &x; if (op == 3) break; }
        off(f);
        break;
      }
      case 5: {  // an id that has ended
        Cb *f = nullptr;
        for (auto &x : cbs) if (!x.live && x.id.valid()) f = &x;
        off(f);
        break;
      }
      case 6: {
        size_t n = c.out.size();
        bool had = count("p");
        r.unregisterAll("p");
        MC_CHECK(c.out.size() == n + had, "%s: %zu messages for unregisterAll", w.log.c_str(), c.out.size() - n);
        for (auto &x : cbs) if (x.op == "p") x.live = false;
        if (had) known.erase("p");
        break;
      }
      case 7: case 8: case 9: change(OPS[op - 7]); break;
      case 10: if (!w.avail) mc::prune(); c.unavailable(); lost(); break;
      case 11: if (w.avail) mc::prune(); c.available(); w.avail = true; known.clear(); break;
      case 12: case 13: {  // read, synchronously or not
        const char *p = "p";
        int g = -5, calls = 0;
        auto st = ActionCallStatus::FailedUnknown;
        size_t n = c.out.size();
        if (op == 12) { g = use(r.getStatus(p, &st, ms(0))); calls = 1; }
        else st = r.getStatus(p, [&](const CSPayloadIFPtr &x) { g = use(x); ++calls; });
        MC_CHECK(calls == 1, "%s: read called back %d times", w.log.c_str(), calls);
        if (!w.avail) {
          MC_CHECK(st == ActionCallStatus::ServiceUnavailable && c.out.size() == n, "%s: read while unavailable says %d", w.log.c_str(), int(st));
          MC_CHECK(g == -1 || (known.count(p) && known[p] == g), "%s: read %d while unavailable", w.log.c_str(), g);
        } else if (count(p) && known.count(p)) {
          MC_CHECK(g == known[p] && st == ActionCallStatus::Success, "%s: read %d, status %d; known is %d", w.log.c_str(), g, int(st), known[p]);
        } else {
          MC_CHECK(c.out.size() == n + 1, "%s: service not asked", w.log.c_str());
          if (sv.count(p)) MC_CHECK(g == sv[p] && st == ActionCallStatus::Success, "%s: read %d, status %d; service has %d", w.log.c_str(), g, int(st), sv[p]);
          else if (op == 12) MC_CHECK(g == -1 && st != ActionCallStatus::Success, "%s: read %d, status %d; there is no value", w.log.c_str(), g, int(st));
          else MC_CHECK(g == -1, "%s: read %d; there is no value", w.log.c_str(), g);
        }
        break;
      }
      case 20: if (said.empty()) mc::prune(); hear(); break;
      case 14: fail = true; reg("p"); fail = false; break;
      case 15: if (!w.avail) mc::prune(); c.onServerStatusChanged(Availability::Available, Availability::Unavailable); lost(); break;
      case 16: {  // the service removes the property
        if (!sv.count("p")) mc::prune();
        sv.erase("p");
        if (told["p"]) { deliver("p", -1); c.reply(OpCode::StatusRegister, "p", RequestIDInvalid, nullptr); }
        break;
      }
      case 17: {  // updates nobody registered for
        if (count("q") || count("s")) mc::prune();
        c.reply(OpCode::StatusRegister, "q", RequestIDInvalid, pay(66));
        c.reply(OpCode::SignalRegister, "s", RequestIDInvalid, pay(66));
        c.incoming(createCSMessage("other", "p", OpCode::StatusRegister, RequestIDInvalid, pay(66)));
        break;
      }
      case 18: {  // read fails in the transport
        if (!w.avail || (count("p") && known.count("p"))) mc::prune();
        fail = true;
        auto st = ActionCallStatus::Success;
        MC_CHECK(!r.getStatus("p", &st, ms(0)) && st == ActionCallStatus::ReceiverBusy, "%s: failed read says %d", w.log.c_str(), int(st));
        st = r.getStatus("p", [&](const CSPayloadIFPtr &x) { mc::violation("%s: failed read called back", w.log.c_str()); });
        MC_CHECK(st == ActionCallStatus::ReceiverBusy, "%s: failed async read says %d", w.log.c_str(), int(st));
        fail = false;
        break;
      }
    }
    for (auto &o : OPS) MC_CHECK(told[o] == (count(o) > 0), "%s: service told %d, %d registered for %s", w.log.c_str(), int(told[o]), count(o), o);
    for (size_t k = 0; k < cbs.size(); ++k) {
      auto str = [](const std::vector<int> &v) { string s; for (int x : v) s += std::to_string(x) + " "; return s; };
      MC_CHECK(cbs[k].got == cbs[k].want, "%s: callback %zu of %s got [%s], expected [%s]", w.log.c_str(), k, cbs[k].op.c_str(), str(cbs[k].got).c_str(), str(cbs[k].want).c_str());
    }
  }
  string o;
  for (auto &x : cbs) o += x.op + std::to_string(x.got.size()) + (x.live ? "l " : " ");
  mc::outcome(o);
}
MC_SCENARIO(regs_all, {.inproc = true}) { notifications(mc::thorough() ? 7 : 6, {11, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 14, 16, 17}); }
MC_SCENARIO(regs_deep, {.inproc = true}) { notifications(mc::thorough() ? 11 : 9, {11, 0, 2, 3, 4, 7, 10}); }
MC_SCENARIO(reads_all, {.inproc = true}) { notifications(mc::thorough() ? 7 : 6, {11, 0, 3, 7, 10, 12, 13, 15, 16, 18, 14, 6}); }
// what was known before is not known after
MC_SCENARIO(reads_known, {.inproc = true}) { notifications(mc::thorough() ? 9 : 8, {6, 3, 16, 0, 12, 13, 7, 10, 11}, {11, 0, 7}); }
// the service's words are on their way for a while
MC_SCENARIO(reads_late, {.inproc = true}) { notifications(mc::thorough() ? 11 : 9, {0, 3, 6, 7, 10, 11, 12, 20}, {11, 0}, true); }
MC_SCENARIO(reads_deep, {.inproc = true}) { notifications(mc::thorough() ? 11 : 9, {11, 0, 3, 7, 10, 12, 16}); }
