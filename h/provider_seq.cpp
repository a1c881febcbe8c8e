// P18: histories of a service provider against a model.
#include "cs.h"
#include <deque>
#include <map>
#include <set>
using namespace cs;

static const char *CL[] = {"c1", "c2"};
struct Rq { std::shared_ptr<RequestIF> h; int client; OpID op; RequestID id; int v; bool live = true; int aborts = 0, wantAborts = 0; };

static void history(int depth, const std::vector<int> &ops) {
  string log;
  std::deque<Rq> rs;  // outlives the provider, whose end calls back
  std::vector<int> heard, wantHeard;
  auto srv = std::make_shared<TestServer>();
  auto p = srv->getServiceProvider(S);
  std::set<OpID> subs[2];
  int current = -1;                 // value of property "p", -1: none
  std::map<RequestID, int> lastId[2];
  RequestID ids[2] = {0, 0};
  int down[2] = {0, 0};             // 0 fine, 1 unreachable, 2 busy once, 3 busy
  struct End { ServiceProviderIF *p; ~End() { p->deinit(); } } end{p.get()};
  int nextv = 1;
  bool handler = false;
  std::vector<Sent> want;
  srv->hook = [&](const CSMessagePtr &m, const Address &a) {
    int k = a.get_name() == "c1" ? 0 : 1;
    MC_CHECK(m->serviceID() == S, "%s: service id", log.c_str());
    if (down[k] == 1) return ActionCallStatus::ReceiverUnavailable;
    if (down[k] == 2) { down[k] = 0; return ActionCallStatus::ReceiverBusy; }
    if (down[k] == 3) return ActionCallStatus::ReceiverBusy;
    return ActionCallStatus::Success;
  };
  auto con = p->registerNotification("p", [&](const CSPayloadIFPtr &x) { heard.push_back(val(x)); });
  auto handle = [&](const std::shared_ptr<RequestIF> &r) {
    MC_CHECK(!rs.empty() && !rs.back().h, "%s: unexpected request", log.c_str());
    auto &q = rs.back();
    q.h = r;
    MC_CHECK(r->valid() && r->getRequestID() == q.id && r->getOperationID() == q.op && val(r->getInput()) == q.v && r->getOperationCode() == OpCode::Request, "%s: request differs", log.c_str());
    size_t k = rs.size() - 1;
    r->onAborted([&rs, k, &p] { rs[k].aborts++; rs[k].h->valid(); p->getStatus("p"); rs[k].h->respond(pay(1)); });
  };
  // one message to one client (an answer): is it delivered?
  auto expect = [&](int k, Sent s) -> bool {
    if (down[k] == 2) { down[k] = 0; return false; }
    if (down[k]) return false;
    s.addr = CL[k];
    want.push_back(s);
    return true;
  };
  // a notification to all subscribers; returns the expected status
  auto notify = [&](const OpID &op, OpCode code, int v) {
    int tried = 0, ok = 0;
    for (int k = 0; k < 2; ++k) {
      if (!subs[k].count(op)) continue;
      ++tried;
      if (down[k] == 1) { subs[k].clear(); continue; }
      if (down[k] == 3) continue;
      if (down[k] == 2) down[k] = 4;  // the second attempt succeeds
      ++ok;
      want.push_back({code, op, RequestIDInvalid, v, CL[k]});
    }
    return !tried || ok ? ActionCallStatus::Success : ActionCallStatus::ReceiverUnavailable;
  };
  auto pick = [&](bool oldest, bool live, int client = -1) -> Rq * {
    Rq *f = nullptr;
    for (auto &q : rs) if (q.h && q.live == live && (client < 0 || q.client == client)) { f = &q; if (oldest) break; }
    if (!f) mc::prune();
    return f;
  };
  auto drop = [&](int k) { for (auto &q : rs) if (q.live && q.client == k) { q.live = false; q.wantAborts++; } };
  for (int step = 0; step < depth; ++step) {
    int op = ops[mc::choose(ops.size(), "op")];
    log += std::to_string(op) + " ";
    want.clear(); srv->out.clear();
    int k = 0;
    switch (op) {
      case 1: k = 1;
      case 0:  // subscribe to the property
        {
          int d = down[k];
          if (current >= 0) expect(k, {OpCode::StatusRegister, "p", 50, current, ""});
          std::swap(d, down[k]);
          subs[k].insert("p");
          MC_CHECK(srv->from(CL[k], OpCode::StatusRegister, "p", 50), "%s: not handled", log.c_str());
          (void)d;
        }
        break;
      case 2: subs[0].insert("s"); srv->from(CL[0], OpCode::SignalRegister, "s", 51); break;
      case 4: k = 1;
      case 3: subs[k].erase("p"); srv->from(CL[k], OpCode::Unregister, "p"); break;
      case 5: case 6: {  // set the property: a new value, or the same again
        int v = op == 5 ? nextv++ : current;
        if (v < 0) mc::prune();
        auto ws = ActionCallStatus::NoAction;
        int d0 = down[0], d1 = down[1];
        if (v != current) { current = v; wantHeard.push_back(v); ws = notify("p", OpCode::StatusRegister, v); }
        std::swap(d0, down[0]); std::swap(d1, down[1]);
        auto st = p->setStatus("p", pay(v));
        MC_CHECK(st == ws, "%s: setStatus says %d, expected %d", log.c_str(), int(st), int(ws));
        break;
      }
      case 7: {
        int v = nextv++;
        int d0 = down[0], d1 = down[1];
        auto ws = notify("s", OpCode::SignalRegister, v);
        std::swap(d0, down[0]); std::swap(d1, down[1]);
        auto st = p->broadcastSignal("s", pay(v));
        MC_CHECK(st == ws, "%s: broadcastSignal says %d, expected %d", log.c_str(), int(st), int(ws));
        break;
      }
      case 9: k = 1;
      case 8: {  // request
        RequestID id = ids[k]++;
        int v = nextv++;
        if (handler) rs.push_back({nullptr, k, "a", id, v});
        else { int d = down[k]; expect(k, {OpCode::Request, "a", id, -2, ""}); std::swap(d, down[k]); }
        MC_CHECK(srv->from(CL[k], OpCode::Request, "a", id, pay(v)), "%s: not handled", log.c_str());
        if (handler) MC_CHECK(rs.back().h, "%s: handler not called", log.c_str());
        break;
      }
      case 10: case 11: {  // answer
        auto *q = pick(op == 10, true);
        int v = q->v + 100, d = down[q->client];
        bool ok = expect(q->client, {OpCode::Request, q->op, q->id, v, ""});
        std::swap(d, down[q->client]);
        q->live = false;
        auto st = q->h->respond(pay(v));
        MC_CHECK((st == ActionCallStatus::Success) == ok, "%s: answer says %d", log.c_str(), int(st));
        break;
      }
      case 12: {  // answer what has ended
        auto *q = pick(false, false);
        MC_CHECK(!q->h->valid() && q->h->respond(pay(5)) != ActionCallStatus::Success && q->h->update(pay(6)) != ActionCallStatus::Success, "%s: answered twice", log.c_str());
        break;
      }
      case 13: {
        auto *q = pick(true, true);
        int d = down[q->client];
        bool ok = expect(q->client, {OpCode::PartialRequestUpdate, q->op, q->id, q->v + 200, ""});
        std::swap(d, down[q->client]);
        auto st = q->h->update(pay(q->v + 200));
        MC_CHECK((st == ActionCallStatus::Success) == ok, "%s: update says %d", log.c_str(), int(st));
        break;
      }
      case 15: k = 1;
      case 14: {  // abort
        auto *q = pick(true, true, k);
        q->live = false; q->wantAborts++;
        srv->from(CL[k], OpCode::Abort, q->op, q->id);
        break;
      }
      case 16:  // the client goes away
        drop(0); subs[0].clear();
        srv->from(CL[0], OpCode::UnregisterServiceStatus, "");
        break;
      case 17: down[0] = 1; break;
      case 18: down[0] = mc::choose(2) ? 3 : 2; break;
      case 19: down[0] = 0; break;
      case 20: {  // remove the property
        bool n = mc::choose(2);
        current = -1;
        int d0 = down[0], d1 = down[1];
        auto ws = n ? notify("p", OpCode::StatusRegister, -1) : ActionCallStatus::Success;
        if (n) wantHeard.push_back(-1);
        std::swap(d0, down[0]); std::swap(d1, down[1]);
        auto st = p->removeProperty("p", n);
        MC_CHECK(st == ws && !p->getStatus("p"), "%s: removeProperty says %d", log.c_str(), int(st));
        break;
      }
      case 21: {
        int d = down[1];
        expect(1, {OpCode::StatusGet, "p", 60, current, ""});
        std::swap(d, down[1]);
        srv->from(CL[1], OpCode::StatusGet, "p", 60);
        break;
      }
      case 22:  // handler comes and goes
        if (handler) { MC_CHECK(p->unregisterRequestHandler("a") && !p->unregisterRequestHandler("a"), "%s: unregister handler", log.c_str()); }
        else {
          MC_CHECK(p->registerRequestHandler("a", handle), "%s: register handler", log.c_str());
          MC_CHECK(!p->registerRequestHandler("a", [](auto &) { mc::violation("second handler called"); }), "%s: second handler accepted", log.c_str());
        }
        handler = !handler;
        break;
      case 23: {  // an abort of what is not there, an unknown operation
        srv->from(CL[0], OpCode::Abort, "a", 4711);
        srv->from(CL[0], OpCode::Abort, "zz", 0);
        MC_CHECK(!srv->from(CL[0], OpCode::Invalid, "a", 1), "%s: invalid handled", log.c_str());
        break;
      }
      case 24: {  // answer with an error
        auto *q = pick(true, true);
        int d = down[q->client];
        bool ok = expect(q->client, {OpCode::Request, q->op, q->id, -2, ""});
        std::swap(d, down[q->client]);
        q->live = false;
        MC_CHECK((q->h->respond(std::make_shared<CSError>("e", CSErrorCode::OperationFailed)) == ActionCallStatus::Success) == ok, "%s: error answer", log.c_str());
        break;
      }
    }
    for (int &d : down) if (d == 4) d = 0;
    auto key = [](const Sent &a, const Sent &b) { return a.addr < b.addr; };
    std::stable_sort(want.begin(), want.end(), key);
    std::stable_sort(srv->out.begin(), srv->out.end(), key);
    MC_CHECK(show(want) == show(srv->out), "%s: sent [%s], expected [%s]", log.c_str(), show(srv->out).c_str(), show(want).c_str());
    MC_CHECK(heard == wantHeard, "%s: server side listener heard %zu, expected %zu", log.c_str(), heard.size(), wantHeard.size());
    for (auto &q : rs) {
      MC_CHECK(q.aborts == q.wantAborts, "%s: %d abort callbacks, expected %d", log.c_str(), q.aborts, q.wantAborts);
      MC_CHECK(!q.h || q.h->valid() == q.live, "%s: valid() of a request is %d", log.c_str(), q.h->valid());
    }
    MC_CHECK(val(p->getStatus("p")) == current, "%s: getStatus", log.c_str());
  }
  srv->out.clear();
  p->deinit();
  for (auto &q : rs) {
    MC_CHECK(q.aborts == q.wantAborts + q.live && !q.h->valid(), "%s: deinit: %d abort callbacks", log.c_str(), q.aborts);
    q.live = false;
    q.h->respond(pay(1));
  }
  p->broadcastSignal("p", pay(1)); p->broadcastSignal("s", pay(1));
  MC_CHECK(srv->out.empty(), "%s: messages after deinit: %s", log.c_str(), show(srv->out).c_str());
  string o;
  for (auto &q : rs) o += std::to_string(q.client) + (q.wantAborts ? "a" : "") + " ";
  for (auto &s : subs) o += std::to_string(s.size());
  mc::outcome(o);
}
MC_SCENARIO(provs_all, {.inproc = true}) { history(mc::thorough() ? 6 : 5, {22, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 23, 24}); }
MC_SCENARIO(provs_requests, {.inproc = true}) { history(mc::thorough() ? 9 : 8, {22, 8, 9, 10, 11, 12, 13, 14, 15, 16}); }
MC_SCENARIO(provs_notify, {.inproc = true}) { history(mc::thorough() ? 7 : 6, {0, 1, 3, 5, 6, 16, 17, 18, 19, 20}); }
