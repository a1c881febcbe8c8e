// P20: histories of serving, connection loss and observers.
#include "cs.h"
#include <maf/messaging/client-server/ServiceStatusObserverDelegater.h>
#include <maf/messaging/client-server/ServiceStatusSignal.h>
#include <maf/messaging/client-server/AsyncServiceStatusObserver.h>
#include <map>
using namespace cs;
using Av = Availability;

static const char *SID[] = {"s0", "s1"};
struct Link : TestServer {   // a server that reaches its client directly
  std::weak_ptr<TestClient> c;
  bool up = true;
  void notifyServiceStatusToClient(const ServiceID &sid, Availability o, Availability n) override {
    if (auto x = c.lock(); x && up) {
      if (via) x->incoming(createCSMessage(sid, n == Av::Available ? OpID_ServiceAvailable : OpID_ServiceUnavailable, OpCode::ServiceStatusUpdate));
      else x->onServiceStatusChanged(sid, o, n);
    }
  }
  bool via = false;
};
struct Ob : ServiceStatusObserverIF {
  string log;
  std::function<void(Av)> then;
  string sid;
  void onServiceStatusChanged(const ServiceID &s, Availability, Availability n) override {
    MC_CHECK(s == sid, "told about another service");
    log += n == Av::Available ? '+' : n == Av::Unavailable ? '-' : '?';
    if (then) { auto f = then; f(n); }
  }
};

static void history(int depth, const std::vector<int> &ops, bool via) {
  string log;
  auto c = std::make_shared<TestClient>();
  auto s = std::make_shared<Link>();
  s->c = c; s->via = via;
  struct End { TestClient &c; ~End() { c.deinit(); } } end{*c};
  ServiceRequesterIFPtr req[2];
  ServiceProviderIFPtr prov[2];
  bool served[2] = {}, seen[2] = {};   // seen: what the client may know
  struct O { std::shared_ptr<Ob> o; bool on = false; string want; int kind; };
  O obs[2][3];
  for (int v = 0; v < 2; ++v) for (int i = 0; i < 3; ++i) { obs[v][i].o = std::make_shared<Ob>(); obs[v][i].o->sid = SID[v]; obs[v][i].kind = i; }
  std::shared_ptr<Ob> extra = std::make_shared<Ob>();
  extra->sid = SID[0];
  string wantExtra;
  int nextra = 0;
  // what observers do when told
  auto changed = [&](int v, bool n) {
    if (seen[v] == n) return;
    seen[v] = n;
    if (!req[v]) return;
    auto w = nextra;
    for (auto &o : obs[v]) if (o.on) {
      o.want += n ? '+' : '-';
      if (o.kind == 1) o.on = false;                       // takes itself out
      if (o.kind == 2 && v == 0) { ++nextra; if (n) wantExtra += '+'; }  // adds one more
    }
    if (v == 0) for (int k = 0; k < w; ++k) wantExtra.insert(0, 1, n ? '+' : '-');
  };
  for (int v = 0; v < 2; ++v) {
    auto &o1 = obs[v][1];
    o1.o->then = [&, v](Av) { req[v]->unregisterServiceStatusObserver(obs[v][1].o); };
    obs[v][2].o->then = [&, v](Av n) {
      MC_CHECK(req[v]->serviceStatus() == n && c->getServiceStatus(SID[v]) == n, "observer told %d, reads otherwise", int(n));
      MC_CHECK(c->getServiceRequester(SID[v]) == req[v], "another requester");
      ActionCallStatus st;
      req[v]->registerSignal("x", [](auto &) {}, &st);
      MC_CHECK((st == ActionCallStatus::Success) == (n == Av::Available), "registering when told %d: %d", int(n), int(st));
      if (v == 0) req[v]->registerServiceStatusObserver(extra);
    };
  }
  auto sorted = [](string x) { std::sort(x.begin(), x.end()); return x; };
  for (int step = 0; step < depth; ++step) {
    int op = ops[mc::choose(ops.size(), "op")], v = op % 2;
    log += std::to_string(op) + " ";
    switch (op / 2) {
      case 0: if (!prov[v]) prov[v] = s->getServiceProvider(SID[v]);
        served[v] = true;
        if (s->up) changed(v, true);
        prov[v]->startServing();
        MC_CHECK(prov[v]->availability() == Av::Available, "%s: provider", log.c_str());
        break;
      case 1: if (!prov[v]) mc::prune();
        served[v] = false;
        if (s->up) changed(v, false);
        prov[v]->stopServing();
        MC_CHECK(prov[v]->availability() != Av::Available, "%s: provider", log.c_str());
        break;
      case 2: if (req[v]) { MC_CHECK(c->getServiceRequester(SID[v]) == req[v], "%s: another requester", log.c_str()); break; }
        MC_CHECK(!c->hasServiceRequester(SID[v]), "%s: has requester", log.c_str());
        req[v] = c->getServiceRequester(SID[v]);
        break;
      case 3: case 4: case 5: {
        if (!req[v]) mc::prune();
        auto &o = obs[v][op / 2 - 3];
        if (o.on) {
          req[v]->unregisterServiceStatusObserver(o.o);
          o.on = false;
        } else {
          o.on = true;
          if (seen[v]) { o.want += '+'; if (o.kind == 1) o.on = false; if (o.kind == 2 && v == 0) { ++nextra; wantExtra += '+'; } }
          req[v]->registerServiceStatusObserver(o.o);
        }
        break;
      }
      case 6:  // the connection is lost
        if (!s->up) mc::prune();
        s->up = false;
        changed(0, false); changed(1, false);
        c->onServerStatusChanged(Av::Available, Av::Unavailable);
        break;
      case 7:  // and comes back
        if (s->up) mc::prune();
        s->up = true;
        c->onServerStatusChanged(Av::Unavailable, Av::Available);
        for (int k = 0; k < 2; ++k) if (served[k]) { changed(k, true); s->notifyServiceStatusToClient(SID[k], Av::Unavailable, Av::Available); }
        break;
      case 8:  // the server ends
        if (!prov[0] && !prov[1]) mc::prune();
        for (int k = 0; k < 2; ++k) { if (s->up) changed(k, false); served[k] = false; prov[k] = nullptr; }
        s->deinit();
        for (int k = 0; k < 2; ++k) MC_CHECK(!s->hasServiceProvider(SID[k]), "%s: provider left", log.c_str());
        break;
    }
    if (nextra) mc::outcome("extra");
    for (int k = 0; k < 2; ++k) {
      MC_CHECK((c->getServiceStatus(SID[k]) == Av::Available) == seen[k], "%s: client sees service %d %s", log.c_str(), k, seen[k] ? "unavailable" : "available");
      if (req[k]) MC_CHECK((req[k]->serviceStatus() == Av::Available) == seen[k], "%s: requester sees service %d %s", log.c_str(), k, seen[k] ? "unavailable" : "available");
      for (auto &o : obs[k]) MC_CHECK(o.o->log == o.want, "%s: observer %d of %d told %s, expected %s", log.c_str(), o.kind, k, o.o->log.c_str(), o.want.c_str());
    }
    MC_CHECK(sorted(extra->log) == sorted(wantExtra), "%s: added observer told %s, expected %s", log.c_str(), extra->log.c_str(), wantExtra.c_str());
  }
}
static std::vector<int> upto(int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); v.push_back(12); v.push_back(14); v.push_back(16); return v; }
MC_SCENARIO(stat_two_services, {.inproc = true}) { history(mc::thorough() ? 7 : 6, upto(12), mc::choose(2, "by message")); }
MC_SCENARIO(stat_one_service, {.inproc = true}) { history(mc::thorough() ? 9 : 8, {4, 0, 2, 6, 8, 10, 12, 14, 16}, false); }

// observers that pass on: through an executor that may be gone, to a signal
MC_SCENARIO(stat_observers, {.inproc = true}) {
  struct Ex : maf::util::ExecutorIF {
    std::vector<CallbackType> q;
    bool gone = false;
    bool execute(CallbackType f) noexcept override { if (gone) return false; q.push_back(std::move(f)); return true; }
  };
  string log, got, want, got2, want2;
  auto ex = std::make_shared<Ex>();
  auto c = std::make_shared<TestClient>();
  auto r = c->getServiceRequester(S);
  auto sig = serviceStatusSignal();
  r->registerServiceStatusObserver(std::make_shared<ServiceStatusObserverDelegater>(ex, [&](Av, Av n) { got += n == Av::Available ? '+' : '-'; }));
  r->registerServiceStatusObserver(sig);
  auto last = std::make_shared<Ob>();
  last->sid = S;
  r->registerServiceStatusObserver(last);
  bool av = false, off = false, dropped = false;
  size_t queued = 0;
  for (int i = 0; i < (mc::thorough() ? 10 : 8); ++i) {
    int op = mc::choose(5, "op");
    log += std::to_string(op);
    if (op < 2) {
      bool n = op == 0;
      if (n != av) {
        want2 += n ? '+' : '-';
        if (ex->gone) dropped = true;
        if (!dropped) want += n ? '+' : '-';
      }
      av = n;
      if (n) c->available(); else c->unavailable();
    }
    if (op == 2) { auto q = std::move(ex->q); ex->q.clear(); for (auto &f : q) f(); queued = 0; }
    if (op == 3) ex->gone = !ex->gone;
    if (op == 4) { off = true; sig->stop(); }
    MC_CHECK(last->log == want2, "%s: told %s, expected %s", log.c_str(), last->log.c_str(), want2.c_str());
    MC_CHECK(sig->currentStatus() == (av ? Av::Available : Av::Unavailable), "%s: status signal", log.c_str());
    MC_CHECK(got.size() + ex->q.size() == want.size() && want.compare(0, got.size(), got) == 0, "%s: passed on %s (+%zu), expected %s", log.c_str(), got.c_str(), ex->q.size(), want.c_str());
    if (off) MC_CHECK(sig->waitIfNot(Av::Available).isInterrupted() && sig->waitIfNot(Av::Unavailable, 5).isInterrupted(), "%s: stopped signal", log.c_str());
    else MC_CHECK(sig->waitIfNot(av ? Av::Available : Av::Unavailable).isReady(), "%s: wait", log.c_str());
  }
}
