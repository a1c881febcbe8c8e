// P19: histories of a typed proxy and stub, against a reference.
#pragma once
#include "typed.h"
using namespace ty;
using std::vector;
namespace {
struct W {
  std::shared_ptr<Later> pe = std::make_shared<Later>(), se = std::make_shared<Later>();
  std::shared_ptr<Via> pe2 = std::make_shared<Via>(pe);
  string sid;
  StubPtr stub, stubd;
  ProxyPtr px, px2;
  string log;  // what happened in this step
  vector<RegID> regs;
  string kinds;  // kind of each registration, '-' once ended
  std::shared_ptr<Req<echo_request::input>> kept;
  RegID keptId;
  // reference
  bool up = false, pending = false;
  int level = -1, asked = 0, keptTag = 0;
  int cache = -1;  // value last seen by a registration
  bool subscribed() { return kinds.find('L') != string::npos; }
  // what asking the proxy for the level gives
  int known() { return !up || (subscribed() && cache >= 0) ? cache : level; }
  vector<std::pair<maf::signal_slots::Connection, char>> local;
  void add(const string &s) { log += s + ' '; }
  void inP(const char *w, int second = 0) { MC_CHECK(pe->running && pe2->running == bool(second), "%s outside of the proxy's executor", w); }
  void inS(const char *w) { MC_CHECK(se->running, "%s outside of the stub's executor", w); }
  W() {
    static int k = 0;
    sid = "svc" + to_string(k++);
    stub = TY_STUB(sid, se);
    px = TY_PROXY(sid, pe);
    MC_CHECK(stub && px && px->serviceID() == sid && stub->serviceID() == sid, "created");
    px2 = px->with(pe2);
    stubd = stub->with(maf::util::directExecutor());
    MC_CHECK(stub->registerRequestHandler<echo_request::input>([this](Req<echo_request::input> r) { echo(std::move(r)); }), "handler");
    MC_CHECK(!stub->registerRequestHandler<echo_request::input>([this](Req<echo_request::input>) { mc::violation("replaced handler"); }), "second handler for the same request");
    stub->registerRequestHandler<bare_request>([this](Req<bare_request> r) { inS("bare"); add("bare"); r.respond(); });
    stub->registerRequestHandler<onlyout_request>([this](Req<onlyout_request> r) { inS("onlyout"); r.respond<onlyout_request::output>(++asked); });
    stubd->registerRequestHandler<ping_request>([this](Req<ping_request> r) { if (asked % 2) r.error("odd", CSErrorCode(78)); else r.respond(); });
    stubd->registerRequestHandler<other_request::input>([this](Req<other_request::input> r) {
      auto in = r.getInput();
      if (in->get_n() < 0) r.error("neg", CSErrorCode(77)); else r.respond<other_request::output>(in->get_n() * 2);
    });
  }
  void echo(Req<echo_request::input> r) {
    inS("echo");
    auto in = r.getInput();
    MC_CHECK(in != nullptr, "request without its input");
    MC_CHECK(r.getOperationID() == echo_request::ID && r.getOperationCode() == OpCode::Request && r.valid(), "request");
    add("got" + to_string(in->get_n()) + in->get_s());
    switch (in->get_n() % 5) {
      case 0: r.respond<echo_request::output>(in->get_n(), in->get_s() + "!"); MC_CHECK(!r.valid() && r.respond() != ACS::Success && r.error("late") != ACS::Success, "answered twice"); break;
      case 1: r.error("bad", CSErrorCode(55)); break;
      case 2: break;  // ignored
      case 3: {
        auto k = r.update<echo_request::output>(1000, "part");
        auto k2 = r.update<echo_request::output>(1001, "part");
        MC_CHECK(k == ACS::Success && k2 == k, "updates");
        r.respond(echo_request::make_output(in->get_n(), "end"));
      } break;
      default:
        r.onAborted([this] { inS("abort"); add("aborted"); }, se);
        kept.reset();
        kept = std::make_shared<Req<echo_request::input>>(std::move(r));
    }
  }
  template <class X> std::function<void(Resp<X>)> cb(int tag) {
    return [this, tag, keep = string("a capture long enough for the heap")](Resp<X> r) { MC_CHECK(keep.size() == 34, "callback lost what it captured"); inP("response"); add("r" + to_string(tag) + "=" + show(r)); };
  }
  void drain() { for (int i = 0; i < 8; ++i) { TY_SETTLE(); bool a = se->drain(); TY_SETTLE(); bool b = pe->drain(); TY_SETTLE(); if (!a && !b) return; } mc::violation("executors never idle"); }
  ~W() { kept.reset(); for (auto &l : local) l.first.disconnect(); stub->stopServing(); drain(); }
};
// what each registration of a kind sees, in order
void sees(W &w, char kind, const string &v, string &want) {
  for (size_t i = 0; i < w.kinds.size(); ++i) if (w.kinds[i] == kind) want += string(1, kind) + to_string(i) + "=" + v + " ";
}
void locals(W &w, char kind, const string &v, string &want) {
  for (size_t i = 0; i < w.local.size(); ++i) if (w.local[i].second == kind) want += "l" + to_string(i) + "=" + v + " ";
}
void ended(W &w) { w.kinds.assign(w.kinds.size(), '-'); }
}  // namespace

enum { Up, Down, SetA, SetSame, Drop, News, Tick, RegL, RegN, RegT, Unreg, Echo, EchoErr, EchoLost, EchoParts, EchoKept, Answer, Abort, Bare, Count, SyncOther, SyncPing, GetSync, GetAsync, Local, OpN };
static const char *opn[] = {"up", "down", "set", "setsame", "drop", "news", "tick", "regl", "regn", "regt", "unreg", "echo", "echoerr", "echolost", "echoparts", "echokept", "answer", "abort", "bare", "count", "sync", "ping", "get", "getasync", "local"};

static void step(W &w, int op, int k) {
  string want, swant;  // proxy side / stub side
  w.log.clear();
  auto st = ACS::FailedUnknown;
  auto lv = [&](int n) { return to_string(n) + "lv" + to_string(n); };
  auto tag = to_string(k);
  auto request = [&](int n) {
    auto before = w.kept;
    auto id = w.px->sendRequestAsync<echo_request::output>(echo_request::make_input(n, "in" + tag), w.cb<echo_request::output>(k), &st);
    MC_CHECK(id.valid() == w.up && st == (w.up ? ACS::Success : ACS::ServiceUnavailable), "request: status %d", int(st));
    if (w.up) swant += "got" + to_string(n) + "in" + tag + " ";
    return id;
  };
  switch (op) {
    case Up: if (w.up) mc::prune(); w.stub->startServing(); w.up = true; w.cache = -1; break;
    case Down:
      if (!w.up) mc::prune();
      w.stub->stopServing(); w.up = false; ended(w); w.pending = false;
      break;
    case SetA: case SetSame: {
      int n = op == SetA ? k : w.level;
      if (n < 0 || (op == SetA && n == w.level)) mc::prune();
      auto r = op == SetA && k % 2 ? w.stub->setStatus<level_property::status>(n, "lv" + to_string(n)) : w.stub->setStatus(level_property::make_status(n, "lv" + to_string(n)));
      if (op == SetSame) { MC_CHECK(r == ACS::NoAction, "setting the same"); break; }
      MC_CHECK(r == ACS::Success, "set: %d", int(r));
      w.level = n;
      if (w.subscribed()) w.cache = n;
      sees(w, 'L', lv(n), want); locals(w, 'L', lv(n), swant);
    } break;
    case Drop: {
      bool tell = k % 2;
      auto r = w.stub->removeProperty<level_property::status>(tell);
      MC_CHECK(r == ACS::Success, "remove");
      w.level = -1;
      if (tell && w.subscribed()) w.cache = -1;
      if (tell) { sees(w, 'L', "none", want); locals(w, 'L', "none", swant); }
    } break;
    case News: {
      vector<int> more(k % 3, k);
      if (k % 2) w.stub->broadcastSignal<news_signal::attributes>(k, more); else w.stub->broadcastSignal(news_signal::make_attributes(k, more));
      string v = to_string(k) + "x" + to_string(k % 3);
      sees(w, 'N', v, want); locals(w, 'N', v, swant);
    } break;
    case Tick: w.stub->broadcastSignal<tick_signal>(); sees(w, 'T', "t", want); locals(w, 'T', "t", swant); break;
    case RegL: case RegN: case RegT: {
      char c = "LNT"[op - RegL];
      int i = w.kinds.size();
      auto name = string(1, c) + to_string(i) + "=";
      RegID id;
      int second = !(k % 2);
      auto p = second ? w.px2 : w.px;
      if (op == RegL) id = p->registerStatus<level_property::status>([&w, name, second](const std::shared_ptr<level_property::status> &s) { w.inP("status", second); w.add(name + (s ? to_string(s->get_n()) + s->get_s() : "none")); }, &st);
      else if (op == RegN) id = p->registerSignal<news_signal::attributes>([&w, name, second](const std::shared_ptr<news_signal::attributes> &s) { w.inP("signal", second); w.add(name + (s ? to_string(s->get_n()) + "x" + to_string(s->get_more().size()) : "none")); }, &st);
      else id = p->registerSignal<tick_signal>([&w, name, second] { w.inP("void signal", second); w.add(name + "t"); }, &st);
      MC_CHECK(id.valid() == w.up, "registration while %s: status %d", w.up ? "up" : "down", int(st));
      w.regs.push_back(id);
      w.kinds += w.up ? c : '-';
      if (w.up && op == RegL) {
        int n = std::count(w.kinds.begin(), w.kinds.end(), 'L') > 1 ? w.cache : w.level;
        if (n >= 0) { want += name + lv(n) + " "; w.cache = n; }
      }
    } break;
    case Unreg: {
      if (w.kinds.empty()) mc::prune();
      size_t i = mc::choose(w.kinds.size(), "which");
      if (w.kinds[i] == '-') mc::prune();
      MC_CHECK(w.px->unregister(w.regs[i]) == ACS::Success, "unregister");
      bool level = w.kinds[i] == 'L';
      w.kinds[i] = '-';
      if (level && !w.subscribed()) w.cache = -1;
    } break;
    case Echo: request(5 * k); if (w.up) want += "r" + tag + "=" + to_string(5 * k) + "in" + tag + "! "; break;
    case EchoErr: request(5 * k + 1); if (w.up) want += "r" + tag + "=e55bad "; break;
    case EchoLost: request(5 * k + 2); if (w.up) want += "r" + tag + "=e" + to_string(int(CSErrorCode::ResponseIgnored)) + "? "; break;
    case EchoParts: request(5 * k + 3); if (w.up) want += "r" + tag + "=1000part r" + tag + "=1001part r" + tag + "=" + to_string(5 * k + 3) + "end "; break;
    case EchoKept: { if (w.kept) mc::prune(); w.keptId = request(5 * k + 4); w.keptTag = k; w.pending = true; if (!w.up) mc::prune(); } break;
    case Answer: {
      if (!w.kept) mc::prune();
      bool live = w.kept->valid();
      auto r = k % 2 ? w.kept->respond<echo_request::output>(9, "late") : w.kept->error("later", CSErrorCode(66));
      MC_CHECK((r == ACS::Success) == live, "late answer: %d", int(r));
      MC_CHECK(live || !w.pending, "a pending request became invalid");
      if (w.pending) want += "r" + to_string(w.keptTag) + (k % 2 ? "=9late " : "=e66later ");
      w.kept.reset();
      w.pending = false;
    } break;
    case Abort: {
      if (!w.kept || !w.kept->valid()) mc::prune();
      w.px->abortRequest(w.keptId, &st);
      TY_SETTLE();
      MC_CHECK(w.kept->valid() != w.pending, "request %s pending is %svalid after abort (status %d)", w.pending ? "" : "not", w.kept->valid() ? "" : "not ", int(st));
      if (w.pending) { swant += "aborted "; MC_CHECK(st == ACS::Success, "abort: %d", int(st)); }
      w.pending = false;
      break;
    }
    case Bare: {
      auto id = w.px->sendRequestAsync<bare_request>(w.cb<bare_request>(k), &st);
      if (w.up) { swant += "bare "; want += "r" + tag + "=ok "; } else MC_CHECK(!id.valid(), "accepted while down");
    } break;
    case Count: {
      int n = w.asked + 1;
      if (!w.up) mc::prune();
      w.px->sendRequestAsync<onlyout_request::output>(w.cb<onlyout_request::output>(k));
      if (w.up) want += "r" + tag + "=" + to_string(n) + " ";
    } break;
    case SyncOther: {
      int n = k % 2 ? k : -k - 1;
      auto r = w.px->sendRequest<other_request::output>(other_request::make_input(n), &st);
      if (!w.up) MC_CHECK(st == ACS::ServiceUnavailable && r.isError() && !r.isOutput(), "sync request to an absent service: %d", int(st));
      else if (n < 0) MC_CHECK(r.isError() && r.getError() && r.getError()->code() == CSErrorCode(77) && r.getError()->description() == "neg" && !r.getOutput(), "error reply");
      else MC_CHECK(st == ACS::Success && r.isOutput() && r.getOutput()->get_n() == 2 * n && !r.getError(), "reply to %d", n);
    } break;
    case SyncPing: {
      auto r = w.px->sendRequest<ping_request>(&st);
      if (!w.up) MC_CHECK(st == ACS::ServiceUnavailable && r.isError(), "sync request to an absent service: %d", int(st));
      else if (w.asked % 2) MC_CHECK(r.isError() && r.getError() && r.getError()->code() == CSErrorCode(78) && r.getError()->description() == "odd", "error reply");
      else MC_CHECK(st == ACS::Success && !r.isError() && r.isOutput(), "reply without parameters: status %d, error %d", int(st), r.isError());
    } break;
    case GetSync: {
      auto s = w.px->getStatus<level_property::status>(&st);
      int n = w.known();
      MC_CHECK(bool(s) == (n >= 0), "get: %d while %s, level %d", bool(s), w.up ? "up" : "down", w.level);
      if (s) MC_CHECK(s->get_n() == n && s->get_s() == "lv" + to_string(n), "got %d", s->get_n());
      auto mine = w.stub->getStatus<level_property::status>();
      MC_CHECK(bool(mine) == (w.level >= 0) && (!mine || mine->get_n() == w.level), "stub's own status");
      auto c = w.stub->cloneStatus<level_property::status>();
      MC_CHECK(c && c->get_n() == std::max(w.level, 0), "clone");
      if (mine) { c->set_n(99); MC_CHECK(w.stub->getStatus<level_property::status>()->get_n() == w.level, "a clone is the status itself"); }
    } break;
    case GetAsync: {
      auto r = w.px->getStatus<level_property::status>([&w, k](const std::shared_ptr<level_property::status> &s) { w.inP("get"); w.add("g" + to_string(k) + "=" + (s ? to_string(s->get_n()) + s->get_s() : "none")); });
      MC_CHECK((r == ACS::Success) == w.up, "async get: %d", int(r));
      want += "g" + tag + "=" + (w.known() >= 0 ? lv(w.known()) : "none") + " ";
    } break;
    case Local: {
      int i = w.local.size();
      char c = "LNT"[k % 3];
      auto name = "l" + to_string(i) + "=";
      if (c == 'L') w.local.push_back({w.stub->registerNotification<level_property::status>([&w, name](const std::shared_ptr<level_property::status> &s) { w.inS("local"); w.add(name + (s ? to_string(s->get_n()) + s->get_s() : "none")); }), c});
      else if (c == 'N') w.local.push_back({w.stub->registerNotification<news_signal::attributes>([&w, name](const std::shared_ptr<news_signal::attributes> &s) { w.inS("local"); w.add(name + to_string(s->get_n()) + "x" + to_string(s->get_more().size())); }), c});
      else w.local.push_back({w.stub->registerNotification<tick_signal>([&w, name] { w.inS("local"); w.add(name + "t"); }), c});
    } break;
  }
  MC_CHECK(w.log.empty(), "%s: called outside of the executors: %s", opn[op], w.log.c_str());
  w.drain();
  string all = swant + want, got = w.log;
  if (op == EchoLost) { auto p = got.find("=e" + to_string(int(CSErrorCode::ResponseIgnored))); auto e = all.find('?'); if (p != string::npos && e != string::npos) { got = got.substr(0, p); all = all.substr(0, all.find("=e")); } }
  MC_CHECK(got == all, "%s %d: saw '%s', expected '%s'", opn[op], k, got.c_str(), all.c_str());
  MC_CHECK(w.px->serviceStatus() == (w.up ? Availability::Available : Availability::Unavailable) || !w.up, "status");
}
static void history(int first, int steps) {
  W w;
  if (first) { step(w, Up, 0); }
  for (int i = 0; i < steps; ++i) step(w, mc::choose(OpN, "op"), i + 1);
}
