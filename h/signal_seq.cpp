// P07: every history of connection and emission operations on a signal,
// slots that use the signal included, against a reference model.
#include <maf/utils/DirectExecutor.h>
#include <maf/utils/SignalSlots.h>
#include "util.h"
#include <deque>
#include <functional>
#include <optional>
#include <set>
using namespace maf::signal_slots;
using std::string;
using std::shared_ptr;
using std::make_shared;

struct Direct : maf::util::ExecutorIF {
  int n = 0;
  // what a slot throws stays with the executor
  bool execute(CallbackType cb) noexcept override { ++n; try { cb(); } catch (...) {} return true; }
};
struct Queued : maf::util::ExecutorIF {
  std::deque<CallbackType> q;
  bool execute(CallbackType cb) noexcept override { q.push_back(std::move(cb)); return true; }
  void run() { while (!q.empty()) { auto f = std::move(q.front()); q.pop_front(); f(); } }
};
struct Boom {};

enum Script { NOTHING, OFF_SELF, OFF_NEXT, OFF_PREV, OFF_ALL, ADD, ADD_OFF, THROW, KILL_NEXT, READD_SELF, NSCRIPT };
enum Kind { PLAIN, TRACKED, AWARE, EXEC, METHOD, SHMETHOD, SHFUNC, TRACKED_EXEC, AWARE_EXEC, NKIND };

template <class Sig, bool SINGLE> struct World {
  using CP = ConnectionPtr;
  std::optional<Sig> sig;
  std::recursive_mutex mtx;
  string log;
  struct Obj {
    World *w; int id;
    void m(int a, string b) { w->called(id, a, b); }
    void operator()(int a, string b) { w->called(id, a, b); }
  };
  struct Slot {
    int kind, script;
    Connection con;
    shared_ptr<Obj> obj;  // tracked / receiver
    CP aware;
    bool fired = false;
    enum { NEVER, ON, OFF } st = NEVER;  // OFF: disconnected through `con`, reconnectable
    bool dead = false;        // tracked object gone
    bool held = false;        // con holds the slot (disconnected through con)
  };
  std::deque<Slot> slots;
  std::vector<int> order;  // model: connected, in order
  // model of the running emission
  bool emitting = false;
  std::vector<int> snap;
  size_t at = 0;
  int arg = 0;
  int budget = 3;
  shared_ptr<Direct> direct = make_shared<Direct>();

  template <class S = Sig> void make() {
    if constexpr (std::is_constructible_v<S, maf::threading::MutexReference<std::recursive_mutex>>)
      sig.emplace(maf::threading::mutexRef(mtx));
    else
      sig.emplace();
  }
  World() { make(); }

  bool isOn(int id) { return std::find(order.begin(), order.end(), id) != order.end(); }
  void offModel(int id) { order.erase(std::remove(order.begin(), order.end(), id), order.end()); }
  // next slot the emission has to call; dead tracked ones drop out
  int expected() {
    while (at < snap.size()) {
      int id = snap[at];
      if (alive[id] != gen[at]) { ++at; continue; }
      if (slots[id].dead) { ++at; offModel(id); continue; }
      return id;
    }
    return -1;
  }
  std::vector<int> alive, gen;  // connection generation per slot / in the snapshot

  void called(int id, int a, const string &b) {
    MC_CHECK(emitting, "%s: slot %d called outside an emission", log.c_str(), id);
    int want = expected();
    MC_CHECK(want == id, "%s: slot %d called, expected %d", log.c_str(), id, want);
    MC_CHECK(a == arg && b == "v" + std::to_string(arg), "%s: slot %d got (%d,%s), emitted %d", log.c_str(), id, a, b.c_str(), arg);
    ++at;
    int s = slots[id].script;
    if (s == NOTHING || budget-- <= 0) return;
    log += "{" + std::to_string(id) + ":";
    switch (s) {
      case OFF_SELF: off(id); break;
      case OFF_NEXT: if (id + 1 < (int)slots.size()) off(id + 1); break;
      case OFF_PREV: if (id > 0) off(id - 1); break;
      case OFF_ALL: offAll(); break;
      case ADD: add(PLAIN, NOTHING); break;
      case ADD_OFF: off(id); add(AWARE, NOTHING); break;
      case THROW: log += "}"; throw Boom();
      case KILL_NEXT: if (id + 1 < (int)slots.size()) kill(id + 1); break;
      case READD_SELF: off(id); on(id); break;
    }
    check();
    log += "}";
  }
  void add(int kind, int script) {
    int id = (int)slots.size();
    slots.emplace_back();
    alive.push_back(0);
    auto &s = slots.back();
    s.kind = kind;
    s.script = script;
    log += " +" + std::to_string(id) + "k" + std::to_string(kind) + "s" + std::to_string(script);
    auto fn = [this, id](const int &a, const string &b) { called(id, a, b); };
    switch (kind) {
      case PLAIN: s.con = sig->connect(fn); break;
      case TRACKED: s.obj = make_shared<Obj>(Obj{this, id}); s.con = sig->connect(shared_ptr<void>(s.obj), fn); break;
      case AWARE:
        s.con = sig->connect([this, id](CP c, const int &a, const string &b) {
          slots[id].aware = c;
          MC_CHECK(c && c->connected(), "connection given to slot %d is not connected", id);
          called(id, a, b);
        });
        break;
      case AWARE_EXEC:
        s.con = sig->connect([this, id](CP c, const int &a, const string &b) {
          slots[id].aware = c;
          called(id, a, b);
        }, direct);
        break;
      case EXEC: s.con = sig->connect(fn, direct); break;
      case TRACKED_EXEC: s.obj = make_shared<Obj>(Obj{this, id}); s.con = sig->connect(shared_ptr<void>(s.obj), fn, direct); break;
      case METHOD: s.obj = make_shared<Obj>(Obj{this, id}); s.con = sig->connect(s.obj.get(), &Obj::m); break;
      case SHMETHOD: s.obj = make_shared<Obj>(Obj{this, id}); s.con = sig->connect(s.obj, &Obj::m); break;
      case SHFUNC: s.obj = make_shared<Obj>(Obj{this, id}); s.con = sig->connect(s.obj); break;
    }
    // the model
    if (!SINGLE || order.empty()) {
      // a single-slot signal keeps a dead tracked slot until it is emitted
      order.push_back(id);
      ++alive[id];
      s.st = Slot::ON;
    }
  }
  bool tracked(int k) { return k == TRACKED || k == SHMETHOD || k == SHFUNC || k == TRACKED_EXEC; }
  void kill(int id) {
    auto &s = slots[id];
    if (!tracked(s.kind) || s.dead) return;
    log += " kill" + std::to_string(id);
    s.dead = true;
    s.obj.reset();
  }
  void off(int id) {
    auto &s = slots[id];
    log += " -" + std::to_string(id);
    bool was = isOn(id);
    bool r;
    // through the connection given to the slot or the one kept by the user
    if (s.aware && id % 2) { r = s.aware->disconnect(); s.held = r; if (r) viaAware(id); }
    else { r = s.con.disconnect(); if (r) s.st = Slot::OFF; }
    MC_CHECK(r == was, "%s: disconnect of slot %d says %d", log.c_str(), id, r);
    if (was) { offModel(id); ++alive[id]; }
  }
  void viaAware(int id) { slots[id].st = Slot::OFF; }
  void on(int id) {
    auto &s = slots[id];
    log += " re" + std::to_string(id);
    bool r = s.aware && id % 2 ? s.aware->reconnect() : s.con.reconnect();
    bool can = s.st == Slot::OFF && !isOn(id) && (!SINGLE || order.empty());
    MC_CHECK(r == can, "%s: reconnect of slot %d says %d", log.c_str(), id, r);
    if (can) { order.push_back(id); ++alive[id]; s.st = Slot::ON; }
    else if (s.st == Slot::OFF) s.st = Slot::NEVER;  // a failed reconnection gives the slot up
  }
  void offAll() {
    log += " clear";
    sig->disconnect();
    for (int id : order) { ++alive[id]; slots[id].st = Slot::NEVER; }
    order.clear();
  }
  void emit() {
    log += " emit";
    ++arg;
    emitting = true;
    snap = order;
    gen.clear();
    for (int id : snap) gen.push_back(alive[id]);
    at = 0;
    bool threw = false, expThrow = false;
    int before = -1;
    try {
      (*sig)(arg, "v" + std::to_string(arg));
    } catch (Boom &) {
      threw = true;
    }
    emitting = false;
    if (!threw) {
      int e = expected();
      MC_CHECK(e < 0, "%s: slot %d was not called", log.c_str(), e);
    }
    (void)expThrow; (void)before;
  }
  void check() {
    int dead = 0;
    for (int id : order) dead += slots[id].dead;
    size_t n = sig->connectionCount();
    MC_CHECK(n >= order.size() - dead && n <= order.size(), "%s: connectionCount %zu, expected %zu", log.c_str(), n, order.size());
    if (!dead) MC_CHECK(sig->connected() == !order.empty(), "%s: connected() is %d", log.c_str(), sig->connected());
    for (size_t i = 0; i < slots.size(); ++i)
      if (!slots[i].dead) {
        bool on = isOn((int)i);
        // a reconnection through the other handle is not known to this one
        auto &c = slots[i].aware && i % 2 ? *slots[i].aware : slots[i].con;
        MC_CHECK(c.connected() == on, "%s: connection %zu connected() is %d", log.c_str(), i, c.connected());
      }
  }
  void step(int o, int n) {
    // 0: emit 1: clear 2..: off/on/kill of the last slots
    switch (o) {
      case 0: emit(); break;
      case 1: offAll(); break;
      case 2: if (n >= 1) off(n - 1); break;
      case 3: if (n >= 2) off(n - 2); break;
      case 4: if (n >= 1) on(n - 1); break;
      case 5: if (n >= 2) on(n - 2); break;
      case 6: if (n >= 1) kill(n - 1); break;
      case 7: if (n >= 2) kill(n - 2); break;
    }
    check();
  }
};
template <class Sig, bool SINGLE> static void history(int len, int maxAdd) {
  World<Sig, SINGLE> w;
  // the first slots: kind by choice, script by choice
  int slots = 2 + mc::choose(maxAdd - 1, "slots");
  for (int i = 0; i < slots; ++i) {
    int s = mc::choose(NSCRIPT, "script");
    int k = i == 0 ? mc::choose(NKIND, "kind") : (s * 2 + i * 3) % NKIND;
    w.add(k, s);
    w.check();
  }
  for (int i = 0; i < len; ++i) w.step(mc::choose(8, "op"), slots);
  w.step(0, 0);
  mc::outcome(w.log);
}
#define HIST(name, SIG, SINGLE, QL, TL, QA, TA) \
  MC_SCENARIO(name, {.inproc = true}) { if (mc::thorough()) history<SIG, SINGLE>(TL, TA); else history<SIG, SINGLE>(QL, QA); }
using MultiST = single_thread::Signal<int, string>;
using SingleST = single_thread::SCSignal<int, string>;
using MultiTS = Signal<int, string>;
using SingleTS = SCSignal<int, string>;
using MultiSM = SharedMutexSignal<int, string>;
HIST(sig_multi_st, MultiST, false, 2, 3, 3, 3)
HIST(sig_single_st, SingleST, true, 3, 4, 2, 2)
HIST(sig_multi_ts, MultiTS, false, 4, 5, 2, 2)
HIST(sig_single_ts, SingleTS, true, 3, 4, 2, 2)
HIST(sig_multi_shared, MultiSM, false, 3, 3, 2, 3)

// histories that connect at any time, simple slots
template <class Sig, bool SINGLE> static void mixed(int len) {
  World<Sig, SINGLE> w;
  for (int i = 0; i < len; ++i) {
    int o = mc::choose(9, "op");
    if (o < 3) w.add(o == 0 ? PLAIN : o == 1 ? AWARE : TRACKED, NOTHING), w.check();
    else if (o < 8) w.step(o == 3 ? 0 : o - 1 - (o > 5), (int)w.slots.size());
    else w.step(6, (int)w.slots.size());
  }
  w.step(0, 0);
  mc::outcome(w.log);
}
MC_SCENARIO(sig_mixed, {.inproc = true}) {
  int len = mc::thorough() ? 7 : 6;
  if (mc::choose(2, "single")) mixed<SingleST, true>(len);
  else mixed<MultiTS, false>(len);
}
// a slot that disconnects through its own connection handle, at each position
MC_SCENARIO(sig_aware_self, {.inproc = true}) {
  MultiTS sig;
  std::vector<int> got;
  int n = 4, drop = mc::choose(n, "dropping slot"), on = mc::choose(3, "times called before");
  std::vector<Connection> cs;
  int times = 0;
  bool keep = mc::choose(2, "keep the handle");
  ConnectionPtr kept;
  for (int i = 0; i < n; ++i)
    cs.push_back(sig.connect([&, i](ConnectionPtr c, const int &, const string &) {
      got.push_back(i);
      if (i == drop && times++ == on) {
        MC_CHECK(c->disconnect() && !c->connected(), "not disconnected");
        if (keep) kept = c;
      }
    }));
  for (int e = 0; e < 4; ++e) {
    got.clear();
    sig(e, "");
    std::vector<int> want;
    for (int i = 0; i < n; ++i)
      if (i != drop || e <= on) want.push_back(i);
    MC_CHECK(got == want, "emission %d called %zu slots", e, got.size());
  }
  MC_CHECK(!cs[drop].connected() && sig.connectionCount() == 3, "still connected");
  if (keep) {
    MC_CHECK(kept->reconnect() && kept->connected(), "reconnect failed");
    got.clear();
    sig(9, "");
    MC_CHECK(got.size() == 4 && got.back() == drop, "reconnected slot is not the last");
  }
}
// scoped connections
MC_SCENARIO(sig_scoped, {.inproc = true}) {
  MultiTS a, b;
  std::vector<int> got;
  auto slot = [&](int i) { return [&got, i](int, string) { got.push_back(i); }; };
  std::vector<std::pair<int, int>> want;  // model: slot, signal
  auto offM = [&](int id) { want.erase(std::remove_if(want.begin(), want.end(), [&](auto &p) { return p.first == id; }), want.end()); };
  std::optional<ScopedConnection> s[2];
  std::optional<ScopedConnectionGroup> grp(std::in_place);
  std::vector<int> ins{-1, -1}, ing;
  string log;
  int next = 0;
  bool bLives = true;
  std::optional<MultiTS> c(std::in_place);
  for (int i = 0; i < (mc::thorough() ? 6 : 5); ++i) {
    int o = mc::choose(9, "op");
    log += " " + std::to_string(o);
    int id = next++;
    switch (o) {
      case 0: case 1:  // assign a new connection
        if (!s[o]) s[o].emplace();
        *s[o] = ScopedConnection(a.connect(slot(id)));
        if (ins[o] >= 0) offM(ins[o]);
        want.push_back({id, 0});
        ins[o] = id;
        break;
      case 2: s[0].reset(); offM(ins[0]); ins[0] = -1; break;
      case 3:
        if (s[0] && s[1]) { *s[0] = std::move(*s[1]); offM(ins[0]); ins[0] = ins[1]; ins[1] = -1; s[1].reset(); }
        break;
      case 4: *grp << a.connect(slot(id)); ing.push_back(id); want.push_back({id, 0}); break;
      case 5: if (c) { *grp << c->connect(slot(id)); ing.push_back(id); want.push_back({id, 2}); } break;
      case 6: grp.reset(); for (int g : ing) offM(g); ing.clear(); grp.emplace(); break;
      case 7: c.reset(); want.erase(std::remove_if(want.begin(), want.end(), [](auto &p) { return p.second == 2; }), want.end()); break;
      case 8: if (c) { grp->bind(*c).with(slot(id)); ing.push_back(id); want.push_back({id, 2}); } break;
    }
    for (int k : {0, 2}) {
      got.clear();
      if (k == 0) a(1, "");
      else if (c) (*c)(1, "");
      std::vector<int> w;
      for (auto &p : want) if (p.second == k) w.push_back(p.first);
      MC_CHECK(got == w, "%s: signal %d called %zu slots, expected %zu", log.c_str(), k, got.size(), w.size());
    }
  }
}
// chained signals
template <class A, class B> static void chain() {
  A a;
  std::optional<B> b(std::in_place);
  std::vector<int> got;
  std::vector<string> gv;
  auto slot = [&](int i) { return [&, i](int v, string t) { got.push_back(i); gv.push_back(t + std::to_string(v)); }; };
  std::vector<int> onA, onB;  // model; 100 = b
  std::optional<Connection> link;
  string log;
  int next = 0;
  for (int i = 0; i < (mc::thorough() ? 7 : 6); ++i) {
    int o = mc::choose(7, "op");
    log += " " + std::to_string(o);
    switch (o) {
      case 0: a.connect(slot(next)); onA.push_back(next++); break;
      case 1: if (b) { b->connect(slot(next)); onB.push_back(next++); } break;
      case 2: if (b && !link) { link = a.connect(*b); MC_CHECK(link->connected(), "not chained"); onA.push_back(100); } break;
      case 3: if (link) { link->disconnect(); link.reset(); onA.erase(std::remove(onA.begin(), onA.end(), 100), onA.end()); } break;
      case 4: b.reset(); onB.clear(); break;
      case 5: case 6: {
        got.clear();
        gv.clear();
        std::vector<int> w;
        if (o == 5) {
          a(i, "x");
          for (int x : onA) { if (x == 100) w.insert(w.end(), onB.begin(), onB.end()); else w.push_back(x); }
          if (!b) { onA.erase(std::remove(onA.begin(), onA.end(), 100), onA.end());
                    if (link) MC_CHECK(!link->connected(), "%s: chained to a destroyed signal", log.c_str()); }
        } else if (b) { (*b)(i, "x"); w = onB; }
        MC_CHECK(got == w, "%s: called %zu slots, expected %zu", log.c_str(), got.size(), w.size());
        for (auto &t : gv) MC_CHECK(t == "x" + std::to_string(i), "%s: wrong argument %s", log.c_str(), t.c_str());
        break;
      }
    }
  }
}
MC_SCENARIO(sig_chain, {.inproc = true}) {
  if (mc::choose(2, "which")) chain<MultiTS, MultiST>();
  else chain<MultiST, MultiTS>();
}
// destroying the signal in one of its slots, with what it keeps
MC_SCENARIO(sig_destroy_in_slot, {.inproc = true}) {
  auto sig = make_shared<MultiTS>();
  std::vector<int> got;
  int pos = mc::choose(3, "position"), kind = mc::choose(3, "kind");
  std::vector<Connection> cs;
  auto big = make_shared<string>(100, 'x');
  for (int i = 0; i < 3; ++i) {
    auto body = [&, i, mine = big](int, string) {
      got.push_back(i);
      if (i == pos) sig.reset();
      MC_CHECK(mine->size() == 100, "slot destroyed while it runs");
    };
    if (kind == 0) cs.push_back(sig->connect(body));
    if (kind == 1) cs.push_back(sig->connect(shared_ptr<void>(big), body));
    if (kind == 2) cs.push_back(sig->connect([body](ConnectionPtr, const int &a, const string &b) mutable { body(a, b); }));
  }
  auto raw = sig.get();
  (*raw)(1, "a");
  MC_CHECK((int)got.size() >= pos + 1 && (int)got.size() <= 3, "%zu calls", got.size());
  for (auto &c : cs) MC_CHECK(!c.connected() && !c.disconnect(), "connected to a destroyed signal");
}
// moving a signal moves its connections
MC_SCENARIO(sig_move, {.inproc = true}) {
  std::vector<int> got;
  MultiST a;
  auto c0 = a.connect([&](int, string) { got.push_back(0); });
  auto c1 = a.connect([&](int, string) { got.push_back(1); });
  MultiST b(std::move(a));
  if (mc::choose(2, "assign")) { MultiST d; d.connect([&](int, string) { got.push_back(9); }); d = std::move(b); b = std::move(d); }
  b(1, "");
  MC_CHECK(got == (std::vector<int>{0, 1}), "%zu calls", got.size());
  MC_CHECK(c0.disconnect() && c1.connected() && b.connectionCount() == 1, "connections lost");
  Connection moved(std::move(c1));
  MC_CHECK(moved.connected() && !c1.connected(), "moved connection");
  Connection other;
  other = std::move(moved);
  MC_CHECK(other.connected() && !moved.connected(), "assigned connection");
  MC_CHECK(other.disconnect() && !b.connected(), "disconnect");
  MC_CHECK(!other.disconnect() && other.reconnect() && !other.reconnect() && b.connected(), "reconnect");
}
// slots with an executor run through it only, with the emitted arguments
MC_SCENARIO(sig_executor, {.inproc = true}) {
  MultiTS sig;
  auto q = make_shared<Queued>();
  std::vector<string> got;
  std::vector<Connection> cs;
  struct R { std::vector<string> *g; void m(int a, string b) { g->push_back("m" + b + std::to_string(a)); } } r{&got};
  auto sr = make_shared<R>(r);
  int kind = mc::choose(5, "kind");
  auto fn = [&](int a, string b) { got.push_back("f" + b + std::to_string(a)); };
  auto trk = make_shared<int>(1);
  switch (kind) {
    case 0: cs.push_back(sig.connect(fn, q)); break;
    case 1: cs.push_back(sig.connect(shared_ptr<void>(trk), fn, q)); break;
    case 2: cs.push_back(sig.connect(&r, &R::m, q)); break;
    case 3: cs.push_back(sig.connect(sr, &R::m, q)); break;
    case 4: cs.push_back(sig.connect([&](ConnectionPtr, const int &a, const string &b) { fn(a, b); }, q)); break;
  }
  char k = kind == 2 || kind == 3 ? 'm' : 'f';
  std::vector<string> want, pend;
  for (int i = 0; i < 5; ++i) {
    int o = mc::choose(3, "emit/run/disconnect");
    if (o == 0) {
      sig(i, "a");
      if (cs[0].connected()) pend.push_back(string(1, k) + "a" + std::to_string(i));
    } else if (o == 1) {
      q->run();
      want.insert(want.end(), pend.begin(), pend.end());
      pend.clear();
    } else {
      // what is queued already may still run or not
      q->run();
      want.insert(want.end(), pend.begin(), pend.end());
      pend.clear();
      cs[0].disconnect();
    }
    MC_CHECK(got == want, "got %zu calls, expected %zu", got.size(), want.size());
  }
}
// waitable connections
MC_SCENARIO(sig_waitable, {.inproc = true}) {
  MultiTS sig;
  std::vector<int> got;
  auto w = waitableConnect(sig, std::function<void(const int &, const string &)>([&](int a, string) { got.push_back(a); }));
  MC_CHECK(w.valid(), "not connected");
  int emits = mc::choose(3, "emissions");
  for (int i = 0; i < emits; ++i) sig(10 + i, "");
  MC_CHECK(got.empty(), "called without waiting");
  if (emits) {
    MC_CHECK(mc::choose(2, "wait") ? w.wait() : w.waitFor(std::chrono::milliseconds(1)), "no value");
    MC_CHECK(got == std::vector<int>{10}, "%zu values", got.size());
    MC_CHECK(!w.wait() && !sig.connected(), "used twice");
  } else {
    MC_CHECK(!w.waitFor(std::chrono::milliseconds(1)) && got.empty(), "value without emission");
    if (int how = mc::choose(3, "give up")) {
      if (how == 1) w.cancel();
      else { auto gone = std::move(w); }
      MC_CHECK(!sig.connected() && sig.connectionCount() == 0, "still connected after it was given up");
      sig(1, "");
      MC_CHECK(got.empty(), "called without waiting");
      return;
    }
    sig.disconnect();
    MC_CHECK(!w.wait() && got.empty(), "value from a disconnected signal");
  }
}
