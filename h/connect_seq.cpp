// P05/P02, histories: every sequence of connection and posting operations of
// a processor driven step by step, against a reference model.
#include <maf/messaging/MsgConnectionGroup.h>
#include <maf/messaging/Processor.h>
#include <maf/messaging/Routing.h>
#include "util.h"
#include <chrono>
#include <deque>
#include <map>
#include <optional>
using namespace maf::messaging;
using std::string;
using std::vector;
template <int K> struct Msg { int v; };

// what a handler does when it is called
enum { NOTHING, DROP_SELF, DROP_NEXT, DROP_PREV, DROP_TYPE, ADD, POST_SAME, POST_OTHER, EXEC_IN, RECONNECT, NSCRIPT };

struct World {
  ProcessorInstance p = Processor::create();
  // model: handlers per type in connection order, id -> state
  struct H { int id, type, script; bool on; };
  std::vector<H> hs;
  std::map<int, std::vector<int>> order;   // type -> ids connected
  std::deque<std::pair<int, int>> pending; // (type or -1, value)
  std::vector<MsgConnection> cons;
  std::vector<string> real, want;
  string log;
  bool stopped = false;
  int next = 0;

  bool postReal(int type, int v) { return type ? p->post<Msg<1>>(v) : p->post<Msg<0>>(v); }
  template <int K> MsgConnection conn(int id) {
    return p->connect<Msg<K>>([this, id](const Msg<K> &m) { calledReal(id, K, m.v); });
  }
  int added = 0;
  void connectReal(int id, int type) {
    if ((int)cons.size() <= id) cons.resize(id + 1);
    cons[id] = type ? conn<1>(id) : conn<0>(id);
  }
  int addModel(int type, int script) {
    int id = (int)hs.size();
    hs.push_back({id, type, script, true});
    order[type].push_back(id);
    return id;
  }
  // --- the real handler performs its script on the real objects
  int budgetReal = 3, budgetModel = 3;
  int realNext = 0, base = 0;
  int nb(int id, int d) {  // neighbour of the same type by id
    for (int i = id + d; i >= 0 && i < base; i += d)
      if (hs[i].type == hs[id].type) return i;
    return -1;
  }
  void calledReal(int id, int type, int v) {
    real.push_back(std::to_string(id) + "(" + std::to_string(v) + ")");
    int s = hs[id].script;
    switch (s) {
      case DROP_SELF: cons[id].disconnect(); break;
      case DROP_NEXT: if (int n = nb(id, 1); n >= 0 && n < (int)cons.size()) cons[n].disconnect(); break;
      case DROP_PREV: if (int n = nb(id, -1); n >= 0) cons[n].disconnect(); break;
      case DROP_TYPE: type ? p->disconnect<Msg<1>>() : p->disconnect<Msg<0>>(); break;
      case ADD: if (budgetReal-- > 0) { connectReal(realNext, type); ++realNext; } break;
      case POST_SAME: if (budgetReal-- > 0) postReal(type, v + 10); break;
      case POST_OTHER: if (budgetReal-- > 0) postReal(1 - type, v + 20); break;
      case EXEC_IN: p->execute([this, id] { real.push_back("x" + std::to_string(id)); }); break;
      case RECONNECT: cons[id].disconnect(); cons[id].reconnect(); break;
    }
  }
  // --- the model
  bool on(int type) {
    for (int id : order[type]) if (hs[id].on) return true;
    return false;
  }
  bool postModel(int type, int v) {
    if (stopped || !on(type)) return false;
    pending.push_back({type, v});
    return true;
  }
  void drop(int id) {
    if (id < 0 || !hs[id].on) return;
    hs[id].on = false;
    auto &o = order[hs[id].type];
    o.erase(std::find(o.begin(), o.end(), id));
  }
  void handleModel(int type, int v) {
    auto snapshot = order[type];
    for (int id : snapshot) {
      if (std::find(order[type].begin(), order[type].end(), id) == order[type].end()) continue;
      if (skip.count(id)) continue;
      want.push_back(std::to_string(id) + "(" + std::to_string(v) + ")");
      switch (hs[id].script) {
        case DROP_SELF: drop(id); break;
        case DROP_NEXT: drop(nb(id, 1)); break;
        case DROP_PREV: drop(nb(id, -1)); break;
        case DROP_TYPE: for (int i : std::vector<int>(order[type])) { drop(i); } break;
        case ADD: if (budgetModel-- > 0) { addModel(type, NOTHING); } break;
        case POST_SAME: if (budgetModel-- > 0) postModel(type, v + 10); break;
        case POST_OTHER: if (budgetModel-- > 0) postModel(1 - type, v + 20); break;
        case EXEC_IN: if (!stopped) want.push_back("x" + std::to_string(id)); break;
        case RECONNECT: drop(id); hs[id].on = true; order[type].push_back(id); break;
      }
    }
  }
  std::map<int, int> skip;
  void same(const char *what) {
    if (real != want) {
      string a, b;
      for (auto &s : real) a += s + " ";
      for (auto &s : want) b += s + " ";
      mc::violation("%s: after %s called [%s], expected [%s]", log.c_str(), what, a.c_str(), b.c_str());
    }
  }
};

static void history(int depth, int ntypes, int maxh, bool scripts) {
  World w;
  auto conOf = [&](int id) -> MsgConnection & { return w.cons[id]; };
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(11, "op");
    w.log += " " + std::to_string(op);
    switch (op) {
      case 0: case 1: {  // connect
        int type = op % ntypes;
        if (op >= ntypes || (int)w.hs.size() >= maxh) mc::prune();
        int s = scripts ? mc::choose(NSCRIPT, "script") : 0;
        w.log += "s" + std::to_string(s);
        int id = w.addModel(type, s);
        w.realNext = w.base = (int)w.hs.size();
        w.connectReal(id, type);
        break;
      }
      case 2: case 3: {  // post
        int type = op - 2;
        if (type >= ntypes) mc::prune();
        int v = w.next++;
        bool r = w.postReal(type, v), e = w.postModel(type, v);
        MC_CHECK(r == e, "%s: post accepted %d, expected %d", w.log.c_str(), r, e);
        break;
      }
      case 4: {  // execute
        int v = 1000 + w.next++;
        bool r = w.p->executeAsync([&w, v] { w.real.push_back("e" + std::to_string(v)); });
        MC_CHECK(r == !w.stopped, "%s: executeAsync accepted %d", w.log.c_str(), r);
        if (r) w.pending.push_back({-1, v});
        break;
      }
      case 5: {  // run one
        // ids taken by handlers added while handling follow the existing ones
        w.realNext = w.base = (int)w.hs.size();
        bool r = w.p->runOnceFor(std::chrono::microseconds(10));
        bool e = !w.stopped && !w.pending.empty();
        MC_CHECK(r == e, "%s: runOnce returned %d", w.log.c_str(), r);
        if (e) {
          auto [t, v] = w.pending.front();
          w.pending.pop_front();
          if (t < 0) w.want.push_back("e" + std::to_string(v));
          else w.handleModel(t, v);
        }
        w.same("run");
        break;
      }
      case 6: case 7: {  // disconnect a connection
        int id = op - 6;
        if (id >= (int)w.hs.size()) mc::prune();
        conOf(id).disconnect();
        w.drop(id);
        break;
      }
      case 8: {  // reconnect
        int id = mc::choose(2, "id");
        if (id >= (int)w.hs.size() || w.hs[id].on) mc::prune();
        bool alive = false;
        for (auto &h : w.hs) (void)h;
        conOf(id).reconnect();
        if (conOf(id).connected()) { w.hs[id].on = true; w.order[w.hs[id].type].push_back(id); }
        (void)alive;
        break;
      }
      case 9: {  // disconnect a message
        w.p->disconnect<Msg<0>>();
        for (int id : std::vector<int>(w.order[0])) w.drop(id);
        break;
      }
      case 10:
        w.p->stop();
        w.stopped = true;
        w.pending.clear();
        break;
    }
    for (auto &h : w.hs)
      MC_CHECK(w.cons[h.id].connected() == h.on, "%s: handler %d connected() %d", w.log.c_str(), h.id, !h.on);
    for (int t = 0; t < ntypes; ++t) {
      bool c = t ? w.p->connected<Msg<1>>() : w.p->connected<Msg<0>>();
      MC_CHECK(c == w.on(t), "%s: connected<%d>() is %d", w.log.c_str(), t, c);
    }
    MC_CHECK(w.p->pendingCout() == w.pending.size(), "%s: %zu pending, expected %zu", w.log.c_str(), w.p->pendingCout(), w.pending.size());
    MC_CHECK(w.p->stopped() == w.stopped, "%s: stopped()", w.log.c_str());
  }
  string o;
  for (auto &s : w.real) o += s;
  mc::outcome(o);
}
MC_SCENARIO(connseq_plain, {.inproc = true}) { history(mc::thorough() ? 8 : 7, 2, 2, false); }
// two or three handlers of one type with scripts, then two posts
MC_SCENARIO(connseq_scripts, {.inproc = true}) {
  World w;
  int n = 2 + mc::choose(2, "handlers");
  for (int i = 0; i < n; ++i) {
    int type = i < 2 ? 0 : mc::choose(2, "type");
    int s = mc::choose(NSCRIPT, "script");
    w.log += " h" + std::to_string(type) + "s" + std::to_string(s);
    w.connectReal(w.addModel(type, s), type);
  }
  int direct = mc::choose(2, "posted/waitable inside");
  for (int k = 0; k < (mc::thorough() ? 3 : 2); ++k) {
    w.realNext = w.base = (int)w.hs.size();
    if (direct) {
      bool was = w.on(0), valid = false;
      w.p->executeAsync([&] { auto s = w.p->waitablePost<Msg<0>>(k); valid = s.valid(); if (valid) s.get(); });
      w.pending.push_back({-2, k});
      while (!w.pending.empty()) {
        w.realNext = w.base = (int)w.hs.size();
        MC_CHECK(w.p->runOnceFor(std::chrono::microseconds(10)), "nothing run");
        auto [t, v] = w.pending.front();
        w.pending.pop_front();
        if (t == -2) { if (w.on(0)) w.handleModel(0, v); }
        else w.handleModel(t, v);
        w.same("run");
      }
      (void)was;
    } else {
      MC_CHECK(w.postReal(0, k) == w.postModel(0, k), "%s: post", w.log.c_str());
      while (!w.pending.empty()) {
        w.realNext = w.base = (int)w.hs.size();
        MC_CHECK(w.p->runOnceFor(std::chrono::microseconds(10)), "nothing run");
        auto [t, v] = w.pending.front();
        w.pending.pop_front();
        w.handleModel(t, v);
        w.same("run");
      }
    }
    MC_CHECK(w.p->pendingCout() == 0, "pending");
    for (auto &h : w.hs)
      MC_CHECK(w.cons[h.id].connected() == h.on, "%s: handler %d connected() %d", w.log.c_str(), h.id, !h.on);
    MC_CHECK(w.p->connected<Msg<0>>() == w.on(0) && w.p->connected<Msg<1>>() == w.on(1), "%s: connected()", w.log.c_str());
  }
  string o;
  for (auto &s : w.real) o += s;
  mc::outcome(o);
}
// connections kept in a group: all of them go when the group is told so or goes
// out of scope, none before, and those that were disconnected alone stay so
MC_SCENARIO(connseq_group, {.inproc = true}) {
  auto p = Processor::create("");
  int n = mc::choose(mc::thorough() ? 5 : 4, "connections in the group");
  vector<int> got(n + 1, 0), expect(n + 1, 0), types(n + 1, 0);
  vector<bool> on(n + 1, true);
  string log = "group of " + std::to_string(n);
  auto connect = [&](int i) {
    types[i] = mc::choose(2, "type");
    log += types[i] ? "b" : "a";
    return types[i] ? p->connect<Msg<1>>([&got, i](const Msg<1> &) { ++got[i]; })
                    : p->connect<Msg<0>>([&got, i](const Msg<0> &) { ++got[i]; });
  };
  auto round = [&](const char *when) {
    for (int t = 0; t < 2; ++t) {
      bool any = false;
      for (int i = 0; i <= n; ++i)
        if (on[i] && types[i] == t) { any = true; ++expect[i]; }
      bool posted = t ? p->post<Msg<1>>(0) : p->post<Msg<0>>(0);
      bool connected = t ? p->connected<Msg<1>>() : p->connected<Msg<0>>();
      MC_CHECK(posted == any && connected == any, "%s, %s: posting type %d says %d, connected() %d, expected %d", log.c_str(), when, t, posted, connected, any);
      if (any) MC_CHECK(p->runOnceFor(std::chrono::microseconds(10)), "nothing run");
    }
    MC_CHECK(p->pendingCout() == 0, "%s, %s: something left", log.c_str(), when);
    for (int i = 0; i <= n; ++i)
      MC_CHECK(got[i] == expect[i], "%s, %s: handler %d called %d times, expected %d", log.c_str(), when, i, got[i], expect[i]);
  };
  auto alone = connect(n);
  {
    MsgConnectionGroup g;
    for (int i = 0; i < n; ++i) {
      if (mc::choose(2, "add / <<")) g << connect(i);
      else g.add(connect(i));
    }
    round("kept");
    switch (mc::choose(4, "end")) {
      case 0: log += " dropped"; break;
      case 1: g.disconnect(); log += " disconnected"; break;
      case 2: alone.disconnect(); on[n] = false; log += " other disconnected"; round("other gone"); break;
      default: {
        g.disconnect();
        for (int i = 0; i < n; ++i) on[i] = false;
        round("disconnected");
        g.disconnect();
        log += " disconnected twice";
      }
    }
  }
  for (int i = 0; i < n; ++i) on[i] = false;
  round("gone");
  MC_CHECK(alone.connected() == on[n], "%s: the one outside is %d", log.c_str(), !on[n]);
  mc::outcome(log);
}
