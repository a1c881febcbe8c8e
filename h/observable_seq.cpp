// P09/P10: histories of observables and compound observables against a model.
#include <maf/utils/Observable.h>
#include "util.h"
#include <deque>
#include <functional>
#include <optional>
#include <tuple>
namespace ss = maf::signal_slots;
using ss::Connection;
using std::string;
using std::to_string;
using std::tuple;
using std::vector;

struct Direct : maf::util::ExecutorIF {
  bool execute(CallbackType cb) noexcept override { cb(); return true; }
};
struct Queued : maf::util::ExecutorIF {
  std::deque<CallbackType> q;
  bool execute(CallbackType cb) noexcept override { q.push_back(std::move(cb)); return true; }
  void run() { while (!q.empty()) { auto f = std::move(q.front()); q.pop_front(); f(); } }
};
static string show(int v) { return to_string(v); }
static string show(const string &v) { return v; }
static string show(bool v) { return v ? "t" : "f"; }
static string show(double v) { return to_string(v); }
template <class... T> static string show(const tuple<T...> &t) {
  string s = "(";
  std::apply([&](auto &... x) { ((s += show(x) + ","), ...); }, t);
  return s + ")";
}

// observers of one observable and what they should have seen
struct Watch {
  struct O { Connection con; vector<string> got, want; bool on = true; std::shared_ptr<int> trk; };
  std::deque<O> os;
  string value;  // model
  bool single = false;
  template <class Obs> void add(Obs &o, int kind) {
    using V = typename Obs::State;
    os.emplace_back();
    size_t i = os.size() - 1;
    bool taken = false;
    if (single)
      for (size_t k = 0; k < i; ++k) taken |= os[k].on;
    if (taken) os[i].on = false;
    auto f = std::function<void(const V &)>([this, i](const V &v) { os[i].got.push_back(show(v)); });
    // 0 notified at once with the value, 1 silent, 2 disconnects itself when it
    // sees its second value, 3 tracked
    if (kind == 1) os[i].con = o.silentlyConnect(f);
    else if (!taken) os[i].want.push_back(value);
    if (kind == 0) os[i].con = o.connect(f);
    if (kind == 2) os[i].con = o.connect(std::function<void(const V &)>([this, i](const V &v) {
      os[i].got.push_back(show(v));
      if (os[i].got.size() == 2) os[i].con.disconnect();
    })), os[i].trk = nullptr, selfOff.push_back(i);
    if (kind == 3) { os[i].trk = std::make_shared<int>(0); addTracked(o, i, f); }
  }
  vector<size_t> selfOff;
  template <class Obs, class F> void addTracked(Obs &o, size_t i, F f) { os[i].con = o.connect(f); }
  void changed(const string &v) {
    if (v == value) return;
    value = v;
    for (size_t i = 0; i < os.size(); ++i) {
      if (!os[i].on) continue;
      os[i].want.push_back(v);
      if (std::count(selfOff.begin(), selfOff.end(), i) && os[i].want.size() == 2) os[i].on = false;
    }
  }
  void silently(const string &v) { value = v; }
  void off(size_t i) {
    if (i >= os.size()) return;
    bool r = os[i].con.disconnect();
    MC_CHECK(r == os[i].on, "disconnect says %d", r);
    os[i].on = false;
  }
  void allOff() { for (auto &o : os) o.on = false; }
  void check(const string &log, const char *who) {
    for (size_t i = 0; i < os.size(); ++i) {
      auto join = [](const vector<string> &v) { string s; for (auto &x : v) s += x + " "; return s; };
      MC_CHECK(os[i].got == os[i].want, "%s: %s observer %zu got [%s], expected [%s]", log.c_str(), who, i, join(os[i].got).c_str(), join(os[i].want).c_str());
      MC_CHECK(os[i].con.connected() == os[i].on, "%s: %s observer %zu connected() is %d", log.c_str(), who, i, os[i].con.connected());
    }
  }
};

template <class Obs> static void intHistory(bool single, int len) {
  Obs o;
  Watch w;
  w.single = single;
  int v = 0;
  w.value = show(v);
  string log;
  if (mc::choose(2, "initial value")) { o.set(5); v = 5; w.changed(show(v)); }
  auto apply = [&](int n) { v = n; w.changed(show(v)); };
  for (int i = 0; i < len; ++i) {
    int op = mc::choose(15, "op");
    log += " " + to_string(op);
    switch (op) {
      case 0: case 1: case 2: w.add(o, op); break;
      case 3: w.off(0); break;
      case 4: w.off(1); break;
      case 5: o.set(1); apply(1); break;
      case 6: o = 2; apply(2); break;
      case 7: { int r = ++o; apply(v + 1); MC_CHECK(r == v, "++ gave %d", r); break; }
      case 8: { int r = o++; MC_CHECK(r == v, "++ gave %d", r); apply(v + 1); break; }
      case 9: { int r = (o += 2); apply(v + 2); MC_CHECK(r == v, "+= gave %d", r); break; }
      case 10: { auto m = o.mutable_(); *m = 7; *m = v; } break;   // changed and changed back
      case 11: { auto m = o.mutable_(); *m += 3; *m *= 2; } apply((v + 3) * 2); break;
      case 12: o.disconnect(); w.allOff(); break;
      case 13: { auto m = o.mutable_(); MC_CHECK(*m == v, "mutable sees %d", *m); } break;
      case 14: { auto m = o.silentMutable(); *m = 6; } v = 6; w.silently(show(v)); break;
    }
    MC_CHECK(o.get() == v && *o.immutable() == v, "%s: value %d, expected %d", log.c_str(), o.get(), v);
    w.check(log, "int");
  }
  mc::outcome(log);
}
MC_SCENARIO(obs_int_st, {.inproc = true}) { intHistory<ss::st::Observable<int>>(false, mc::thorough() ? 6 : 5); }
MC_SCENARIO(obs_int_mt, {.inproc = true}) { intHistory<ss::mt::Observable<int>>(false, mc::thorough() ? 5 : 4); }
MC_SCENARIO(obs_int_sc, {.inproc = true}) {
  if (mc::choose(2, "mt")) intHistory<ss::mt::SCObservable<int>>(true, mc::thorough() ? 5 : 4);
  else intHistory<ss::st::SCObservable<int>>(true, mc::thorough() ? 5 : 4);
}
// every arithmetic operator
MC_SCENARIO(obs_arith, {.inproc = true}) {
  static const int vals[] = {0, 1, 2, 3, 7, 12, 255, 1000};
  int a = vals[mc::choose(8, "a")], b = vals[mc::choose(8, "b")], op = mc::choose(12, "op");
  ss::mt::Observable<int> o;
  o.set(a);
  vector<int> got;
  o.silentlyConnect([&](int v) { got.push_back(v); });
  int want = a, r = 0;
  if ((op == 3 || op == 4) && b == 0) mc::prune();
  if ((op == 7 || op == 8) && b > 12) mc::prune();
  switch (op) {
    case 0: r = (o += b); want = a + b; break;
    case 1: r = (o -= b); want = a - b; break;
    case 2: r = (o *= b); want = a * b; break;
    case 3: r = (o /= b); want = a / b; break;
    case 4: r = (o %= b); want = a % b; break;
    case 5: r = (o |= b); want = a | b; break;
    case 6: r = (o &= b); want = a & b; break;
    case 7: r = (o <<= b); want = a << b; break;
    case 8: r = (o >>= b); want = a >> b; break;
    case 9: r = (o ^= b); want = a ^ b; break;
    case 10: r = ++o; want = a + 1; break;
    case 11: r = o++; want = a + 1; break;
  }
  MC_CHECK(r == (op == 11 ? a : want) && o.get() == want, "operator %d on %d, %d gave %d, value %d", op, a, b, r, o.get());
  MC_CHECK(got == (want != a ? vector<int>{want} : vector<int>{}), "%zu notifications", got.size());
}
template <class Obs> static void strHistory(int len) {
  Obs o;
  Watch w;
  string v, log;
  w.value = v;
  for (int i = 0; i < len; ++i) {
    int op = mc::choose(9, "op");
    log += " " + to_string(op);
    switch (op) {
      case 0: case 1: case 2: w.add(o, op); break;
      case 3: w.off(0); break;
      case 4: o.set("a"); w.changed(v = "a"); break;
      case 5: o = string("b"); w.changed(v = "b"); break;
      case 6: o.mutable_()->append("x"); v += "x"; w.changed(v); break;
      case 7: { auto m = o.mutable_(); m->append("y"); m->clear(); } v = ""; w.changed(v); break;
      case 8: MC_CHECK(o->size() == v.size(), "size"); break;
    }
    MC_CHECK(o.get() == v, "%s: value %s", log.c_str(), o.get().c_str());
    w.check(log, "string");
  }
}
MC_SCENARIO(obs_string, {.inproc = true}) {
  if (mc::choose(2, "mt")) strHistory<ss::mt::Observable<string>>(mc::thorough() ? 6 : 5);
  else strHistory<ss::st::Observable<string>>(mc::thorough() ? 6 : 5);
}
template <class Obs> static void pairHistory(int len) {
  Obs o;
  Watch w;
  tuple<int, string> v;
  w.value = show(v);
  string log;
  auto now = [&] { w.changed(show(v)); };
  for (int i = 0; i < len; ++i) {
    int op = mc::choose(17, "op");
    log += " " + to_string(op);
    switch (op) {
      case 0: case 1: case 2: w.add(o, op); break;
      case 3: w.off(0); break;
      case 4: o.set(1, "a"); v = {1, "a"}; now(); break;
      case 5: o.set(2, "a"); v = {2, "a"}; now(); break;
      case 6: o.template set<0>(3); std::get<0>(v) = 3; now(); break;
      case 7: o.template set<1>("b"); std::get<1>(v) = "b"; now(); break;
      case 8: o.template set<1, 0>("c", 1); v = {1, "c"}; now(); break;
      case 9: { auto m = o.mutable_(); m.template get<0>() += 1; m.template get<1>() += "z"; } std::get<0>(v) += 1; std::get<1>(v) += "z"; now(); break;
      case 10: { auto m = o.template mutable_<1>(); *m += "q"; } std::get<1>(v) += "q"; now(); break;
      case 11: o = v; break;
      case 12: { auto m = o.mutable_(); m.template get<1>() = "m"; } std::get<1>(v) = "m"; now(); break;
      case 13: { auto m = o.template mutable_<0>(); m += 4; } std::get<0>(v) += 4; now(); break;
      case 14: o.silentSet(7, "s"); v = {7, "s"}; w.silently(show(v)); break;
      case 15: o.template silentSet<1>("t"); std::get<1>(v) = "t"; w.silently(show(v)); break;
      case 16: o.template silentSet<0>(8); std::get<0>(v) = 8; w.silently(show(v)); break;
    }
    MC_CHECK(o.get() == v && o.template get<0>() == std::get<0>(v) && o.template get<1>() == std::get<1>(v), "%s: value %s", log.c_str(), show(o.get()).c_str());
    w.check(log, "pair");
  }
}
MC_SCENARIO(obs_pair, {.inproc = true}) {
  if (mc::choose(2, "mt")) pairHistory<ss::mt::Observable<int, string>>(mc::thorough() ? 5 : 4);
  else pairHistory<ss::st::Observable<int, string>>(mc::thorough() ? 5 : 4);
}
// constructed with values, moved, sharing a mutex; what an observer reads while it is told
template <class Obs> static void tell(Obs &o, tuple<int, string> v) {
  vector<tuple<int, string>> got;
  auto f = [&](int a, const string &b) {
    got.push_back({a, b});
    MC_CHECK(o.get() == tuple(a, b) && o.template get<1>() == b, "told %d%s, reads %s", a, b.c_str(), show(o.get()).c_str());
  };
  MC_CHECK(o.get() == v, "starts as %s, given %s", show(o.get()).c_str(), show(v).c_str());
  Connection c = mc::choose(2, "silently") ? o.silentlyConnect(f) : (got.clear(), o.connect(f));
  if (!got.empty()) MC_CHECK(got == vector{v}, "told %s at first", show(got[0]).c_str());
  got.clear();
  switch (mc::choose(5, "change")) {
    case 0: o.set(40, "x"); v = {40, "x"}; break;
    case 1: o.template set<0>(41); std::get<0>(v) = 41; break;
    case 2: { auto m = o.mutable_(); m.template get<1>() += "y"; } std::get<1>(v) += "y"; break;
    case 3: { auto m = o.template mutable_<1>(); *m += "z"; } std::get<1>(v) += "z"; break;
    case 4: o = tuple<int, string>(42, "w"); v = {42, "w"}; break;
  }
  MC_CHECK(got == vector{v} && o.get() == v, "%zu notifications, value %s, expected %s", got.size(), show(o.get()).c_str(), show(v).c_str());
  MC_CHECK(c.disconnect() && !c.connected(), "disconnect");
}
MC_SCENARIO(obs_made, {.inproc = true}) {
  std::recursive_mutex m;
  using maf::threading::mutexRef;
  switch (mc::choose(7, "how")) {
    case 0: { ss::mt::Observable<int, string> o(3, "c"); tell(o, {3, "c"}); break; }
    case 1: { ss::st::Observable<int, string> o(3, "c"); tell(o, {3, "c"}); break; }
    case 2: { ss::SharedMutexObservable<int, string> o(mutexRef(m), 3, "c"); tell(o, {3, "c"}); break; }
    case 3: { ss::SharedMutexObservable<int, string> o(mutexRef(m)); tell(o, {0, ""}); break; }
    case 4: { ss::mt::Observable<int, string> o(3, "c"); auto p = std::move(o); tell(p, {3, "c"}); break; }
    case 5: { ss::mt::Observable<int, string> o(3, "c"), p; p = std::move(o); tell(p, {3, "c"}); break; }
    case 6: {
      ss::mt::Observable<int> o(9);
      vector<int> got;
      auto c = o.connect([&](int x) { got.push_back(x); MC_CHECK(o.get() == x, "told %d, reads %d", x, o.get()); });
      MC_CHECK(o.get() == 9 && got == vector<int>{9}, "constructed with 9, is %d", o.get());
      o.set(8);
      o = 7;
      MC_CHECK(got == (vector<int>{9, 8, 7}), "notifications");
    } break;
  }
}
// observers that connect and disconnect observers, in each position
MC_SCENARIO(obs_reentrant, {.inproc = true}) {
  ss::mt::Observable<int> o;
  vector<vector<int>> got(4);
  vector<Connection> con(4);
  int who = mc::choose(3, "actor"), act = mc::choose(5, "action"), target = mc::choose(3, "target");
  bool done = false;
  for (int i = 0; i < 3; ++i)
    con[i] = o.silentlyConnect([&, i](int v) {
      got[i].push_back(v);
      if (i != who || done) return;
      done = true;
      if (act == 0) con[target].disconnect();
      if (act == 1) con[3] = o.connect([&](int x) { got[3].push_back(x); });
      if (act == 2) con[3] = o.silentlyConnect([&](int x) { got[3].push_back(x); });
      if (act == 3) o.disconnect();
      if (act == 4) MC_CHECK(o.get() == v, "value %d in the notification of %d", o.get(), v);
    });
  o = 1;
  o = 2;
  o = 2;
  for (int i = 0; i < 3; ++i) {
    vector<int> w{1, 2};
    if (act == 0 && i == target) w = i <= who ? vector<int>{1} : vector<int>{};
    if (act == 3) w = i <= who ? vector<int>{1} : vector<int>{};
    MC_CHECK(got[i] == w, "observer %d: %zu notifications", i, got[i].size());
  }
  vector<int> w = act == 1 ? vector<int>{1, 2} : act == 2 ? vector<int>{2} : vector<int>{};
  MC_CHECK(got[3] == w, "new observer: %zu notifications", got[3].size());
}

// ---------------------------------------------------------------- compounds
template <class A, class B, class E, class J, class JJ>
static void compound(J mk, JJ mk2, int len, std::shared_ptr<Queued> q) {
  std::optional<A> a(std::in_place);
  std::optional<B> b(std::in_place);
  E e;
  int va = 0, ve = 0;
  string vb, log;
  if (mc::choose(2, "initial values")) { a->set(4); b->set("i"); va = 4; vb = "i"; }
  auto c = mk(*a, *b);
  using C = std::decay_t<decltype(*c)>;
  auto d = mk2(*c, e);
  Watch wc, wd;
  auto flush = [&] { if (q) q->run(); };
  auto vc = [&] { return tuple<int, string>(va, vb); };
  auto vd = [&] { return tuple<tuple<int, string>, int>(vc(), ve); };
  wc.value = show(vc());
  wd.value = show(vd());
  // from the start, whatever runs the updates
  MC_CHECK(c->get() == vc(), "a new compound holds %s, parts %s", show(c->get()).c_str(), show(vc()).c_str());
  MC_CHECK(d->get() == vd(), "a new compound of compound holds %s, parts %s", show(d->get()).c_str(), show(vd()).c_str());
  flush();
  bool live = true, dlive = true;  // compound d still gets updates from c
  auto upd = [&] { if (c) wc.changed(show(vc())); if (d && c) wd.changed(show(vd())); };
  tuple<int, string> lastC = vc();
  for (int i = 0; i < len; ++i) {
    int op = mc::choose(13, "op");
    log += " " + to_string(op);
    switch (op) {
      case 0: if (a) { a->set(1); va = 1; } break;
      case 1: if (a) { ++*a; ++va; } break;
      case 2: if (b) { b->set("x"); vb = "x"; } break;
      case 3: if (b) { b->mutable_()->append("y"); vb += "y"; } break;
      case 4: e.set(9); ve = 9; break;
      case 5: if (c) wc.add(*c, 0); break;
      case 6: if (c) wc.add(*c, 2); break;
      case 7: if (d) wd.add(*d, 0); break;
      case 8: wc.off(0); break;
      case 9: d.reset(); wd.allOff(); break;
      case 10: flush(); d.reset(); c.reset(); wc.allOff(); wd.allOff(); break;  // d would hold a dead part
      case 11: a.reset(); break;
      case 12: if (c) { auto c2 = std::make_unique<C>(std::move(*c)); c = std::move(c2); } break;
    }
    (void)live; (void)dlive; (void)lastC;
    flush();
    upd();
    if (c) MC_CHECK(c->get() == vc() && c->template get<0>() == va && c->template get<1>() == vb, "%s: compound holds %s, parts %s", log.c_str(), show(c->get()).c_str(), show(vc()).c_str());
    if (d) MC_CHECK(d->get() == vd(), "%s: compound of compound holds %s", log.c_str(), show(d->get()).c_str());
    if (a) MC_CHECK(a->get() == va, "part changed");
    if (b) MC_CHECK(b->get() == vb, "part changed");
    MC_CHECK(e.get() == ve, "part changed");
    wc.check(log, "compound");
    wd.check(log, "outer compound");
  }
  size_t na = a ? a->connectionCount() : 0, nb = b ? b->connectionCount() : 0;
  if (c) MC_CHECK((!a || na == 1) && nb == 1, "%zu,%zu connections on the parts", na, nb);
  else MC_CHECK(na == 0 && nb == 0 && e.connectionCount() == 0, "%s: dropped compound still connected", log.c_str());
  mc::outcome(log);
}
template <class T> std::unique_ptr<T> up(T &&t) = delete;
#define MAKER(JOIN, ...) [&](auto &x, auto &y) { using T = decltype(JOIN(x, y)); return std::unique_ptr<T>(new T(JOIN(__VA_ARGS__ x, y))); }
#define COMMA ,
MC_SCENARIO(comp_st, {.inproc = true}) {
  compound<ss::st::Observable<int>, ss::st::Observable<string>, ss::st::Observable<int>>(MAKER(ss::st::join), MAKER(ss::st::join), mc::thorough() ? 6 : 5, nullptr);
}
MC_SCENARIO(comp_mt, {.inproc = true}) {
  compound<ss::mt::Observable<int>, ss::mt::Observable<string>, ss::mt::Observable<int>>(MAKER(ss::mt::join), MAKER(ss::mt::join), mc::thorough() ? 5 : 4, nullptr);
}
MC_SCENARIO(comp_executor, {.inproc = true}) {
  auto q = std::make_shared<Queued>();
  const maf::util::ExecutorIFPtr ex = q;
  if (mc::choose(2, "direct")) {
    const maf::util::ExecutorIFPtr di = std::make_shared<Direct>();
    compound<ss::mt::Observable<int>, ss::mt::Observable<string>, ss::mt::Observable<int>>(MAKER(ss::mt::join, di COMMA), MAKER(ss::mt::join, di COMMA), mc::thorough() ? 5 : 4, nullptr);
  } else
    compound<ss::mt::Observable<int>, ss::mt::Observable<string>, ss::mt::Observable<int>>(MAKER(ss::mt::join, ex COMMA), MAKER(ss::mt::join, ex COMMA), mc::thorough() ? 5 : 4, q);
}
// mixed part kinds; three and four parts; every order of changes
MC_SCENARIO(comp_many, {.inproc = true}) {
  ss::mt::Observable<int> a, b;
  ss::mt::Observable<string> s;
  ss::mt::Observable<int, string> p;
  bool four = mc::choose(2, "four");
  using T4 = tuple<int, string, int, tuple<int, string>>;
  vector<string> got, want;
  T4 m;
  auto run = [&](auto &c, auto model) {
    using S = typename std::decay_t<decltype(c)>::State;
    c.silentlyConnect(std::function<void(const S &)>([&](const S &x) { got.push_back(show(x)); }));
    string last = show(model());
    for (int i = 0; i < (mc::thorough() ? 6 : 5); ++i) {
      switch (mc::choose(6, "op")) {
        case 0: a += 1; std::get<0>(m) += 1; break;
        case 1: s = string("k"); std::get<1>(m) = "k"; break;
        case 2: b = 3; std::get<2>(m) = 3; break;
        case 3: p.set<0>(5); std::get<0>(std::get<3>(m)) = 5; break;
        case 4: p.mutable_().get<1>() += "p"; std::get<1>(std::get<3>(m)) += "p"; break;
        case 5: s.mutable_()->push_back('m'); std::get<1>(m) += "m"; break;
      }
      string now = show(model());
      if (now != last) want.push_back(now);
      last = now;
      MC_CHECK(show(c.get()) == now, "compound %s, parts %s", show(c.get()).c_str(), now.c_str());
      MC_CHECK(got == want, "%zu notifications, expected %zu", got.size(), want.size());
    }
  };
  if (four) {
    auto c = ss::mt::join(a, s, b, p);
    run(c, [&] { return m; });
  } else {
    auto c = ss::mt::join(a, s, b);
    run(c, [&] { return tuple(std::get<0>(m), std::get<1>(m), std::get<2>(m)); });
  }
}
