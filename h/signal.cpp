// P08: thread-safe signals used by several threads, all schedules.
#include <maf/utils/SignalSlots.h>
#include "util.h"
#include <optional>
#include <thread>
using namespace maf::signal_slots;
using maf::threading::mutexRef;
using std::thread;

template <class S> struct Box { S s; };
template <> struct Box<SharedMutexSignal<int>> { std::recursive_mutex m; SharedMutexSignal<int> s{mutexRef(m)}; };
template <> struct Box<SharedMutexSCSignal<int>> { std::recursive_mutex m; SharedMutexSCSignal<int> s{mutexRef(m)}; };
// runs f with one of the multi-slot signal types
template <class F> static void multi(F f) {
  if (mc::choose(2, "shared mutex")) { Box<SharedMutexSignal<int>> b; f(b.s); }
  else { Box<Signal<int>> b; f(b.s); }
}
template <class F> static void any(F f) {
  switch (mc::choose(4, "type")) {
    case 0: { Box<Signal<int>> b; f(b.s); break; }
    case 1: { Box<SCSignal<int>> b; f(b.s); break; }
    case 2: { Box<SharedMutexSignal<int>> b; f(b.s); break; }
    case 3: { Box<SharedMutexSCSignal<int>> b; f(b.s); break; }
  }
}
// counts the calls per emission; emissions are numbered by their argument
struct Calls {
  int n[16] = {};
  void operator()(int a) { mc::Quiet q; ++n[a]; }
  int operator[](int a) { mc::Quiet q; return n[a]; }
};

// disconnect against emissions
MC_SCENARIO(sigt_disconnect, {.pb_quick = 5, .pb_thorough = 9}) {
  any([](auto &s) {
    Calls c;
    auto con = s.connect([&](int a) { c(a); });
    Obs<bool> off;
    bool was[4] = {};
    int how = mc::choose(2, "connection/all");
    thread t([&] {
      if (how) s.disconnect();
      else MC_CHECK(con.disconnect(), "disconnect failed");
      off = true;
      MC_CHECK(!s.connected() && s.connectionCount() == 0, "connected after disconnect");
      if (!how) MC_CHECK(!con.connected(), "connection connected after disconnect");
    });
    for (int i = 0; i < 3; ++i) { was[i] = off; s(i); }
    t.join();
    s(3);
    std::string out;
    for (int i = 0; i < 3; ++i) {
      MC_CHECK(c[i] <= 1 && !(was[i] && c[i]), "emission %d called the slot %d times%s", i, c[i], was[i] ? " after disconnect" : "");
      MC_CHECK(i == 0 || c[i] <= c[i - 1], "called again");
      out += std::to_string(c[i]);
    }
    MC_CHECK(c[3] == 0, "called after disconnect");
    mc::outcome(out);
  });
}
// connect against emissions
MC_SCENARIO(sigt_connect, {.pb_quick = 5, .pb_thorough = 9}) {
  any([](auto &s) {
    Calls c;
    Obs<bool> on;
    bool was[4] = {};
    Connection con;
    thread t([&] { con = s.connect([&](int a) { c(a); }); on = true; MC_CHECK(con.connected() && s.connected(), "not connected"); });
    for (int i = 0; i < 3; ++i) { was[i] = on; s(i); }
    t.join();
    s(3);
    std::string out;
    for (int i = 0; i < 3; ++i) {
      MC_CHECK(c[i] <= 1 && (!was[i] || c[i] == 1), "emission %d called the slot %d times", i, c[i]);
      MC_CHECK(i == 0 || c[i] >= c[i - 1], "lost");
      out += std::to_string(c[i]);
    }
    MC_CHECK(c[3] == 1 && s.connectionCount() == 1, "connected slot called %d times", c[3]);
    mc::outcome(out);
  });
}
// two emitters, two slots: every emission calls both once
MC_SCENARIO(sigt_emitters, {.pb_quick = 5, .pb_thorough = 9}) {
  multi([](auto &s) {
    Calls c, d;
    Log order;
    s.connect([&](int a) { c(a); order.add(a * 2); });
    s.connect([&](int a) { d(a); order.add(a * 2 + 1); });
    thread t([&] { s(0); s(1); });
    s(2);
    s(3);
    t.join();
    for (int i = 0; i < 4; ++i) {
      MC_CHECK(c[i] == 1 && d[i] == 1, "emission %d called %d,%d", i, c[i], d[i]);
      MC_CHECK(order.pos(i * 2) < order.pos(i * 2 + 1), "order");
    }
  });
}
// connects, disconnects and emits all at once
MC_SCENARIO(sigt_mix, {.pb_quick = 4, .pb_thorough = 6}) {
  multi([](auto &s) {
    Calls a, b, c;
    auto ca = s.connect([&](int x) { a(x); });
    auto cb = s.connect([&](int x) { b(x); });
    thread t([&] { ca.disconnect(); auto cc = s.connect([&](int x) { c(x); }); s(1); cc.disconnect(); });
    thread u([&] { s(2); s.connectionCount(); MC_CHECK(cb.connected(), "another's disconnect"); });
    s(3);
    t.join();
    u.join();
    MC_CHECK(b[1] == 1 && b[2] == 1 && b[3] == 1, "permanent slot called %d %d %d", b[1], b[2], b[3]);
    MC_CHECK(a[1] == 0 && a[2] <= 1 && a[3] <= 1 && c[1] == 1 && c[2] <= 1 && c[3] <= 1, "calls");
    s(4);
    MC_CHECK(a[4] == 0 && b[4] == 1 && c[4] == 0 && s.connectionCount() == 1, "after all");
    MC_CHECK(cb.connected() && !ca.connected(), "states");
    mc::outcome(std::to_string(a[2] * 8 + a[3] * 4 + c[2] * 2 + c[3]));
  });
}
// a slot that disconnects itself is called once, however many emit
MC_SCENARIO(sigt_self_disconnect, {.pb_quick = 5, .pb_thorough = 9}) {
  any([](auto &s) {
    Calls c;
    int kind = mc::choose(3, "aware/own handle/tracked");
    Connection con;
    std::shared_ptr<int> obj = std::make_shared<int>(1);
    std::weak_ptr<int> wobj = obj;
    std::mutex m;
    if (kind == 0) con = s.connect([&](ConnectionPtr p, const int &) { c(0); MC_CHECK(p->disconnect(), "not disconnected"); });
    if (kind == 1) con = s.connect([&](int) { c(0); con.disconnect(); });
    if (kind == 2) con = s.connect(std::shared_ptr<void>(obj), [&](int) { c(0); std::lock_guard<std::mutex> l(m); obj.reset(); });
    thread t([&] { s(1); });
    s(2);
    t.join();
    s(3);
    MC_CHECK(c[0] == 1, "called %d times", c[0]);
    MC_CHECK(!con.connected() && !s.connected(), "still connected");
    MC_CHECK(kind != 2 || wobj.expired(), "object kept alive");
  });
}
// slots that connect and disconnect others
MC_SCENARIO(sigt_slot_connects, {.pb_quick = 5, .pb_thorough = 9}) {
  multi([](auto &s) {
    Calls a, b, c;
    Connection cb, cc;
    bool once = false;
    auto ca = s.connect([&](int x) {
      a(x);
      if (!once) { once = true; cb.disconnect(); cc = s.connect([&](int y) { c(y); }); }
    });
    cb = s.connect([&](int x) { b(x); });
    thread t([&] { s(1); });
    thread u([&] { MC_CHECK(s.connectionCount() == 2, "count %zu", s.connectionCount()); });
    s(2);
    t.join();
    u.join();
    MC_CHECK(a[1] == 1 && a[2] == 1 && b[1] + b[2] == 0 && c[1] + c[2] == 1, "calls a %d%d b %d%d c %d%d", a[1], a[2], b[1], b[2], c[1], c[2]);
    s(3);
    MC_CHECK(a[3] == 1 && b[3] == 0 && c[3] == 1, "after all");
  });
}
// one place, several who want it
MC_SCENARIO(sigt_single_slot, {.pb_quick = 5, .pb_thorough = 9}) {
  Box<SCSignal<int>> x;
  auto &s = x.s;
  Calls a, b;
  Connection ca, cb;
  thread t([&] { ca = s.connect([&](int v) { a(v); }); s(1); });
  cb = s.connect([&](int v) { b(v); });
  s(2);
  t.join();
  MC_CHECK(ca.connected() + cb.connected() == 1, "%d connected", ca.connected() + cb.connected());
  s(3);
  MC_CHECK(a[3] == ca.connected() && b[3] == cb.connected(), "called %d %d", a[3], b[3]);
  MC_CHECK(a[1] + b[1] == 1 && a[2] + b[2] == 1, "emission lost");
  auto &in = ca.connected() ? ca : cb;
  MC_CHECK(in.disconnect() && !s.connected() && in.reconnect() && s.connected(), "reconnect");
}
// two handles of one slot
MC_SCENARIO(sigt_two_handles, {.pb_quick = 5, .pb_thorough = 9}) {
  multi([](auto &s) {
    Calls c;
    ConnectionPtr h;
    auto con = s.connect([&](ConnectionPtr p, const int &a) { if (!h) h = p; c(a); });
    s(0);
    int what = mc::choose(2, "disconnect both/disconnect and reconnect");
    Obs<bool> r1, r2;
    thread t([&] { r1 = h->disconnect(); if (what) r2 = h->reconnect(); });
    thread u([&] { s(1); });
    bool r3 = con.disconnect();
    t.join();
    u.join();
    // somebody disconnected it
    if (!what) MC_CHECK(r1 + r3 == 1 && !con.connected() && !h->connected(), "disconnected by %d", r1 + r3);
    s(2);
    MC_CHECK(c[1] <= 1 && c[2] == (int)s.connectionCount() && c[2] <= 1, "called %d %d, %zu connections", c[1], c[2], s.connectionCount());
    mc::outcome(std::to_string(r1 * 8 + r2 * 4 + r3 * 2 + c[2]));
  });
}
// tracked objects that die in another thread
MC_SCENARIO(sigt_tracked_dies, {.pb_quick = 5, .pb_thorough = 9}) {
  any([](auto &s) {
    struct Obj { int live = 1; Calls *c; void m(int a) { MC_CHECK(live == 1, "called on a dead object"); (*c)(a); } ~Obj() { live = 0; } };
    Calls c;
    auto o = std::make_shared<Obj>();
    o->c = &c;
    Connection con;
    if (mc::choose(2, "method")) con = s.connect(o, &Obj::m);
    else { auto p = o.get(); con = s.connect(std::shared_ptr<void>(o), [p](int a) { p->m(a); }); }
    Obs<bool> dead;
    bool was[3] = {};
    std::weak_ptr<Obj> w = o;
    thread t([&] { o.reset(); dead = true; });
    for (int i = 0; i < 2; ++i) { was[i] = w.expired(); s(i); }
    t.join();
    s(2);
    for (int i = 0; i < 2; ++i) MC_CHECK(c[i] <= 1 && !(was[i] && c[i]), "called on expired object");
    MC_CHECK(c[2] == 0 && !con.connected(), "still connected");
  });
}
// connections outlive the signal
MC_SCENARIO(sigt_signal_dies, {.pb_quick = 5, .pb_thorough = 9}) {
  auto b = std::make_unique<Box<Signal<int>>>();
  Calls c;
  auto con = b->s.connect([&](int a) { c(a); });
  auto con2 = b->s.connect([&](int a) { c(a); });
  int what = mc::choose(3, "disconnect/connected/scoped");
  thread t([&] {
    if (what == 0) con.disconnect();
    if (what == 1) con.connected();
    if (what == 2) { ScopedConnection sc(std::move(con)); }
  });
  b.reset();
  t.join();
  MC_CHECK(!con.connected() && !con2.connected() && !con2.disconnect(), "connected to a dead signal");
}
// chained signals, the second one dies or is disconnected
MC_SCENARIO(sigt_chain, {.pb_quick = 5, .pb_thorough = 9}) {
  Box<Signal<int>> a;
  std::optional<Box<Signal<int>>> b(std::in_place);
  Calls c, own;
  auto link = a.s.connect(b->s);
  a.s.connect([&](int x) { own(x); });
  b->s.connect([&](int x) { c(x); });
  int what = mc::choose(3, "unlink/destroy/emit second");
  Obs<bool> off;
  bool was[2];
  thread t([&] {
    if (what == 0) link.disconnect();
    if (what == 1) b.reset();
    if (what == 2) b->s(5);
    if (what < 2) off = true;
  });
  for (int i = 0; i < 2; ++i) { was[i] = off; a.s(i); }
  t.join();
  for (int i = 0; i < 2; ++i) MC_CHECK(own[i] == 1 && c[i] <= 1 && (what == 2 ? c[i] == 1 : !(was[i] && c[i])), "emission %d: %d %d", i, own[i], c[i]);
  MC_CHECK(c[5] == (what == 2), "%d", c[5]);
  a.s(3);
  MC_CHECK(c[3] == (what == 2) && link.connected() == (what == 2), "link");
}
// waiting for an emission
MC_SCENARIO(sigt_waitable, {.pb_quick = 4, .pb_thorough = 6, .spurious = 1}) {
  Box<Signal<int>> x;
  auto &s = x.s;
  Log got;
  auto w = waitableConnect(s, std::function<void(const int &)>([&](int a) { got.add(a); }));
  int how = mc::choose(4, "emit/two emitters/timed/disconnect");
  thread t([&] { if (how != 3) s(1); else s.disconnect(); });
  thread u([&] { if (how == 1) s(2); });
  bool r;
  if (how == 2) r = w.waitFor(std::chrono::milliseconds(5));
  else r = w.wait();
  if (how < 2) MC_CHECK(r && got.size() == 1, "%s", got.str().c_str());
  if (how == 2) MC_CHECK(got.size() == (r ? 1 : 0), "result %d with %zu calls", r, got.size());
  if (how == 3) MC_CHECK(!r && got.size() == 0, "value from nowhere");
  t.join();
  u.join();
  if (how == 2 && !r) MC_CHECK(w.wait() && got.size() == 1, "emission lost");
  MC_CHECK(!s.connected(), "still connected");
  mc::outcome(got.str());
}
// slots with an executor
MC_SCENARIO(sigt_executor, {.pb_quick = 5, .pb_thorough = 9}) {
  struct Ex : maf::util::ExecutorIF {
    std::mutex m;
    std::vector<CallbackType> q;
    bool execute(CallbackType cb) noexcept override { std::lock_guard<std::mutex> l(m); q.push_back(std::move(cb)); return true; }
    int run() {
      std::vector<CallbackType> r;
      { std::lock_guard<std::mutex> l(m); r.swap(q); }
      for (auto &f : r) f();
      return (int)r.size();
    }
  };
  Box<Signal<int>> x;
  auto e = std::make_shared<Ex>();
  Calls c;
  Obs<int> in;
  auto con = x.s.connect([&](int a) { MC_CHECK(in == 1, "not by the executor"); c(a); }, e);
  thread t([&] { x.s(0); x.s(1); });
  thread u([&] { x.s(2); });
  auto run = [&] { in = 1; int n = e->run(); in = 0; return n; };
  (void)run;
  t.join();
  u.join();
  run();
  for (int i = 0; i < 3; ++i) MC_CHECK(c[i] == 1, "emission %d: %d", i, c[i]);
}
// slots of two signals that share their mutex use each other
MC_SCENARIO(sigt_shared_cross, {.pb_quick = 5, .pb_thorough = 9}) {
  std::recursive_mutex m;
  SharedMutexSignal<int> a{mutexRef(m)}, b{mutexRef(m)};
  Calls ca, cb, ex;
  a.connect([&](int x) { ca(x); b.connect([&](int y) { ex(y); }); });
  b.connect([&](int x) { cb(x); a.connect([&](int y) { ex(y); }); });
  thread t([&] { a(0); });
  b(1);
  t.join();
  MC_CHECK(ca[0] == 1 && cb[1] == 1, "calls");
}
// the same with signals that do not: a known limitation
MC_SCENARIO(sigt_cross, {.pb_quick = 5, .pb_thorough = 9}) {
  Box<Signal<int>> a, b;
  Calls ca, cb, ex;
  a.s.connect([&](int x) { ca(x); b.s.connect([&](int y) { ex(y); }); });
  b.s.connect([&](int x) { cb(x); a.s.connect([&](int y) { ex(y); }); });
  thread t([&] { a.s(0); });
  b.s(1);
  t.join();
  MC_CHECK(ca[0] == 1 && cb[1] == 1, "calls");
}
