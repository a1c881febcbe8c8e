// P14: AtomicObject, Lockable, Locker, MutexReference; Upcoming chains.
#include <maf/threading/AtomicObject.h>
#include <maf/threading/Lockable.h>
#include <maf/threading/Locker.h>
#include <maf/threading/MutexRef.h>
#include <maf/threading/Upcoming.h>
#include "util.h"
#include <future>
#include <optional>
#include <stdexcept>
#include <thread>
using namespace maf::threading;
struct Two {
  int a = 0, b = 0;
  int step(int n) { a += n; b += n; return a; }
  bool same() const { return a == b; }
};
using Atomic = AtomicObject<Two>;
using AtomicPtr = AtomicObject<std::unique_ptr<Two>>;
using Lock = Lockable<Two>;

static const char *atomicWays = "->/ref ->/ref */two in one ref/moved ref/**/throwing/reference assigned";
template <class A> static void atomicWay(A &o, int way, A &spare) {
  switch (way) {
    case 0: o->step(1); break;
    case 1: { auto r = o.atomic(); r->a++; r->b++; break; }
    case 2: { auto r = *o; (*r).step(1); break; }
    case 3: { auto r = o.atomic(); int v = r->a; r->a = v + 1; v = r->b; r->b = v + 1; break; }
    case 4: { auto r = o.atomic(); auto m = std::move(r); m->step(1); break; }
    case 5: (**o).step(1); break;
    case 6: try { auto r = o.atomic(); r->step(1); throw 1; } catch (int) {} break;
    case 7: { auto r = spare.atomic(); r = o.atomic(); r->step(1); break; }
  }
}
template <class A> static void atomicScenario(A &o, A &spare) {
  int w1 = mc::choose(8, atomicWays), w2 = mc::choose(8, atomicWays), rd = mc::choose(4, "reader: none/const ->/const ref/const *");
  std::thread t1([&] { atomicWay(o, w1, spare); });
  std::thread t2([&] { atomicWay(o, w2, spare); atomicWay(o, w2, spare); });
  const A &c = o;
  if (rd == 1) MC_CHECK(c->same(), "half made change");
  if (rd == 2) { auto r = c.atomic(); MC_CHECK(r->a == r->b, "half made change"); }
  if (rd == 3) { auto r = *c; MC_CHECK((*r).same(), "half made change"); }
  t1.join();
  t2.join();
  auto r = o.atomic();
  MC_CHECK(r->a == 3 && r->b == 3, "%d,%d instead of 3,3 (ways %d,%d)", r->a, r->b, w1, w2);
  MC_CHECK(spare.getMutex().try_lock(), "other object left locked (ways %d,%d)", w1, w2);
  spare.getMutex().unlock();
  mc::outcome(std::to_string(w1) + std::to_string(w2) + std::to_string(rd));
}
MC_SCENARIO(guard_atomic, {.pb_quick = 2}) {
  Atomic o, spare;
  atomicScenario(o, spare);
}
MC_SCENARIO(guard_atomic_ptr, {.pb_quick = 2}) {
  AtomicPtr o{std::make_unique<Two>()}, spare{std::make_unique<Two>()};
  atomicScenario(o, spare);
}
// whole value assigned while others read and change it
MC_SCENARIO(guard_assign) {
  Atomic o;
  Lock l;
  int which = mc::choose(2, "AtomicObject/Lockable"), n = mc::choose(2, "assigned in 1/2 threads") + 1;
  auto assign = [&](int v) { Two t{v, v}; which ? (void)(l = t) : (void)(o = t); };
  std::thread t1([&] { assign(10); });
  std::thread t2([&] { n == 2 ? assign(20) : which ? (void)l.atomic()->step(1) : (void)o->step(1); });
  Two seen = which ? Two(*l.atomic()) : Two(*o.atomic());
  MC_CHECK(seen.same(), "half made change");
  t1.join();
  t2.join();
  Two end = which ? Two(*l.atomic()) : Two(*o.atomic());
  MC_CHECK(end.same() && (n == 2 ? end.a == 10 || end.a == 20 : end.a == 10 || end.a == 11), "%d,%d", end.a, end.b);
  mc::outcome(std::to_string(seen.a) + "," + std::to_string(end.a));
}
// references to two objects exchanged and assigned: each object locked exactly
// while a reference to it exists
MC_SCENARIO(guard_references) {
  Atomic x, y;
  int how = mc::choose(4, "assign/swap via temporary/self assign/assign to moved from");
  std::thread t([&] { x->step(1); y->step(1); });
  {
    auto free = [](Atomic &o) { if (!o.getMutex().try_lock()) return false; o.getMutex().unlock(); return true; };
    auto r = x.atomic();
    auto s = y.atomic();
    r->step(1); s->step(1);
    if (how == 0) { r = std::move(s); r->step(1); }
    if (how == 1) { auto m = std::move(r); r = std::move(s); s = std::move(m); r->step(1); s->step(1); }
    if (how == 2) { auto &self = r; r = std::move(self); r->step(1); s->step(1); }
    if (how == 3) { auto m = std::move(r); r = std::move(s); r->step(1); m->step(1); }
    MC_CHECK(!free(y) && (how == 0 || how == 3 || !free(x)), "object not locked while a reference exists");
  }
  t.join();
  Two vx = *x.atomic(), vy = *y.atomic();
  MC_CHECK(vx.a == (how == 0 ? 2 : 3) && vy.a == 3 && vx.same() && vy.same(), "%d %d", vx.a, vy.a);
  MC_CHECK(x.getMutex().try_lock() && y.getMutex().try_lock(), "left locked");
  x.getMutex().unlock();
  y.getMutex().unlock();
}
static void lockWay(Lock &l, int way) {
  switch (way) {
    case 0: { std::lock_guard g(l); l->step(1); break; }
    case 1: { auto s = l.atomic(); s->a++; s->b++; break; }
    case 2: l.atomic()->step(1); break;
    case 3: { std::unique_lock g(l, std::try_to_lock); if (!g) g.lock(); (*l).step(1); break; }
    case 4: { (*l.atomic()).step(1); break; }
    case 5: { std::lock_guard g(l.getMutex()); l->step(1); break; }
  }
}
MC_SCENARIO(guard_lockable) {
  Lock l;
  const char *ways = "lock_guard/atomic ref/atomic ->/try_lock/atomic */mutex";
  int w1 = mc::choose(6, ways), w2 = mc::choose(6, ways), rd = mc::choose(3, "reader: none/const atomic/const lock");
  std::thread t1([&] { lockWay(l, w1); });
  std::thread t2([&] { lockWay(l, w2); lockWay(l, w2); });
  const Lock &c = l;
  if (rd == 1) MC_CHECK(c.atomic()->same(), "half made change");
  if (rd == 2) { std::lock_guard g(c); MC_CHECK(c->same() && (*c).same(), "half made change"); }
  t1.join();
  t2.join();
  MC_CHECK(l->a == 3 && l->same(), "%d,%d", l->a, l->b);
}
// recursive mutex: nested sessions of one thread, others excluded until the last ends
// trying does not wait for the one who has it
MC_SCENARIO(guard_try) {
  Lock l;
  auto tried = [&] { bool r = false; std::thread t([&] { if ((r = l.try_lock())) l.unlock(); }); t.join(); return r; };
  MC_CHECK(tried(), "not got though free");
  int how = mc::choose(3, "held");
  if (how == 0) { l.lock(); MC_CHECK(!tried(), "got though held"); l.unlock(); }
  if (how == 1) { auto a = l.atomic(); MC_CHECK(!tried(), "got though held"); }
  if (how == 2) { MC_CHECK(l.try_lock() && !tried(), "got though held"); l.unlock(); }
  MC_CHECK(tried(), "not got though free");
}
MC_SCENARIO(guard_recursive) {
  Lockable<Two, std::recursive_mutex> l;
  AtomicObject<Two, std::recursive_mutex> o;
  int which = mc::choose(2, "Lockable/AtomicObject");
  auto work = [&] {
    if (which == 0) { auto s = l.atomic(); s->a++; { auto n = l.atomic(); n->b++; } MC_CHECK(s->same(), "half made change of another thread"); }
    else { auto s = o.atomic(); s->a++; o->b++; MC_CHECK(s->same(), "half made change of another thread"); }
  };
  std::thread t1(work), t2(work);
  work();
  t1.join();
  t2.join();
  int a = which ? o->a : l->a;
  MC_CHECK(a == 3, "%d", a);
}
// one mutex shared by several guarded objects
MC_SCENARIO(guard_shared_mutex) {
  std::mutex m;
  Two shared;  // protected by m alone
  struct View { Two *t; int step() { return t->step(1); } };
  AtomicObject<View, MutexReference<std::mutex>> x{View{&shared}, mutexRef(m)}, y{View{&shared}, mutexRef(m)};
  Locker<MutexReference<std::mutex>> k{mutexRef(m)};
  int w1 = mc::choose(3, "x/y/locker"), w2 = mc::choose(3, "x/y/locker"), w3 = mc::choose(3, "x/y/locker");
  auto go = [&](int w) {
    if (w == 0) x->step();
    if (w == 1) { auto r = y.atomic(); r->step(); }
    if (w == 2) { auto r = k(shared); r->a++; (*r).b++; }
  };
  std::thread t1([&] { go(w1); }), t2([&] { go(w2); });
  go(w3);
  t1.join();
  t2.join();
  MC_CHECK(shared.a == 3 && shared.b == 3, "%d,%d", shared.a, shared.b);
  MC_CHECK(m.try_lock(), "left locked");
  m.unlock();
}
MC_SCENARIO(guard_locker) {
  Locker<> k;
  Two x, y;
  const Two &cx = x;
  auto go = [&](int w) {
    if (w == 0) { auto r = k(x); r->step(1); }
    if (w == 1) k(x)->step(1);
    if (w == 2) { std::lock_guard g(k); x.step(1); }
    if (w == 3) { std::unique_lock g(k, std::try_to_lock); if (!g) g.lock(); x.step(1); }
  };
  int w1 = mc::choose(4, "way"), w2 = mc::choose(4, "way");
  std::thread t1([&] { go(w1); }), t2([&] { go(w2); });
  { auto r = k(cx); MC_CHECK(r->same(), "half made change"); }
  t1.join();
  t2.join();
  MC_CHECK(x.a == 2 && x.same(), "%d,%d", x.a, x.b);
}

// ---- deferred values
// source -> then -> then -> consumer, in every way the source can end
MC_SCENARIO(upcoming_chain) {
  int src = mc::choose(4, "source: value/exception/broken/value from async"), links = mc::choose(3, "links"), bad = mc::choose(3, "no/first/second link throws"),
      how = mc::choose(4, "get/wait+get/waitFor+get/moved+get");
  if (bad > links) mc::prune();
  std::promise<int> p;
  Upcoming<int> u{src == 3 ? std::async(std::launch::deferred, [] { return 5; }) : p.get_future()};
  Log calls;
  std::thread prod([&, p = std::move(p)]() mutable {
    if (src == 0) p.set_value(5);
    if (src == 1) p.set_exception(std::make_exception_ptr(std::runtime_error("src")));
    auto gone = std::move(p);
  });
  auto link = [&](int n) {
    return [&calls, n, bad](int v) { calls.add(n * 100 + v); if (bad == n) throw std::logic_error("link"); return v * 2; };
  };
  int got = -1;  // -1 nothing, -2 source failure, -3 link failure
  auto take = [&](Upcoming<int> &x) {
    MC_CHECK(x.valid(), "invalid before get");
    if (how == 1) x.wait();
    if (how == 2) x.waitFor(std::chrono::milliseconds(1));
    std::optional<Upcoming<int>> m;
    auto &y = how == 3 ? m.emplace(std::move(x)) : x;
    try { if (auto v = y.get()) got = *v; }
    catch (std::runtime_error &) { got = -2; }
    catch (std::logic_error &) { got = -3; }
    MC_CHECK(!y.valid(), "still valid after get");
    try { MC_CHECK(!y.get(), "delivered twice"); } catch (std::exception &) { mc::violation("second get throws"); }
  };
  bool val = src == 0 || src == 3;
  if (links == 0) take(u);
  if (links == 1) { auto a = u.then(link(1)); MC_CHECK(!u.valid(), "source still valid"); take(a); }
  if (links == 2) { auto a = u.then(link(1)); auto b = a.then(link(2)); MC_CHECK(!a.valid(), "link still valid"); take(b); }
  prod.join();
  int want = !val ? (src == 1 ? -2 : -1) : bad ? -3 : links == 0 ? 5 : links == 1 ? 10 : 20;
  MC_CHECK(got == want, "got %d instead of %d (source %d, links %d, bad %d)", got, want, src, links, bad);
  MC_CHECK(calls.count(105) == (val && links ? 1 : 0) && calls.count(210) == (val && links == 2 && bad != 1 ? 1 : 0) &&
           calls.size() == size_t(calls.count(105) + calls.count(210)), "links called: %s", calls.str().c_str());
  mc::outcome(std::to_string(got));
}
MC_SCENARIO(upcoming_void) {
  int src = mc::choose(3, "value/exception/broken"), links = mc::choose(3, "links"), waits = mc::choose(2, "wait first");
  std::promise<void> p;
  Upcoming<void> u{p.get_future()};
  Log calls;
  std::thread prod([&, p = std::move(p)]() mutable {
    calls.add(1);
    if (src == 0) p.set_value();
    if (src == 1) p.set_exception(std::make_exception_ptr(std::runtime_error("src")));
    auto gone = std::move(p);
  });
  int got = 0;
  auto run = [&](auto f) {
    try { f(); got = 1; }
    catch (std::future_error &) { got = -1; }
    catch (std::runtime_error &) { got = -2; }
  };
  auto l1 = [&] { calls.add(2); return 7; };
  auto l2 = [&](int v) { calls.add(v); };
  int res = 0;
  if (links == 0) { if (waits) u.wait(); run([&] { u.get(); }); }
  if (links == 1) { auto a = u.then(l1); if (waits) a.wait(); run([&] { if (auto v = a.get()) res = *v; else got = -1, throw std::future_error(std::future_errc::broken_promise); }); }
  if (links == 2) { auto a = u.then(l1).then(l2); if (waits) a.wait(); run([&] { a.get(); }); }
  prod.join();
  MC_CHECK(got == (src == 0 ? 1 : src == 1 ? -2 : -1), "result %d for source %d", got, src);
  std::string want = "1 ";
  if (src == 0 && links) want += "2 ";
  if (src == 0 && links == 2) want += "7 ";
  MC_CHECK(calls.str() == want, "calls %s, expected %s", calls.str().c_str(), want.c_str());
}
MC_SCENARIO(upcoming_invalid) {
  Upcoming<int> u;
  Upcoming<void> w;
  bool called = false;
  MC_CHECK(!u.valid() && !w.valid(), "valid without a source");
  auto a = u.then([&](int) { called = true; return 1; });
  auto b = w.then([&] { called = true; return 1; });
  MC_CHECK(!a.valid() && !b.valid(), "valid without a source");
  MC_CHECK(!u.get() && !a.get() && !b.get() && !called, "value from nowhere");
}
