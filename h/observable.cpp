// P09/P10: observables and compound observables used by several threads.
#include <maf/utils/Observable.h>
#include "util.h"
#include <deque>
#include <functional>
#include <optional>
#include <thread>
#include <tuple>
namespace ss = maf::signal_slots;
using maf::threading::mutexRef;
using ss::Connection;
using std::string;
using std::thread;
using std::tuple;

template <class O> struct Box { O o; };
template <> struct Box<ss::SharedMutexObservable<int>> { std::recursive_mutex m; ss::SharedMutexObservable<int> o{mutexRef(m)}; };
template <class F> static void each(F f) {
  switch (mc::choose(3, "type")) {
    case 0: { Box<ss::mt::Observable<int>> b; f(b.o); break; }
    case 1: { Box<ss::mt::SCObservable<int>> b; f(b.o); break; }
    case 2: { Box<ss::SharedMutexObservable<int>> b; f(b.o); break; }
  }
}
static void consecutive(Log &l, int from, int to, const char *who) {
  mc::Quiet q;
  MC_CHECK((int)l.v.size() == to - from + 1, "%s saw %zu values: %s", who, l.v.size(), l.str().c_str());
  for (size_t i = 0; i < l.v.size(); ++i) MC_CHECK(l.v[i] == from + (int)i, "%s saw %s", who, l.str().c_str());
}
// several writers: every change once, in order, the last is the value
MC_SCENARIO(obst_increments, {.pb_quick = 4, .pb_thorough = 8}) {
  each([](auto &o) {
    Log seen;
    auto con = o.silentlyConnect([&](int v) { seen.add(v); });
    int r[4];
    thread t([&] { r[0] = ++o; r[1] = (o += 1); });
    r[2] = o++;
    { auto m = o.mutable_(); *m = *m + 1; r[3] = *m; }
    t.join();
    MC_CHECK(o.get() == 4, "value %d: update lost", o.get());
    consecutive(seen, 1, 4, "observer");
    MC_CHECK(r[0] < r[1] && r[2] < r[3] && r[0] != r[2] + 1 && r[1] != r[3], "results %d %d %d %d", r[0], r[1], r[2], r[3]);
    MC_CHECK(con.connected(), "disconnected");
  });
}
MC_SCENARIO(obst_sets, {.pb_quick = 4, .pb_thorough = 8}) {
  each([](auto &o) {
    Log seen;
    o.connect([&](int v) { seen.add(v); });
    thread t([&] { o.set(1); o.set(2); });
    thread u([&] { int a = o.get(); MC_CHECK(a >= 0 && a <= 2, "%d", a); });
    o.set(2);
    o = 1;
    t.join();
    u.join();
    mc::Quiet q;
    MC_CHECK(seen.v.back() == o.get(), "last notification %d, value %d", seen.v.back(), o.get());
    for (size_t i = 1; i < seen.v.size(); ++i) MC_CHECK(seen.v[i] != seen.v[i - 1], "notified without a change: %s", seen.str().c_str());
    MC_CHECK(seen.v[0] == 0 && seen.v.size() >= 3, "%s", seen.str().c_str());
    mc::outcome(seen.str());
  });
}
// connecting while others write
MC_SCENARIO(obst_connect, {.pb_quick = 4, .pb_thorough = 8}) {
  each([](auto &o) {
    Log seen;
    int how = mc::choose(2, "lambda/function");
    thread t([&] { ++o; ++o; });
    Connection c;
    std::function<void(const int &)> f = [&](const int &v) { seen.add(v); };
    if (how) c = o.connect(f);
    else c = o.connect([&](int v) { seen.add(v); });
    MC_CHECK(seen.size() >= 1, "not told the value");
    t.join();
    mc::Quiet q;
    // the value when it connected (once more if it changed just then), then every change
    MC_CHECK(seen.v.back() == 2 && c.connected(), "saw %s", seen.str().c_str());
    for (size_t i = 1; i < seen.v.size(); ++i) MC_CHECK(seen.v[i] == seen.v[i - 1] + 1 || seen.v[i] == seen.v[i - 1], "saw %s", seen.str().c_str());
    mc::outcome(seen.str());
  });
}
MC_SCENARIO(obst_disconnect, {.pb_quick = 4, .pb_thorough = 8}) {
  each([](auto &o) {
    Log seen;
    Obs<bool> off;
    auto c = o.connect([&](int v) { MC_CHECK(!off, "notified after disconnect"); seen.add(v); });
    thread t([&] { ++o; ++o; });
    MC_CHECK(c.disconnect(), "not disconnected");
    off = true;
    size_t n = seen.size();
    t.join();
    ++o;
    MC_CHECK(seen.size() == n, "notified after disconnect");
    consecutive(seen, 0, (int)n - 1, "observer");
    mc::outcome(seen.str());
  });
}
// parts of a state written by different threads
MC_SCENARIO(obst_pair, {.pb_quick = 4, .pb_thorough = 8}) {
  ss::mt::Observable<int, string> o;
  std::vector<tuple<int, string>> seen;
  std::vector<string> txt;
  o.connect(std::function<void(const tuple<int, string> &)>([&](const tuple<int, string> &s) { mc::Quiet q; seen.push_back(s); }));
  int how = mc::choose(2, "set/mutable");
  thread t([&] {
    if (how) { auto m = o.mutable_(); m.get<0>() = m.get<0>() + 1; }
    else o.set<0>(1);
  });
  thread u([&] { auto s = o.get(); string x = o.get<1>(); (void)x; });
  { auto m = o.mutable_<1>(); m->append("a long string that is allocated"); }
  t.join();
  u.join();
  tuple<int, string> want(1, "a long string that is allocated");
  MC_CHECK(o.get() == want, "value");
  mc::Quiet q;
  MC_CHECK(seen.size() == 3 && seen.back() == want, "%zu notifications", seen.size());
}
MC_SCENARIO(obst_string_readers, {.pb_quick = 4, .pb_thorough = 8}) {
  ss::mt::Observable<string> o;
  o.set("a string that is long enough");
  thread t([&] { o.set("another one, also long enough to be allocated"); });
  string a = o.get();
  size_t n = o->size();
  string b = *o.immutable();
  t.join();
  MC_CHECK(a == "a string that is long enough" || a == "another one, also long enough to be allocated", "%s", a.c_str());
  MC_CHECK(n == 28 || n == 45, "%zu", n);
  MC_CHECK(b.size() >= n && n >= a.size(), "went back");
}
// through an executor
struct Ex : maf::util::ExecutorIF {
  std::mutex m;
  std::deque<CallbackType> q;
  bool execute(CallbackType cb) noexcept override { std::lock_guard<std::mutex> l(m); q.push_back(std::move(cb)); return true; }
  bool one() {
    CallbackType f;
    { std::lock_guard<std::mutex> l(m); if (q.empty()) return false; f = std::move(q.front()); q.pop_front(); }
    f();
    return true;
  }
};
MC_SCENARIO(obst_executor, {.pb_quick = 4, .pb_thorough = 8}) {
  ss::mt::Observable<int> o;
  auto ex = std::make_shared<Ex>();
  Log seen;
  o.connect([&](int v) { seen.add(v); }, ex);
  thread t([&] { ++o; });
  ++o;
  ex->one();
  t.join();
  while (ex->one()) {}
  consecutive(seen, 0, 2, "observer");
}
// a tracked observer that dies
MC_SCENARIO(obst_tracked, {.pb_quick = 4, .pb_thorough = 8}) {
  ss::mt::Observable<int> o;
  struct Ob { Log *l; int live = 1; void m(int v) { MC_CHECK(live == 1, "dead"); l->add(v); } ~Ob() { live = 0; } };
  Log seen;
  auto ob = std::make_shared<Ob>(Ob{&seen});
  auto c = o.connect(ob, &Ob::m);
  thread t([&] { ob.reset(); });
  ++o;
  ++o;
  t.join();
  ++o;
  MC_CHECK(!c.connected() && seen.count(3) == 0, "%s", seen.str().c_str());
  MC_CHECK(seen.pos(0) == 0, "not told the value: %s", seen.str().c_str());
  consecutive(seen, 0, (int)seen.size() - 1, "observer");
}

// ---------------------------------------------------------------- compounds
static bool same(const tuple<int, int> &t, int a, int b) { return std::get<0>(t) == a && std::get<1>(t) == b; }
MC_SCENARIO(compt_changes, {.pb_quick = 4, .pb_thorough = 8}) {
  ss::mt::Observable<int> a, b;
  auto c = ss::mt::join(a, b);
  std::vector<tuple<int, int>> seen;
  c.connect(std::function<void(const tuple<int, int> &)>([&](const tuple<int, int> &v) { mc::Quiet q; seen.push_back(v); }));
  thread t([&] { ++a; MC_CHECK(std::get<0>(c.get()) == 1, "part changed, compound not"); ++a; });
  ++b;
  MC_CHECK(c.get<1>() == 1, "part changed, compound not");
  ++b;
  t.join();
  MC_CHECK(same(c.get(), 2, 2), "compound %d,%d", c.get<0>(), c.get<1>());
  mc::Quiet q;
  MC_CHECK(seen.size() == 5 && same(seen.back(), 2, 2), "%zu notifications", seen.size());
  for (size_t i = 1; i < seen.size(); ++i)
    MC_CHECK(std::get<0>(seen[i]) + std::get<1>(seen[i]) == (int)i, "notification %zu is %d,%d", i, std::get<0>(seen[i]), std::get<1>(seen[i]));
}
MC_SCENARIO(compt_join_while_changing, {.pb_quick = 4, .pb_thorough = 8}) {
  ss::mt::Observable<int> a, b;
  thread t([&] { ++a; ++b; ++a; });
  auto c = ss::mt::join(a, b);
  std::vector<tuple<int, int>> seen;
  c.connect(std::function<void(const tuple<int, int> &)>([&](const tuple<int, int> &v) { mc::Quiet q; seen.push_back(v); }));
  t.join();
  MC_CHECK(same(c.get(), 2, 1), "compound %d,%d", c.get<0>(), c.get<1>());
  mc::Quiet q;
  MC_CHECK(same(seen.back(), 2, 1), "last notification %d,%d", std::get<0>(seen.back()), std::get<1>(seen.back()));
}
MC_SCENARIO(compt_drop, {.pb_quick = 4, .pb_thorough = 8}) {
  ss::mt::Observable<int> a, b;
  using C = decltype(ss::mt::join(a, b));
  std::unique_ptr<C> c(new C(a, b));
  Obs<bool> gone;
  c->silentlyConnect([&](int, int) { MC_CHECK(!gone, "notified by a dropped compound"); });
  thread t([&] { ++a; });
  thread u([&] { ++b; });
  c.reset();
  gone = true;
  t.join();
  u.join();
  MC_CHECK(a.get() == 1 && b.get() == 1 && !a.connected() && !b.connected(), "parts touched");
}
MC_SCENARIO(compt_part_dies, {.pb_quick = 4, .pb_thorough = 6}) {
  std::optional<ss::mt::Observable<int>> a(std::in_place);
  ss::mt::Observable<int> b;
  using C = decltype(ss::mt::join(*a, b));
  std::unique_ptr<C> c(new C(*a, b));
  a->set(3);
  thread t([&] { a.reset(); });
  thread u([&] { ++b; });
  bool drop = mc::choose(2, "drop");
  if (drop) c.reset();
  t.join();
  u.join();
  if (c) MC_CHECK(same(c->get(), 3, 1), "compound %d,%d", c->get<0>(), c->get<1>());
}
MC_SCENARIO(compt_nested, {.pb_quick = 4, .pb_thorough = 8}) {
  ss::mt::Observable<int> a, b, e;
  auto c = ss::mt::join(a, b);
  auto d = ss::mt::join(c, e);
  Obs<int> last, n;
  d.silentlyConnect([&](const tuple<int, int> &ab, int x) { last = std::get<0>(ab) * 100 + std::get<1>(ab) * 10 + x; n = n + 1; });
  thread t([&] { ++a; });
  thread u([&] { ++e; });
  ++b;
  t.join();
  u.join();
  MC_CHECK(d.get() == tuple(tuple(1, 1), 1) && last == 111 && n == 3, "last %d after %d", (int)last, (int)n);
}
MC_SCENARIO(compt_executor, {.pb_quick = 4, .pb_thorough = 8}) {
  ss::mt::Observable<int> a, b;
  auto ex = std::make_shared<Ex>();
  const maf::util::ExecutorIFPtr cex = ex;
  thread t([&] { ++a; });
  auto c = ss::mt::join(cex, a, b);
  ++b;
  t.join();
  while (ex->one()) {}
  MC_CHECK(same(c.get(), 1, 1), "compound %d,%d", c.get<0>(), c.get<1>());
}
