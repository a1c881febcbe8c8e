// P32: scope guards, time measurement, named enumerations.
#include "util.h"
#include "utils_enums.h"
#include <maf/utils/CallOnExit.h>
#include <maf/utils/DirectExecutor.h>
#include <maf/utils/ExecutorIF.h>
#include <maf/utils/TimeMeasurement.h>
#include <functional>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
using namespace maf::util;
using std::string;
using us = std::chrono::microseconds;

// every value of every enumeration prints its name, others are told apart
template <class E, class B> static void enumNames(int n) {
  for (int i = 0; i < n; ++i) {
    std::ostringstream o;
    o << static_cast<E>(i);
    MC_CHECK(o.str() == "n" + std::to_string(i), "value %d of %d prints '%s'", i, n, o.str().c_str());
  }
  MC_CHECK(static_cast<int>(E::__) == n, "%d values, end mark %d", n, (int)E::__);
  for (int i : {n, n + 1, 126, 127, -1, -2, -128}) {
    if (static_cast<long long>(static_cast<B>(i)) < n && static_cast<long long>(static_cast<B>(i)) >= 0) continue;
    std::ostringstream o;
    o << static_cast<E>(i);
    for (int k = 0; k < n; ++k) MC_CHECK(o.str() != "n" + std::to_string(k), "value %d of %d prints as %d", i, n, k);
  }
}
MC_SCENARIO(util_enum_names, {.inproc = true}) {
#define M(n) enumNames<E##n, std::underlying_type_t<E##n>>(n);
  ALL_ENUMS(M)
#undef M
}
// a measurement reports once, the time since it was started last
MC_SCENARIO(util_measurement, {.inproc = true}) {
  struct Model { bool lives = false, armed = false; uint64_t start = 0; int id = 0; } m[2];
  std::vector<std::pair<int, long>> got, want;
  string log;
  int next = 1;
  std::optional<TimeMeasurement> t[2];  // reports when it goes away
  auto now = [] { return mc::now_ns(); };
  auto since = [&](int o) { return (long)((now() - m[o].start) / 1000); };
  auto report = [&](int o) { if (m[o].lives && m[o].armed) want.push_back({m[o].id, since(o)}); m[o].armed = false; };
  int depth = mc::thorough() ? 7 : 6;
  for (int i = 0; i < depth; ++i) {
    int o = mc::choose(2, "object"), op = mc::choose(8, "op");
    log += " " + std::to_string(o) + std::to_string(op);
    mc::sleep_ns(1000000 * (i + 1));
    if (op && !m[o].lives) mc::prune();
    long e = 0;
    switch (op) {
      case 0:
        report(o);
        t[o].reset();
        m[o] = {true, true, now(), next};
        t[o].emplace([&got, id = next](us d) { got.push_back({id, (long)d.count()}); });
        ++next;
        break;
      case 1: m[o].start = now(); t[o]->restart(); break;
      case 2: e = since(o); report(o); MC_CHECK(t[o]->stop().count() == e, "stop()"); break;
      case 3: e = since(o); m[o].armed = false; MC_CHECK(t[o]->abort().count() == e, "abort()"); break;
      case 4: report(o); t[o].reset(); m[o].lives = false; break;
      case 5: MC_CHECK(t[o]->elapsedTime().count() == since(o), "elapsedTime()");
        MC_CHECK(t[o]->elapsedTime<std::chrono::milliseconds>().count() == since(o) / 1000, "elapsedTime<ms>()"); break;
      case 6:  // move to the other one, which has to be idle
        if (m[!o].lives) mc::prune();
        t[!o].emplace(std::move(*t[o]));
        m[!o] = m[o];
        m[o].armed = false;
        break;
      case 7: {  // a report that stops the measurement again
        report(o);
        t[o].reset();
        auto id = next++;
        m[o] = {true, true, now(), id};
        t[o].emplace([&, o, id](us d) { got.push_back({id, (long)d.count()}); if (t[o] && got.size() < 50) t[o]->stop(); });
        mc::sleep_ns(5000);
        report(o);
        t[o]->stop();
        break;
      }
    }
    MC_CHECK(got == want, "%s: %zu reports, expected %zu", log.c_str(), got.size(), want.size());
  }
  for (int o : {0, 1}) { report(o); t[o].reset(); m[o].lives = false; }
  MC_CHECK(got == want, "%s, end: %zu reports, expected %zu", log.c_str(), got.size(), want.size());
}
// guards run once, in reverse order, also when the scope is left by a failure
MC_SCENARIO(util_scope_guard, {.inproc = true}) {
  int n = mc::choose(4, "guards"), leave = mc::choose(3, "end/return/throw"), empty = mc::choose(5, "empty one");
  std::vector<int> got, want;
  auto scope = [&] {
    std::optional<CallOnExit> g[3];
    for (int i = 0; i < n; ++i) {
      if (i == empty) g[i].emplace(std::function<void()>{});
      else g[i].emplace([&, i] { got.push_back(i); });
    }
    MC_CHECK(got.empty(), "ran at once");
    if (leave == 1) return;
    if (leave == 2) throw 5;
  };
  try { scope(); } catch (int) { MC_CHECK(leave == 2, "thrown"); }
  for (int i = n - 1; i >= 0; --i) if (i != empty) want.push_back(i);
  MC_CHECK(got == want, "%zu guards ran", got.size());
}
// the direct executor runs what it gets at once, on the caller's thread, in order
MC_SCENARIO(util_direct_executor, {.inproc = true}) {
  auto e = directExecutor();
  MC_CHECK(e && e == directExecutor(), "not one executor");
  std::vector<int> got;
  int nest = mc::choose(4, "depth"), bad = mc::choose(2, "failing");
  if (bad) {
    MC_CHECK(!e->execute([] { throw std::runtime_error("x"); }), "a failed execution reported as done");
    MC_CHECK(!e->execute({}), "nothing reported as done");
  }
  std::function<void(int)> go = [&](int d) {
    got.push_back(d);
    if (d < nest) {
      MC_CHECK(e->execute([&, d] { go(d + 1); }), "refused");
      got.push_back(-d);
    }
  };
  MC_CHECK(e->execute([&] { go(0); }), "refused");
  MC_CHECK((int)got.size() == 2 * nest + 1, "%zu", got.size());
  for (int d = 0; d <= nest; ++d) MC_CHECK(got[d] == d, "order");
}
