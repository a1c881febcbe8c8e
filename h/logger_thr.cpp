// P30: levels change while others log.
#include <mc.h>
#include <string>
#include <thread>
#include <vector>
#include <util.h>
#include <maf/logging/Logger.h>
using namespace maf::logging;
using std::string;
struct Text {
  std::vector<string> v;
  void add(const string &m) { mc::Quiet q; v.push_back(m); }
  std::vector<string> get() { mc::Quiet q; return v; }
};
struct Sinks {
  Text out, err;
  Sinks(int levels) { init(levels, [this](const string &m) { out.add(m); }, [this](const string &m) { err.add(m); }); }
};
static int count(const std::vector<string> &v, const string &t) { int n = 0; for (auto &e : v) n += e.find(t) != string::npos; return n; }

// a level that is on all the time is logged all the time, one that is off never
MC_SCENARIO(logt_others_change, {.pb_quick = 3, .pb_thorough = 5}) {
  Sinks s(LOG_LEVEL_INFO);
  int what = mc::choose(3, "changes");
  std::thread a([&] {
    if (what == 0) { enable(LOG_LEVEL_WARN); disable(LOG_LEVEL_WARN); }
    if (what == 1) { enable(LOG_LEVEL_WARN); enable(LOG_LEVEL_VERBOSE); }
    if (what == 2) { changeLogLevels(LOG_LEVEL_FROM_INFO); disable(LOG_LEVEL_FATAL); }
  });
  for (int i = 0; i < 2; ++i) { MAF_LOGGER_INFO("info", i, "."); debug("never"); }
  a.join();
  auto out = s.out.get();
  MC_CHECK(count(out, "info0.") == 1 && count(out, "info1.") == 1 && count(out, "never") == 0, "logged %zu", out.size());
}
// what two threads enable and disable has its effect
MC_SCENARIO(logt_two_change, {.pb_quick = 4, .pb_thorough = 6}) {
  int start = mc::choose(2, "start") ? LOG_LEVEL_FATAL | LOG_LEVEL_ERROR | LOG_LEVEL_INFO : LOG_LEVEL_FATAL;
  Sinks s(start);
  int a = mc::choose(2, "first"), b = mc::choose(2, "second");
  std::thread t([&] { if (a) enable(LOG_LEVEL_WARN); else disable(LOG_LEVEL_FATAL); });
  if (b) enable(LOG_LEVEL_INFO); else disable(LOG_LEVEL_INFO);
  t.join();
  int want = start;
  if (a) want |= LOG_LEVEL_WARN; else want &= ~LOG_LEVEL_FATAL;
  if (b) want |= LOG_LEVEL_INFO; else want &= ~LOG_LEVEL_INFO;
  for (int l : {1, 2, 4, 8, 16, 32}) MC_CHECK(allowed(l) == !!(want & l), "level %d allowed: %d", l, allowed(l));
}
// a message whose level is being switched comes once or not at all, whole
MC_SCENARIO(logt_switch, {.pb_quick = 4, .pb_thorough = 6}) {
  bool on = mc::choose(2, "on");
  Sinks s(on ? LOG_LEVEL_WARN | LOG_LEVEL_INFO : LOG_LEVEL_WARN);
  std::thread t([&] { if (on) disable(LOG_LEVEL_INFO); else enable(LOG_LEVEL_INFO); });
  info("first"); warn("always"); info("second");
  t.join();
  info("after");
  auto out = s.out.get(), err = s.err.get();
  int f = count(out, "first"), n = count(out, "second");
  MC_CHECK(err.size() == 1 && count(err, "always") == 1, "the other level");
  MC_CHECK(f <= 1 && n <= 1 && (on ? f >= n : f <= n), "first %d, second %d", f, n);
  MC_CHECK(count(out, "after") == (on ? 0 : 1), "after the change");
  mc::outcome(std::to_string(f) + std::to_string(n));
}
// several threads log at once
MC_SCENARIO(logt_at_once, {.pb_quick = 3, .pb_thorough = 5}) {
  Sinks s(LOG_LEVEL_FROM_INFO);
  std::thread a([] { info("a", 1); error("a", 2); }), b([] { info("b", 1); MAF_LOGGER_FATAL("b", 2); });
  warn("c");
  a.join(); b.join();
  auto out = s.out.get(), err = s.err.get();
  MC_CHECK(out.size() == 2 && count(out, "a1") == 1 && count(out, "b1") == 1, "out");
  MC_CHECK(err.size() == 3 && count(err, "a2") == 1 && count(err, "b2") == 1 && count(err, "c") == 1, "err");
}
