// P01, histories: every operation sequence against a reference model.
#include <maf/threading/Queue.h>
#include <mc.h>
#include <algorithm>
#include <chrono>
#include <deque>
#include <memory>
#include <string>
#include <vector>
using namespace maf::threading;
using namespace std::chrono;

struct Low { bool operator()(int a, int b) const { return a > b; } };  // smallest first

template <class Q, class Best>
static void run(int depth, Best best) {
  Q q;
  std::vector<int> m;  // model, in order of insertion
  bool closed = false;
  int next = 0;
  std::string log;
  auto val = [&] { static const int vals[] = {5, 3, 7, 5, 1, 6, 2, 4}; return vals[next++ % 8]; };
  auto take = [&](int got, const char *what) {
    auto it = best(m);
    MC_CHECK(it != m.end() && *it == got, "%s: %s gave %d", log.c_str(), what, got);
    m.erase(it);
  };
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(12, "op");
    log += " " + std::to_string(op);
    int v = -1;
    switch (op) {
      case 0: { int x = val(); q.push(x); if (!closed) m.push_back(x); break; }
      case 1: { int x = val(); int y = x; q.push(std::move(y)); if (!closed) m.push_back(x); break; }
      case 2: { std::vector<int> s{val(), val()}; q.push(s); if (!closed) m.insert(m.end(), s.begin(), s.end()); break; }
      case 3: {
        bool r = q.tryPop(v);
        MC_CHECK(r == (!closed && !m.empty()), "%s: tryPop returned %d", log.c_str(), r);
        if (r) take(v, "tryPop");
        break;
      }
      case 4: case 5: {
        uint64_t t0 = mc::now_ns();
        bool r = op == 4 ? q.waitFor(v, milliseconds(3)) : q.waitUntil(v, system_clock::now() + milliseconds(3));
        uint64_t dt = mc::now_ns() - t0;
        MC_CHECK(r == (!closed && !m.empty()), "%s: timed wait returned %d", log.c_str(), r);
        MC_CHECK(r || closed || dt >= 3000000, "%s: timed wait gave up after %lu ns", log.c_str(), dt);
        MC_CHECK(!(r || closed) || dt < 1000000, "%s: timed wait waited %lu ns for nothing", log.c_str(), dt);
        if (r) take(v, "timed wait");
        break;
      }
      case 6: {
        if (!closed && m.empty()) mc::prune();
        bool r = q.wait(v);
        MC_CHECK(r == !closed, "%s: wait returned %d", log.c_str(), r);
        if (r) take(v, "wait");
        break;
      }
      case 7: q.close(); closed = true; break;
      case 8: q.reOpen(); closed = false; break;
      case 9: q.clear(); m.clear(); break;
      case 10: {
        std::vector<int> c;
        q.clear([&](int &x) { c.push_back(x); });
        MC_CHECK(c.size() == m.size(), "%s: clear handed out %zu of %zu", log.c_str(), c.size(), m.size());
        for (int x : c) take(x, "clear");
        break;
      }
      case 11: {
        bool r = q.waitUntil(v, system_clock::now() - milliseconds(1));
        MC_CHECK(r == (!closed && !m.empty()), "%s: wait until the past returned %d", log.c_str(), r);
        if (r) take(v, "wait until the past");
        break;
      }
    }
    MC_CHECK(q.size() == m.size(), "%s: size %zu, expected %zu", log.c_str(), q.size(), m.size());
    MC_CHECK(q.empty() == m.empty(), "%s: empty() wrong", log.c_str());
    MC_CHECK(q.isClosed() == closed, "%s: isClosed() wrong", log.c_str());
  }
  std::string o;
  for (int x : m) o += std::to_string(x);
  mc::outcome(o + (closed ? "c" : "o"));
}
MC_SCENARIO(queueseq_fifo, {.inproc = true}) {
  run<Queue<int>>(mc::thorough() ? 6 : 5, [](std::vector<int> &m) { return m.begin(); });
}
MC_SCENARIO(queueseq_priority, {.inproc = true}) {
  run<PriorityQueue<int>>(mc::thorough() ? 6 : 5, [](std::vector<int> &m) { return std::max_element(m.begin(), m.end()); });
}
MC_SCENARIO(queueseq_priority_low, {.inproc = true}) {
  run<PriorityQueue<int, Low>>(mc::thorough() ? 6 : 4, [](std::vector<int> &m) { return std::min_element(m.begin(), m.end()); });
}
