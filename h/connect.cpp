// P05, schedules: connecting, disconnecting and posting while handlers run.
#include <maf/messaging/MsgConnectionGroup.h>
#include <maf/messaging/Processor.h>
#include <maf/messaging/ProcessorEx.h>
#include "util.h"
#include <thread>
using namespace maf::messaging;
struct M { int v; };
struct N { int v; };

static void drain(ProcessorInstance p) { p->waitableExecute([] {}).get(); }
struct Run {
  ProcessorInstance p = Processor::create();
  std::thread t{[this] { p->run(); }};
  ~Run() { p->stop(); t.join(); }
};

// disconnected before the call starts: not called; connected before: called
MC_SCENARIO(conn_disconnect_vs_handling) {
  Log log;
  Obs<int> gone;
  auto p = Processor::create();
  auto c1 = p->connect<M>([&](const M &m) { MC_CHECK(!gone, "called after disconnect() returned"); log.add(m.v); });
  auto c2 = p->connect<M>([&](const M &m) { log.add(100 + m.v); });
  std::thread t([&] { p->run(); });
  int how = mc::choose(2, "connection/message");
  std::thread d([&] { if (how == 0) { c1.disconnect(); } else { p->disconnect<M>(); } gone = 1; });
  bool a = p->post<M>(1);
  drain(p);
  d.join();
  bool b = p->post<M>(2);
  drain(p);
  p->stop();
  t.join();
  if (how == 0) {
    MC_CHECK(a && b && log.count(101) == 1 && log.count(102) == 1, "other handler: %s", log.str().c_str());
    MC_CHECK(log.count(1) <= 1 && log.count(2) == 0, "%s", log.str().c_str());
  } else {
    MC_CHECK(!b && !log.count(2) && !log.count(102) && !p->connected<M>(), "%s", log.str().c_str());
  }
  mc::outcome(log.str());
}
MC_SCENARIO(conn_connect_vs_handling) {
  Log log;
  auto p = Processor::create();
  auto c1 = p->connect<M>([&](const M &m) { log.add(m.v); });
  std::thread t([&] { p->run(); });
  std::thread d([&] {
    auto c = p->connect<M>([&](const M &m) { log.add(100 + m.v); });
    MC_CHECK(c.connected() && p->connected<M>(), "connected()");
  });
  MC_CHECK(p->post<M>(1), "refused");
  d.join();
  MC_CHECK(p->post<M>(2), "refused");
  drain(p);
  p->stop();
  t.join();
  MC_CHECK(log.count(1) == 1 && log.count(2) == 1 && log.count(101) <= 1 && log.count(102) == 1, "%s", log.str().c_str());
  mc::outcome(log.str());
}
// handlers use the connections of other messages while others do the same
enum { CONNECT, DISCONNECT, CONNECTED, POST, DISC_CON, NACT };
static void act(ProcessorInstance p, int a, MsgConnection &c, Log &log) {
  switch (a) {
    case CONNECT: p->connect<N>([&](const N &) { log.add(50); }); break;
    case DISCONNECT: p->disconnect<N>(); break;
    case CONNECTED: p->connected<N>(); p->connected<M>(); break;
    case POST: p->post<N>(1); break;
    case DISC_CON: c.disconnect(); break;
  }
}
MC_SCENARIO(conn_inside_vs_outside) {
  Log log;
  auto p = Processor::create();
  int in = mc::choose(NACT, "inside"), out = mc::choose(NACT, "outside");
  MsgConnection n1 = p->connect<N>([&](const N &) { log.add(2); });
  MsgConnection n2 = p->connect<N>([&](const N &) { log.add(3); });
  MsgConnection m1 = p->connect<M>([&](const M &) { act(p, in, n1, log); log.add(1); });
  std::thread t([&] { p->run(); });
  std::thread d([&] { act(p, out, n2, log); });
  MC_CHECK(p->post<M>(1), "refused");
  d.join();
  drain(p);
  MC_CHECK(log.count(1) == 1, "handler called %d times", log.count(1));
  size_t before = log.size();
  bool conn = p->connected<N>(), posted = p->post<N>(2);
  drain(p);
  MC_CHECK(conn == posted && posted == (log.size() > before), "connected() %d post %d called %zu", conn, posted, log.size() - before);
  if (in != DISCONNECT && out != DISCONNECT) {
    int e1 = in != DISC_CON, e2 = out != DISC_CON;
    MC_CHECK(n1.connected() == e1 && n2.connected() == e2, "connections %d %d", n1.connected(), n2.connected());
  }
  p->stop();
  t.join();
  mc::outcome(log.str());
}
// a handler and another thread drop handlers of the very message being handled
MC_SCENARIO(conn_same_message) {
  Log log;
  auto p = Processor::create();
  int in = mc::choose(4, "inside: self/other/all/connect"), out = mc::choose(3, "outside: connect/all/other");
  MsgConnection m1, m2;
  m1 = p->connect<M>([&](const M &m) {
    log.add(m.v);
    if (in == 0) m1.disconnect();
    if (in == 1) m2.disconnect();
    if (in == 2) p->disconnect<M>();
    if (in == 3) p->connect<M>([&](const M &m) { log.add(20 + m.v); });
  });
  m2 = p->connect<M>([&](const M &m) { log.add(10 + m.v); });
  MsgConnection m3 = p->connect<M>([&](const M &m) { log.add(30 + m.v); });
  std::thread t([&] { p->run(); });
  std::thread d([&] {
    if (out == 0) p->connect<M>([&](const M &m) { log.add(40 + m.v); });
    if (out == 1) p->disconnect<M>();
    if (out == 2) m3.disconnect();
  });
  p->post<M>(1);
  d.join();
  drain(p);
  p->post<M>(2);
  drain(p);
  p->stop();
  t.join();
  for (int v : {1, 2, 11, 12, 21, 22, 31, 32, 41, 42}) MC_CHECK(log.count(v) <= 1, "%s", log.str().c_str());
  if (in == 0) MC_CHECK(!log.count(2), "called after it disconnected itself: %s", log.str().c_str());
  if (in == 1 && log.count(1)) MC_CHECK(!log.count(11) && !log.count(12), "called after disconnect: %s", log.str().c_str());
  if (in == 2 && log.count(1)) MC_CHECK(!log.count(11) && !log.count(31) && !log.count(12), "called after disconnect: %s", log.str().c_str());
  if (in == 3 && log.count(1)) MC_CHECK(!log.count(21), "called in the emission it was connected in: %s", log.str().c_str());
  if (out == 2) MC_CHECK(!log.count(32), "called after disconnect");
  if (out == 0 && in != 2) MC_CHECK(log.count(42) == 1, "connected handler not called: %s", log.str().c_str());
  if (in == 1 && out != 1) MC_CHECK(log.count(1) == 1 && log.count(2) == 1, "not called: %s", log.str().c_str());
  mc::outcome(log.str());
}
// two threads connect and drop handlers of two messages at once
MC_SCENARIO(conn_two_threads) {
  auto p = Processor::create();
  Log log;
  auto f = [&](int id) {
    auto c = p->connect<M>([&, id](const M &) { log.add(id); });
    if (mc::choose(2, "drop with id")) p->disconnect<N>();
    else { auto d = p->connect<N>([](const N &) {}); d.disconnect(); }
    MC_CHECK(c.connected(), "connection lost");
  };
  std::thread a([&] { f(1); });
  f(2);
  a.join();
  MC_CHECK(p->connected<M>() && !p->connected<N>(), "connected()");
  p->post<M>(1);
  p->runOnceFor(std::chrono::milliseconds(1));
  MC_CHECK(log.count(1) == 1 && log.count(2) == 1, "%s", log.str().c_str());
}
// the processor goes while connections to it exist and are dropped
MC_SCENARIO(conn_outlives_processor) {
  auto p = Processor::create();
  Log log;
  auto c = p->connect<M>([&](const M &m) { log.add(m.v); });
  MsgConnectionGroup g;
  g << p->connect<M>([&](const M &m) { log.add(10 + m.v); });
  std::thread t([p]() mutable { p->runOnceFor(std::chrono::hours(1)); p->stop(); p.reset(); });
  p->post<M>(1);
  p.reset();
  c.disconnect();
  g.disconnect();
  t.join();
  MC_CHECK(!c.connected(), "still connected");
  mc::outcome(log.str());
}
