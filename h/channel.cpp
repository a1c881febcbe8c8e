// P21, P22: the local IPC channel over simulated sockets.
#include <vsock.h>
#include <mc.h>
#include "util.h"
#include <cstring>
#include <sys/socket.h>
#include <sys/un.h>
#include <thread>
#include <unistd.h>
#include <maf/messaging/client-server/Address.h>
#include <maf/messaging/client-server/CSStatus.h>
#include "messaging/client-server/ipc/LocalIPCBufferReceiver.h"
#include "messaging/client-server/ipc/LocalIPCBufferSender.h"
using namespace maf::messaging;
using namespace maf::messaging::ipc;
using maf::srz::Buffer;
using std::string;
using std::vector;
static const Address A("srv", 1);
struct Rx : BytesComeObserver {
  std::unique_ptr<local::LocalIPCBufferReceiver> r = std::make_unique<local::LocalIPCBufferReceiver>();
  vector<string> got;
  std::thread t;
  Obs<int> ended;
  void onBytesCome(Buffer &&b) override { mc::Quiet q; got.push_back(string(b.data(), b.length())); }
  bool init(const Address &a = A) { r->setObserver(this); return r->init(a); }
  void run() { t = std::thread([this] { r->start(); ended = 1; }); }
  int count(const string &s) { mc::Quiet q; return std::count(got.begin(), got.end(), s); }
  size_t total() { mc::Quiet q; return got.size(); }
  string all() { mc::Quiet q; string s; for (auto &g : got) s += g.substr(0, 20) + "(" + std::to_string(g.size()) + ") "; return s; }
  void stop() { r->stop(); if (t.joinable()) t.join(); }
};
// a peer made of plain socket calls
static int raw_connect(const char *name = "srv") {
  vs::Clean c;
  int fd = socket(AF_UNIX, SOCK_STREAM, 0);
  sockaddr_un a;
  memset(&a, 0, sizeof a);
  a.sun_family = AF_UNIX;
  strcpy(a.sun_path + 1, name);
  if (connect(fd, (sockaddr *)&a, sizeof a)) { close(fd); return -1; }
  return fd;
}
static void raw_write(int fd, const string &s) { vs::Clean c; if (s.size()) ::send(fd, s.data(), s.size(), MSG_NOSIGNAL); }
static void raw_close(int fd) { vs::Clean c; close(fd); }
static string frame(const string &s) { uint32_t n = s.size(); return string((char *)&n, 4) + s; }
static Buffer buf(const string &s) { Buffer b; b.assign(s.data(), s.size()); return b; }
using ACS = ActionCallStatus;


static void closed() { MC_CHECK(vs::open_fds() == 0, "%d descriptors left open", vs::open_fds()); }

// messages of one sender, socket calls on both sides are split, interrupted, failed
static void exchange(const char *kinds) {
  Rx rx;
  MC_CHECK(rx.init(), "init");
  vs::set_faults(kinds);
  rx.run();
  local::LocalIPCBufferSender s;
  string m[2] = {"first message", string("\0\x01z", 3)};
  ACS st[2];
  for (int i = 0; i < 2; ++i) st[i] = s.send(buf(m[i]), A);
  mc::quiesce();
  int a = rx.count(m[0]), b = rx.count(m[1]);
  MC_CHECK(a <= 1 && b <= 1 && a + b == (int)rx.total(), "received %s", rx.all().c_str());
  // only what goes wrong at the receiver may lose what has been sent
  if (!strpbrk(kinds, "ra")) MC_CHECK(a >= (st[0] == ACS::Success) && b >= (st[1] == ACS::Success), "reported as sent: %d %d, received %s", st[0] == ACS::Success, st[1] == ACS::Success, rx.all().c_str());
  if (a && b) MC_CHECK(rx.got[0] == m[0], "out of order");
  // whatever happened, the next one gets through
  vs::set_faults("");
  MC_CHECK(s.send(buf("last"), A) == ACS::Success, "the receiver is no longer reachable");
  mc::quiesce();
  MC_CHECK(rx.count("last") == 1, "the receiver no longer receives: %s", rx.all().c_str());
  mc::outcome(std::to_string(a) + std::to_string(b) + std::to_string(int(st[0])) + std::to_string(int(st[1])));
  rx.stop();
}
// calls are only split and interrupted: nothing that was sent gets lost
MC_SCENARIO(chan_interrupted, {.pb_quick = 1, .pb_thorough = 2, .faults = 2, .faults_thorough = 4}) { exchange("RWAs"); }
MC_SCENARIO(chan_split_reads, {.pb_quick = 1, .pb_thorough = 2, .faults = 2, .faults_thorough = 3}) { exchange("r"); }
MC_SCENARIO(chan_split_writes, {.pb_quick = 1, .pb_thorough = 2, .faults = 2, .faults_thorough = 3}) { exchange("w"); }
MC_SCENARIO(chan_failing_calls, {.pb_quick = 1, .pb_thorough = 2, .faults = 2, .faults_thorough = 3}) { exchange("rwasck"); }

// two senders, two messages each
static void two_senders(const char *kinds, size_t capacity, int each = 2) {
  Rx rx;
  MC_CHECK(rx.init(), "init");
  if (capacity) vs::set_capacity(capacity);
  vs::set_faults(kinds);
  rx.run();
  ACS st[2][2] = {{ACS::FailedUnknown, ACS::FailedUnknown}, {ACS::FailedUnknown, ACS::FailedUnknown}};
  auto work = [&](int i) {
    local::LocalIPCBufferSender s;
    for (int k = 0; k < each; ++k) {
      auto r = s.send(buf(string(5 + 3 * k, 'a' + i) + char('0' + k)), A);
      mc::Quiet q;
      st[i][k] = r;
    }
  };
  std::thread t([&] { work(1); });
  work(0);
  t.join();
  mc::quiesce();
  string order;
  for (auto &g : rx.got) {
    int i = g[0] - 'a', k = g.back() - '0';
    MC_CHECK((i == 0 || i == 1) && (k == 0 || k == 1) && g == string(5 + 3 * k, 'a' + i) + char('0' + k), "received %s", rx.all().c_str());
    order += char('0' + 2 * i + k);
  }
  for (int i = 0; i < 2; ++i) {
    auto p0 = order.find('0' + 2 * i), p1 = order.find('1' + 2 * i);
    for (int k = 0; k < 2; ++k) {
      int n = std::count(order.begin(), order.end(), '0' + 2 * i + k);
      MC_CHECK(n <= 1, "message received twice: %s", rx.all().c_str());
      if (st[i][k] == ACS::Success && !strpbrk(kinds, "ra")) MC_CHECK(n == 1, "lost: %s", rx.all().c_str());
      if (!*kinds && k < each) MC_CHECK(st[i][k] == ACS::Success, "failed");
    }
    if (p0 != string::npos && p1 != string::npos) MC_CHECK(p0 < p1, "out of order: %s", order.c_str());
  }
  mc::outcome(order);
  rx.stop();
}
MC_SCENARIO(chan_two_senders, {.pb_quick = 2, .pb_thorough = 3}) { two_senders("", 0); }
MC_SCENARIO(chan_two_senders_split, {.pb_quick = 1, .pb_thorough = 2, .faults = 1, .faults_thorough = 1}) { two_senders("rw", 0); }
MC_SCENARIO(chan_two_senders_full, {.pb_quick = 1, .pb_thorough = 2}) { two_senders("", mc::thorough() ? 3 : 6, 1); }

// a peer that stops in the middle of a message, dies there, or sends anything else, while a sender works
MC_SCENARIO(chan_bad_peer, {.pb_quick = 1, .pb_thorough = 2}) {
  string part[] = {"", string("\x08", 1), string("\x08\0\0", 3), string("\x08\0\0\0", 4), frame("complete").substr(0, 11), frame("complete"), frame("complete") + "extra", "\xff\xff\xff\xff", "\xff\xff\xff\xff" "abc", string(8, 0)};
  int k = mc::choose(10, "peer sends"), how = mc::choose(3, "then");
  Rx rx;
  MC_CHECK(rx.init(), "init");
  rx.run();
  std::thread t([&] {
    int fd = raw_connect();
    MC_CHECK(fd >= 0, "not reachable");
    raw_write(fd, part[k]);
    if (how == 1) { mc::sleep_ns(3000000000); }
    if (how == 2) { mc::quiesce(); MC_CHECK(rx.count("good") == 2, "a stalled peer keeps others from being received: %s", rx.all().c_str()); }
    raw_close(fd);
  });
  local::LocalIPCBufferSender s;
  MC_CHECK(s.send(buf("good"), A) == ACS::Success && s.send(buf("good"), A) == ACS::Success, "send fails");
  t.join();
  mc::quiesce();
  int whole = k == 5 || k == 6, empty = k == 9;
  MC_CHECK(rx.count("good") == 2, "lost: %s", rx.all().c_str());
  MC_CHECK(rx.count("complete") == whole && (int)rx.total() == 2 + whole + rx.count(""), "received %s", rx.all().c_str());
  MC_CHECK(rx.count("") <= empty, "received an empty message: %s", rx.all().c_str());
  MC_CHECK(s.send(buf("last"), A) == ACS::Success, "no longer reachable");
  mc::quiesce();
  MC_CHECK(rx.count("last") == 1, "no longer receives: %s", rx.all().c_str());
  rx.stop();
}
// a message written in two pieces, at any time
MC_SCENARIO(chan_pieces, {.pb_quick = 2, .pb_thorough = 3}) {
  string m = "peer", f = frame(m) ;
  int cut = mc::choose(f.size() + 1, "cut");
  Rx rx;
  MC_CHECK(rx.init(), "init");
  rx.run();
  std::thread t([&] {
    int fd = raw_connect();
    raw_write(fd, f.substr(0, cut));
    raw_write(fd, f.substr(cut));
    raw_close(fd);
  });
  local::LocalIPCBufferSender s;
  MC_CHECK(s.send(buf("good"), A) == ACS::Success, "send fails");
  t.join();
  mc::quiesce();
  MC_CHECK(rx.count("peer") == 1 && rx.count("good") == 1 && rx.total() == 2, "received %s", rx.all().c_str());
  rx.stop();
}
// every size around the limits, through a connection that holds little
MC_SCENARIO(chan_sizes, {.pb_quick = 0, .pb_thorough = 1}) {
  size_t sizes[] = {0, 1, 3, 4, 5, 255, 256, 65535, 65536, 65537, 131072, 200001};
  size_t n = sizes[mc::choose(12, "size")], caps[] = {1 << 20, 4096, 65536};
  vs::set_capacity(caps[mc::choose(3, "capacity")]);
  string m(n, 0);
  for (size_t i = 0; i < n; ++i) m[i] = char(i * 7 + i / 251);
  Rx rx;
  MC_CHECK(rx.init(), "init");
  rx.run();
  local::LocalIPCBufferSender s;
  MC_CHECK(s.send(buf(m), A) == ACS::Success, "send fails");
  MC_CHECK(s.send(buf("end"), A) == ACS::Success, "send fails");
  mc::quiesce();
  MC_CHECK(rx.total() == (n ? 2u : 1u + rx.count("")) && rx.got.back() == "end", "received %s", rx.all().c_str());
  if (n || rx.total() == 2) MC_CHECK(rx.got[0] == m, "%zu bytes arrive as %s", n, rx.all().c_str());
  rx.stop();
}
// more peers at a time than the receiver serves
MC_SCENARIO(chan_many_peers, {.pb_quick = 0, .pb_thorough = 1}) {
  int n = mc::choose(2, "peers") ? 40 : 31, half = mc::choose(3, "stage");
  Rx rx;
  MC_CHECK(rx.init(), "init");
  rx.run();
  std::thread t([&] {
    vector<int> fd;
    for (int i = 0; i < 25; ++i) {
      fd.push_back(raw_connect());
      raw_write(fd.back(), frame("peer").substr(0, half * 4));
    }
    mc::quiesce();
    for (int i = 0; i < 25; ++i) raw_write(fd[i], frame("peer").substr(half * 4));
    for (int i = 0; i < 25; ++i) raw_close(fd[i]);
    for (int i = 25; i < n; ++i) { int f = raw_connect(); raw_write(f, frame("peer")); raw_close(f); }
  });
  local::LocalIPCBufferSender s;
  MC_CHECK(s.send(buf("good"), A) == ACS::Success, "send fails");
  t.join();
  mc::quiesce();
  MC_CHECK(rx.count("peer") == n && rx.count("good") == 1, "received %d and %d of %d", rx.count("peer"), rx.count("good"), n);
  rx.stop();
}
// the receiver goes away while messages are being sent
MC_SCENARIO(chan_receiver_leaves, {.pb_quick = 2, .pb_thorough = 3}) {
  vs::set_capacity(mc::choose(2, "capacity") ? 2 : 1 << 20);
  Rx rx;
  MC_CHECK(rx.init(), "init");
  rx.run();
  ACS st[2];
  std::thread t([&] {
    local::LocalIPCBufferSender s;
    for (int i = 0; i < 2; ++i) { auto r = s.send(buf("message " + std::to_string(i)), A); mc::Quiet q; st[i] = r; }
  });
  rx.stop();
  MC_CHECK(local::LocalIPCBufferSender().send(buf("late"), A) != ACS::Success, "sent to nobody");
  MC_CHECK(local::LocalIPCBufferSender().checkReceiverStatus(A) == Availability::Unavailable, "nobody is available");
  t.join();
  int a = rx.count("message 0"), b = rx.count("message 1");
  MC_CHECK(a <= 1 && b <= 1 && a + b == (int)rx.total(), "received %s", rx.all().c_str());
  if (a) MC_CHECK(st[0] == ACS::Success, "received though reported as failed");
  if (b) MC_CHECK(st[1] == ACS::Success, "received though reported as failed");
  mc::outcome(std::to_string(a) + std::to_string(b) + std::to_string(int(st[0])) + std::to_string(int(st[1])));
}
// asking whether a receiver is there
MC_SCENARIO(chan_status, {.pb_quick = 1, .pb_thorough = 2, .faults = 1, .faults_thorough = 2}) {
  local::LocalIPCBufferSender s;
  vs::set_faults("");
  MC_CHECK(s.checkReceiverStatus(A) == Availability::Unavailable, "available before it is there");
  MC_CHECK(s.checkReceiverStatus(Address(string(300, 'x'), 1)) == Availability::Unavailable && s.send(buf("x"), Address(string(300, 'x'), 1)) != ACS::Success, "too long a name");
  Rx rx;
  MC_CHECK(rx.init(), "init");
  rx.run();
  MC_CHECK(s.checkReceiverStatus(A) == Availability::Available, "not available");
  MC_CHECK(s.checkReceiverStatus(Address("other", 1)) == Availability::Unavailable, "another one is available");
  vs::set_faults("rasck");
  for (int i = 0; i < 3; ++i) s.checkReceiverStatus(A);
  vs::set_faults("");
  MC_CHECK(s.send(buf("x"), A) == ACS::Success, "send");
  mc::quiesce();
  MC_CHECK(rx.total() == 1 && rx.count("x") == 1, "received %s", rx.all().c_str());
  rx.stop();
  MC_CHECK(s.checkReceiverStatus(A) == Availability::Unavailable, "still available");
}

// two receivers whose names differ in the last character only, of every length
MC_SCENARIO(chan_names, {.pb_quick = 0, .pb_thorough = 1}) {
  int lens[] = {1, 2, 63, 64, 65, 100, 105, 106, 107, 108, 109, 110, 255, 256};
  int n = lens[mc::choose(14, "length")];
  Address a[2] = {Address(string(n - 1, 'n') + "a", 1), Address(string(n - 1, 'n') + "b", 1)};
  Rx rx[2];
  bool there[2], sent[2];
  for (int i = 0; i < 2; ++i) if ((there[i] = rx[i].init(a[i]))) rx[i].run();
  MC_CHECK(there[0] == there[1], "names of %d characters: %d %d", n, there[0], there[1]);
  if (n <= 100) MC_CHECK(there[0], "a name of %d characters is refused", n);
  local::LocalIPCBufferSender s;
  for (int i = 0; i < 2; ++i) MC_CHECK((s.checkReceiverStatus(a[i]) == Availability::Available) == there[i], "status of receiver %d, %d characters", i, n);
  for (int i = 0; i < 2; ++i) sent[i] = s.send(buf(i ? "to b" : "to a"), a[i]) == ACS::Success;
  mc::quiesce();
  for (int i = 0; i < 2; ++i) {
    MC_CHECK(sent[i] == there[i], "%d characters: sent %d, receiver there: %d", n, sent[i], there[i]);
    MC_CHECK((int)rx[i].total() == there[i] && rx[i].count(i ? "to b" : "to a") == there[i], "%d characters: receiver %d got %s", n, i, rx[i].all().c_str());
    rx[i].stop();
  }
  for (int i = 0; i < 2; ++i) MC_CHECK(s.checkReceiverStatus(a[i]) == Availability::Unavailable, "still available");
}

// ---- P22
// the address can be used again, by the same receiver or another
static void again(Rx *same = nullptr) {
  Rx other, &rx = same ? *same : other;
  MC_CHECK(rx.init(), "the address cannot be used again");
  rx.run();
  MC_CHECK(local::LocalIPCBufferSender().send(buf("again"), A) == ACS::Success, "not reachable");
  mc::quiesce();
  MC_CHECK(rx.count("again") == 1, "does not receive");
  rx.stop();
  closed();
}
MC_SCENARIO(stopr_idle, {.pb_quick = 3, .pb_thorough = 5}) {
  int late = mc::choose(2, "stop when running");
  Rx rx;
  MC_CHECK(rx.init(), "init");
  rx.run();
  if (late) mc::quiesce();
  rx.stop();
  closed();
  again(mc::choose(2, "same receiver") ? &rx : nullptr);
}
MC_SCENARIO(stopr_before_start, {.pb_quick = 1, .pb_thorough = 2}) {
  Rx rx;
  MC_CHECK(rx.init(), "init");
  rx.r->stop();
  MC_CHECK(!rx.r->start(), "started though stopped before");
  closed();
  again(mc::choose(2, "same receiver") ? &rx : nullptr);
}
// stop comes while senders send, wherever they are
MC_SCENARIO(stopr_senders, {.pb_quick = 2, .pb_thorough = 3}) {
  int n = 1 + mc::choose(2, "senders");
  vs::set_capacity(mc::choose(2, "capacity") ? (mc::thorough() ? 3 : 8) : 1 << 20);
  Rx rx;
  MC_CHECK(rx.init(), "init");
  rx.run();
  vector<std::thread> t;
  for (int i = 0; i < n; ++i) t.emplace_back([] { local::LocalIPCBufferSender().send(buf("message"), A); });
  rx.stop();
  MC_CHECK(!vs::listening("srv"), "the address is still in use");
  for (auto &x : t) x.join();
  MC_CHECK((int)rx.total() <= n && rx.count("message") == (int)rx.total(), "received %s", rx.all().c_str());
  closed();
  again();
}
MC_SCENARIO(stopr_mid_message, {.pb_quick = 2, .pb_thorough = 3}) {
  int n = 1 + mc::choose(3, "peers"), cut = 2 + 3 * mc::choose(2, "cut"), late = mc::choose(2, "stop when idle");
  Rx rx;
  MC_CHECK(rx.init(), "init");
  rx.run();
  vector<int> fd;
  for (int i = 0; i < n; ++i) fd.push_back(raw_connect()), raw_write(fd.back(), frame("message").substr(0, cut));
  if (late) mc::quiesce();
  rx.stop();
  MC_CHECK(vs::open_fds() == n && rx.total() == 0, "%d descriptors open besides the peers', received %s", vs::open_fds() - n, rx.all().c_str());
  for (int f : fd) raw_close(f);
  again();
}
// an address taken twice by the same receiver
MC_SCENARIO(stopr_init_twice, {.pb_quick = 1, .pb_thorough = 2}) {
  Rx rx;
  MC_CHECK(rx.init(), "init");
  int f = mc::choose(2, "peer") ? raw_connect() : -1;
  bool ok = rx.init(mc::choose(2, "other") ? Address("other", 1) : A);
  if (ok) {
    rx.run();
    if (mc::choose(2, "stop when running")) mc::quiesce();
  }
  rx.stop();
  if (f >= 0) raw_close(f);
  closed();
  again(mc::choose(2, "same receiver") ? &rx : nullptr);
}
// a full queue of senders waiting to be accepted
MC_SCENARIO(stopr_full_backlog, {.pb_quick = 1, .pb_thorough = 2}) {
  Rx rx;
  MC_CHECK(rx.init(), "init");
  vector<int> fd;
  for (int i = 0; i < 6; ++i) fd.push_back(raw_connect()), raw_write(fd.back(), frame("m").substr(0, 4));
  std::thread t([] { int f = raw_connect(); if (f >= 0) { raw_write(f, frame("m")); raw_close(f); } });
  mc::quiesce();
  if (mc::choose(2, "started")) rx.run();
  rx.stop();
  for (int f : fd) raw_close(f);
  t.join();
  closed();
  again();
}
MC_SCENARIO(stopr_failing_calls, {.pb_quick = 1, .pb_thorough = 2, .faults = 2, .faults_thorough = 3}) {
  Rx rx;
  MC_CHECK(rx.init(), "init");
  vs::set_faults("rasck");
  rx.run();
  std::thread t([] { int f = raw_connect(); if (f >= 0) { raw_write(f, frame("message")); raw_close(f); } });
  rx.stop();
  t.join();
  vs::set_faults("");
  closed();
  again();
}
MC_SCENARIO(stopr_failing_init, {.pb_quick = 0, .pb_thorough = 1, .faults = 2, .faults_thorough = 3}) {
  vs::set_faults("kb");
  Rx rx;
  bool ok = rx.init();
  vs::set_faults("");
  if (!ok) {
    closed();
    if (mc::choose(2, "start all the same")) MC_CHECK(!rx.r->start(), "started without an address");
    if (mc::choose(2, "stop")) rx.r->stop();
    closed();
    again(mc::choose(2, "same receiver") ? &rx : nullptr);
    return;
  }
  Rx second;  // the address is taken
  MC_CHECK(!second.init(), "two receivers at one address");
  MC_CHECK(vs::open_fds() == 1, "%d descriptors left open by a failed init", vs::open_fds() - 1);
  rx.run();
  MC_CHECK(local::LocalIPCBufferSender().send(buf("x"), A) == ACS::Success, "send");
  mc::quiesce();
  MC_CHECK(rx.count("x") == 1, "the first no longer receives");
  rx.stop();
  closed();
}
// by two threads, twice, by the observer itself, by destruction
MC_SCENARIO(stopr_twice, {.pb_quick = 2, .pb_thorough = 3}) {
  Rx rx;
  MC_CHECK(rx.init(), "init");
  rx.run();
  std::thread t([&] { rx.r->stop(); });
  rx.r->stop();
  t.join();
  rx.stop();
  rx.stop();
  closed();
  again();
}
struct Stopping : Rx { void onBytesCome(Buffer &&b) override { Rx::onBytesCome(std::move(b)); r->stop(); } };
MC_SCENARIO(stopr_by_observer, {.pb_quick = 1, .pb_thorough = 2}) {
  Stopping rx;
  MC_CHECK(rx.init(), "init");
  rx.run();
  int f = raw_connect(), g = raw_connect();
  raw_write(f, frame("message"));
  if (g >= 0) raw_write(g, frame("message"));
  rx.t.join();
  MC_CHECK(rx.total() <= 2 && rx.total() >= 1, "received %s", rx.all().c_str());
  raw_close(f);
  if (g >= 0) raw_close(g);
  closed();
  again();
}
MC_SCENARIO(stopr_destroyed, {.pb_quick = 1, .pb_thorough = 2}) {
  { Rx rx; MC_CHECK(rx.init(), "init"); }
  closed();
  { Rx rx; MC_CHECK(rx.init(), "init"); rx.run(); rx.stop(); }
  closed();
  again();
}
