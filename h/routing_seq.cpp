// P06, histories: every sequence of operations on three ids.
#include <maf/messaging/Processor.h>
#include <maf/messaging/Routing.h>
#include "util.h"
#include <chrono>
#include <deque>
#include <map>
#include <vector>
using namespace maf::messaging;
using routing::ProcessorStatusUpdateMsg;
using std::string;
struct M { int v; };
static const char *ID[2] = {"x", "y"};

struct Node {
  ProcessorInstance p;
  int id;
  bool live = true;
  std::vector<int> got;
  std::deque<int> pending;            // messages expected to be handled
  std::vector<string> status, wstatus;  // status updates seen / expected
  std::deque<string> wpending;
  std::deque<bool> kinds;             // order of pending: false M, true status
};
static string name(const ProcessorStatusUpdateMsg &m, std::vector<std::unique_ptr<Node>> &all) {
  auto p = m.messageprocessor();
  string s = "?";
  for (size_t i = 0; i < all.size(); ++i) if (all[i]->p == p) s = std::to_string(i);
  return s + (m.ready() ? "+" : "-");
}
static void history(int depth, bool status) {
  std::vector<std::unique_ptr<Node>> all;
  Node *holder[2] = {nullptr, nullptr};
  string log;
  int next = 0;
  auto expectStatus = [&](Node *about, const char *sign, Node *except) {
    if (!status) return;
    for (auto *h : holder)
      if (h && h != except) {
        string s;
        for (size_t i = 0; i < all.size(); ++i) if (all[i].get() == about) s = std::to_string(i);
        h->wpending.push_back(s + sign);
        h->kinds.push_back(true);
      }
  };
  auto stop = [&](Node *n) {
    n->p->stop();
    n->live = false;
    n->pending.clear();
    n->wpending.clear();
    n->kinds.clear();
    if (holder[n->id] == n) {
      holder[n->id] = nullptr;
      expectStatus(n, "-", n);
    }
  };
  for (int i = 0; i < depth; ++i) {
    int op = mc::choose(11, "op");
    log += " " + std::to_string(op);
    switch (op) {
      case 0: case 1: {  // create
        auto p = Processor::create(ID[op]);
        MC_CHECK((p != nullptr) == (holder[op] == nullptr), "%s: create gave %p", log.c_str(), p.get());
        if (p) {
          all.push_back(std::make_unique<Node>());
          Node *n = all.back().get();
          n->p = p;
          n->id = op;
          expectStatus(n, "+", nullptr);
          holder[op] = n;
          p->connect<M>([n](const M &m) { n->got.push_back(m.v); });
          if (status) p->connect<ProcessorStatusUpdateMsg>([n, &all](const ProcessorStatusUpdateMsg &m) { n->status.push_back(name(m, all)); });
        }
        break;
      }
      case 2: case 3:  // stop the holder
        if (!holder[op - 2]) mc::prune();
        stop(holder[op - 2]);
        break;
      case 4: {  // stop the first created again
        if (all.empty() || all[0]->live) mc::prune();
        all[0]->p->stop();
        break;
      }
      case 5: case 6: {  // post
        int v = next++;
        bool r = routing::post<M>(ID[op - 5], v);
        MC_CHECK(r == (holder[op - 5] != nullptr), "%s: post gave %d", log.c_str(), r);
        if (auto *h = holder[op - 5]) { h->pending.push_back(v); h->kinds.push_back(false); }
        break;
      }
      case 7: {  // broadcast
        int v = next++;
        bool r = routing::postToAll<M>(v);
        MC_CHECK(r == (holder[0] || holder[1]), "%s: postToAll gave %d", log.c_str(), r);
        for (auto *h : holder) if (h) { h->pending.push_back(v); h->kinds.push_back(false); }
        break;
      }
      case 8: case 9: {  // run the holder dry
        Node *h = holder[op - 8];
        if (!h) mc::prune();
        while (!h->kinds.empty()) {
          size_t g = h->got.size(), s = h->status.size();
          MC_CHECK(h->p->runOnceFor(std::chrono::microseconds(1)), "%s: nothing to run", log.c_str());
          if (h->kinds.front()) {
            MC_CHECK(h->status.size() == s + 1 && h->got.size() == g && h->status.back() == h->wpending.front(), "%s: status %s expected %s",
                     log.c_str(), h->status.empty() ? "" : h->status.back().c_str(), h->wpending.front().c_str());
            h->wpending.pop_front();
          } else {
            MC_CHECK(h->got.size() == g + 1 && h->status.size() == s && h->got.back() == h->pending.front(), "%s: message %d expected", log.c_str(), h->pending.front());
            h->pending.pop_front();
          }
          h->kinds.pop_front();
        }
        break;
      }
      case 10: {  // synchronous send from inside the holder of x
        Node *h = holder[0];
        if (!h || !h->kinds.empty()) mc::prune();
        int v = next++;
        bool ok = false;
        h->p->executeAsync([&] { auto s = routing::send<M>("x", v); ok = s.valid(); if (ok) s.get(); });
        h->p->runOnceFor(std::chrono::microseconds(1));
        MC_CHECK(ok && !h->got.empty() && h->got.back() == v, "%s: send to itself", log.c_str());
        break;
      }
    }
    for (int k = 0; k < 2; ++k) {
      auto f = routing::findProcessor(ID[k]);
      MC_CHECK(f == (holder[k] ? holder[k]->p : nullptr), "%s: findProcessor(%s) wrong", log.c_str(), ID[k]);
    }
    for (auto &n : all) MC_CHECK(n->p->pendingCout() == n->kinds.size(), "%s: %zu pending, expected %zu", log.c_str(), n->p->pendingCout(), n->kinds.size());
  }
  string o;
  for (auto &n : all) { for (int v : n->got) o += std::to_string(v); o += "/"; }
  mc::outcome(o);
}
struct Cleanup { ~Cleanup() { for (auto id : ID) if (auto p = routing::findProcessor(id)) p->stop(); } };
MC_SCENARIO(routeseq_messages, {.inproc = true}) { Cleanup c; history(mc::thorough() ? 7 : 6, false); }
MC_SCENARIO(routeseq_status, {.inproc = true}) { Cleanup c; history(mc::thorough() ? 7 : 6, true); }
