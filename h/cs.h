// A client and a server whose transport is the harness: what they send is
// recorded and answered as the scenario wants.
#pragma once
#include <maf/messaging/client-server/CSError.h>
#include <maf/messaging/client-server/CSMessage.h>
#include <maf/messaging/client-server/RequestIF.h>
#include <maf/messaging/client-server/ServiceRequesterIF.h>
#include <maf/messaging/client-server/ServiceProviderIF.h>
#include <maf/messaging/client-server/ClientBase.h>
#include <maf/messaging/client-server/ServerBase.h>
#include "util.h"
#include <functional>
namespace cs {
using namespace maf::messaging;
using std::string;

struct Pay : CSMsgPayloadIF {
  int v;
  explicit Pay(int v) : v(v) {}
  CSPayloadType type() const override { return CSPayloadType::OutgoingData; }
  bool equal(const CSMsgPayloadIF *o) const override {
    auto p = dynamic_cast<const Pay *>(o);
    return p && p->v == v;
  }
  CSMsgPayloadIF *clone() const override { return new Pay(v); }
  void dump(std::ostream &os) const override { os << v; }
};
inline CSPayloadIFPtr pay(int v) { return std::make_shared<Pay>(v); }
// -1: null, -2: error, -3: something else
inline int val(const CSPayloadIFPtr &p) {
  if (!p) return -1;
  if (p->type() == CSPayloadType::Error) return -2;
  auto q = dynamic_cast<Pay *>(p.get());
  return q ? q->v : -3;
}
inline const char *S = "svc";

struct Sent { OpCode code; OpID op; RequestID id; int v; string addr; };

struct TestClient : ClientBase {
  std::vector<Sent> out;
  std::function<ActionCallStatus(const CSMessagePtr &)> hook;
  ActionCallStatus sendMessageToServer(const CSMessagePtr &m) override {
    { mc::Quiet q; out.push_back({m->operationCode(), m->operationID(), m->requestID(), val(m->payload()), ""}); }
    return hook ? hook(m) : ActionCallStatus::Success;
  }
  bool start() override { return true; }
  void stop() override {}
  bool incoming(const CSMessagePtr &m) { return static_cast<CSMessageReceiverIF *>(this)->onIncomingMessage(m); }
  void available(const char *s = S) { onServiceStatusChanged(s, Availability::Unavailable, Availability::Available); }
  void unavailable(const char *s = S) { onServiceStatusChanged(s, Availability::Available, Availability::Unavailable); }
  bool reply(OpCode c, const OpID &op, RequestID id, CSPayloadIFPtr p) { return incoming(createCSMessage(S, op, c, id, std::move(p))); }
  size_t sent() { mc::Quiet q; return out.size(); }
};
struct TestServer : ServerBase {
  std::vector<Sent> out;
  std::vector<string> status;
  std::function<ActionCallStatus(const CSMessagePtr &, const Address &)> hook;
  ActionCallStatus sendMessageToClient(const CSMessagePtr &m, const Address &a) override {
#ifdef MC_TSAN
    mc::point();
#endif
    auto r = hook ? hook(m, a) : ActionCallStatus::Success;
    if (r == ActionCallStatus::Success) {
      mc::Quiet q;
      out.push_back({m->operationCode(), m->operationID(), m->requestID(), val(m->payload()), string(a.get_name())});
    }
    return r;
  }
  void notifyServiceStatusToClient(const ServiceID &sid, Availability, Availability n) override {
    mc::Quiet q;
    status.push_back(sid + (n == Availability::Available ? "+" : "-"));
  }
  bool start() override { return true; }
  void stop() override {}
  bool incoming(const CSMessagePtr &m) { return static_cast<CSMessageReceiverIF *>(this)->onIncomingMessage(m); }
  bool from(const char *client, OpCode c, const OpID &op, RequestID id = RequestIDInvalid, CSPayloadIFPtr p = {}) {
    return incoming(createCSMessage(S, op, c, id, std::move(p), Address(client, 0)));
  }
};
inline string show(const std::vector<Sent> &v) {
  string s;
  for (auto &x : v) s += string(1, "SsUGRPAr-u!"[std::min(int(x.code), 10)]) + x.op + ":" + std::to_string((long)x.id) + "=" + std::to_string(x.v) + (x.addr.empty() ? "" : ">" + x.addr) + " ";
  return s;
}
}  // namespace cs
