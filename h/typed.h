// A contract and its in-process stub and proxy.
#pragma once
#ifdef TY_IPC
#include <maf/LocalIPCProxy.h>
#include <maf/LocalIPCStub.h>
namespace tyns = maf::localipc;
#else
#include <maf/ITCProxy.h>
#include <maf/ITCStub.h>
namespace tyns = maf::itc;
#endif
#include <maf/Messaging.h>
#include <maf/messaging/client-server/ServiceStatusSignal.h>
#include <maf/utils/DirectExecutor.h>
#include <deque>
#include <functional>
#include "util.h"
#include <maf/messaging/client-server/CSContractDefinesBegin.mc.h>
REQUEST(echo)
  INPUT((int, n), (std::string, s))
  OUTPUT((int, n), (std::string, s))
ENDREQUEST(echo)
REQUEST(other)
  INPUT((int, n))
  OUTPUT((int, n))
ENDREQUEST(other)
VOID_REQUEST(bare)
VOID_REQUEST(ping)
REQUEST(onlyout)
  OUTPUT((int, n))
ENDREQUEST(onlyout)
PROPERTY(level)
  STATUS((int, n), (std::string, s))
ENDPROPERTY(level)
PROPERTY(mode)
  STATUS((int, n))
ENDPROPERTY(mode)
SIGNAL(news)
  ATTRIBUTES((int, n), (std::vector<int>, more))
ENDSIGNAL(news)
VOID_SIGNAL(tick)
#include <maf/messaging/client-server/CSContractDefinesEnd.mc.h>
namespace ty {
using namespace maf::messaging;
using tyns::Proxy; using tyns::Stub;
using tyns::ProxyPtr; using tyns::StubPtr;
using std::string; using std::to_string;
template <class I> using Req = tyns::Request<I>;
template <class O> using Resp = tyns::Response<O>;
using ACS = ActionCallStatus;

// runs nothing by itself: drain() does
struct Later : maf::util::ExecutorIF {
  std::deque<CallbackType> q;
  std::mutex m;
  bool running = false, closed = false;
  bool execute(CallbackType c) noexcept override { std::lock_guard<std::mutex> z(m); if (closed) return false; q.push_back(std::move(c)); return true; }
  bool next(CallbackType &c) {
    std::lock_guard<std::mutex> z(m);
    if (q.empty()) return false;
    c = std::move(q.front());
    q.pop_front();
    return true;
  }
  bool drain() {
    bool any = false;
    running = true;
    for (CallbackType c; next(c); any = true) { c(); c = {}; }
    running = false;
    return any;
  }
};
// another executor, that has them run by the one behind it
struct Via : maf::util::ExecutorIF {
  std::shared_ptr<Later> to;
  bool running = false;
  explicit Via(std::shared_ptr<Later> l) : to(std::move(l)) {}
  bool execute(CallbackType c) noexcept override {
    return to->execute([this, c = std::move(c)]() mutable { running = true; c(); c = {}; running = false; });
  }
};
template <class O> string show(const Resp<O> &r) {
  if (r.isError()) return r.getError() ? "e" + to_string(int(r.getError()->code())) + r.getError()->description() : "e?";
  if constexpr (std::is_base_of_v<cs_output, O>) {
    if (!r.getOutput()) return r.isOutput() ? "null" : "none";
    auto o = r.getOutput();
    if constexpr (std::is_same_v<O, echo_request::output>) return to_string(o->get_n()) + o->get_s();
    else return to_string(o->get_n());
  } else return r.isError() ? "e" : "ok";
}
}  // namespace ty
