// P23: protocol messages of the local IPC transport, encoded and back.
#include "srz.h"
#include "cs.h"
#include <maf/logging/Logger.h>
#include <functional>
#include <new>
#include <maf/messaging/client-server/CSError.h>
#include <maf/messaging/client-server/ipc/local/ParamTrait.h>
#include <maf/messaging/client-server/ipc/LocalIPCMessage.h>
using namespace maf::messaging;
using namespace maf::messaging::ipc::local;
using maf::srz::Buffer;

static size_t g_big;
static bool g_armed;
void *operator new(size_t n) { if (g_armed && n > g_big) g_big = n; if (void *p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
struct Arm { Arm() { g_big = 0; g_armed = true; } ~Arm() { g_armed = false; } };

// contents are compared by the payload classes
using Contents = std::tuple<Ag1, Ag3, AgN, Tup, Obj1, Obj3, std::vector<string>, std::map<int, string>, string, int, bool, VarA>;
constexpr size_t NC = std::tuple_size_v<Contents>;

static const string strs[] = {"svc", "", string("a\0b", 3), string(300, 'q'), "\xc3\xa4\xff", "."};
static const OpCode codes[] = {OpCode::Request, OpCode::StatusRegister, OpCode::SignalRegister, OpCode::Unregister, OpCode::StatusGet, OpCode::PartialRequestUpdate,
                               OpCode::Abort, OpCode::RegisterServiceStatus, OpCode::UnregisterServiceStatus, OpCode::ServiceStatusUpdate, OpCode::Invalid};
static const RequestID ids[] = {7, 0, RequestIDInvalid, 0x0102030405060708ull, 1ull << 63};
static const Address::Port ports[] = {5, 0, Address::INVALID_PORT, 0x8001};
static const CSErrorCode errs[] = {CSErrorCode::Unknown, CSErrorCode::InvalidParam, CSErrorCode::RequestTimeout, CSErrorCode::ServiceUnavailable};

struct Sent {
  std::shared_ptr<LocalIPCMessage> m;
  int kind, type = -1, err = 0;   // 0 none 1 error 2 content 3 content that is null
  size_t head;                    // bytes before the content
  std::function<bool(const CSPayloadIFPtr &, string &)> same;
};
static CSPayloadIFPtr content(Sent &s, int lvl, int from, int to) {
  CSPayloadIFPtr p;
  s.type = from + mc::choose(to - from, "content");
  with_type<Contents>(s.type, [&](auto tag) {
    using T = typename decltype(tag)::type;
    std::shared_ptr<T> v;
    if (s.kind == 2) { v = std::make_shared<T>(); gen(*v, lvl); }
    p = ParamTrait::translate<T>(v);
    s.same = [v](const CSPayloadIFPtr &p, string &why) {
      TranslationStatus st = TranslationStatus::NoSource;
      auto w = ParamTrait::translate<T>(p, &st);
      if (st != TranslationStatus::Success) { why = "not translated"; return false; }
      why = "content differs";
      return !v ? !w : w && eq(*v, *w);
    };
  });
  return p;
}
static Sent message(bool fields, bool payloads) {
  Sent s;
  s.m = std::make_shared<LocalIPCMessage>();
  s.m->setServiceID(strs[fields ? mc::choose(6, "service") : 0]);
  s.m->setOperationID(strs[fields ? mc::choose(6, "operation") : 5]);
  s.m->setOperationCode(codes[fields ? mc::choose(11, "code") : 0]);
  s.m->setRequestID(ids[fields ? mc::choose(5, "request") : 3]);
  s.m->setSourceAddress({strs[fields ? mc::choose(6, "name") : 0], ports[fields ? mc::choose(4, "port") : 3]});
  s.kind = mc::choose(4, "payload");
  s.head = s.m->toBytes().size();
  if (s.kind == 1) {
    int d = payloads ? mc::choose(6, "description") : 4;
    s.err = payloads ? mc::choose(4, "error") : 2;
    s.m->setPayload(std::make_shared<CSError>(strs[d], errs[s.err]));
    s.type = d;
  } else if (s.kind >= 2) {
    s.m->setPayload(content(s, 1, 0, payloads ? NC : 2));
  }
  return s;
}
static void same(const Sent &s, LocalIPCMessage &r) {
  MC_CHECK(r.serviceID() == s.m->serviceID(), "service id differs");
  MC_CHECK(r.operationID() == s.m->operationID(), "operation id differs");
  MC_CHECK(r.operationCode() == s.m->operationCode(), "operation code differs");
  MC_CHECK(r.requestID() == s.m->requestID(), "request id differs");
  MC_CHECK(r.sourceAddress() == s.m->sourceAddress(), "address differs");
  auto p = r.payload();
  for (int again = 0; again < 2; ++again) {
    if (s.kind == 0) {
      MC_CHECK(!p, "a message without payload got one");
      break;
    }
    MC_CHECK(p, "payload lost");
    MC_CHECK((p->type() == CSPayloadType::Error) == (s.kind == 1), "kind of payload");
    if (s.kind == 1) {
      auto e = std::static_pointer_cast<CSError>(p);
      MC_CHECK(e->description() == strs[s.type] && e->code() == errs[s.err], "error differs: %s", e->dump().c_str());
      MC_CHECK(e->equal(s.m->payload().get()) && s.m->payload()->equal(e.get()), "equal() of errors");
    } else {
      string why;
      MC_CHECK(s.same(p, why), "content type %d: %s", s.type, why.c_str());
      MC_CHECK(s.same(p, why), "content type %d, read again: %s", s.type, why.c_str());
    }
    p.reset(p->clone());
  }
}
static void round_trip(bool fields, bool payloads) {
  Sent s = message(fields, payloads);
  Buffer b = s.m->toBytes();
  MC_CHECK(b == s.m->toBytes(), "encoding changes the message");
  LocalIPCMessage r;
  if (mc::choose(2, "reused")) {
    r = LocalIPCMessage("old", "o", OpCode::Abort, 99, std::make_shared<CSError>("old"), {"n", 3});
  }
  MC_CHECK(r.fromBytes(Buffer(b)), "refused");
  same(s, r);
}
MC_SCENARIO(msg_fields, {.inproc = true}) { round_trip(true, false); }
MC_SCENARIO(msg_payloads, {.inproc = true}) { round_trip(false, true); }

// whatever arrived, everything of it can be used
static void use(LocalIPCMessage &r, size_t n, int type) {
  (void)r.sourceAddress().valid();
  if (auto p = r.payload()) {
    if (p->type() == CSPayloadType::Error) { std::static_pointer_cast<CSError>(p)->dump(); return; }
    with_type<Contents>(type < 0 ? 1 : type, [&](auto tag) {
      using T = typename decltype(tag)::type;
      TranslationStatus st = TranslationStatus::NoSource;
      auto w = ParamTrait::translate<T>(p, &st);
      MC_CHECK(st == TranslationStatus::Success || !w, "a value although translation failed");
      std::ostringstream os;
      p->dump(os);
    });
  }
}
MC_SCENARIO(msg_truncated, {.inproc = true}) {
  Sent s = message(false, true);
  Buffer b = s.m->toBytes();
  size_t cut = mc::choose(b.size(), "cut");
  b.resize(cut);
  LocalIPCMessage r;
  bool ok;
  { Arm a; ok = r.fromBytes(Buffer(b)); }
  MC_CHECK(g_big < (1 << 20), "%zu bytes allocated at once for %zu", g_big, cut);
  if (!ok) { MC_CHECK(!r.payload(), "refused, but there is a payload"); return; }
  MC_CHECK(cut >= s.head && s.kind >= 2, "%zu of the %zu bytes before the content accepted", cut, s.head);
  with_type<Contents>(s.type, [&](auto tag) {
    using T = typename decltype(tag)::type;
    TranslationStatus st = TranslationStatus::NoSource;
    Arm a;
    auto w = ParamTrait::translate<T>(r.payload(), &st);
    MC_CHECK(st != TranslationStatus::Success && !w, "truncated content (%zu bytes) accepted", cut);
    MC_CHECK(g_big < (1 << 20), "%zu bytes allocated at once for %zu", g_big, cut);
  });
}
MC_SCENARIO(msg_changed, {.inproc = true}) {
  Sent s = message(false, mc::thorough());
  Buffer b = s.m->toBytes();
  if (b.size() > 200) mc::prune();
  size_t at = mc::choose(b.size(), "position");
  static const int vals[] = {0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xfe, 0xff};
  b[at] = mc::thorough() ? (char)mc::choose(256, "byte") : (char)vals[mc::choose(10, "byte")];
  int more = mc::choose(3, "more");
  if (more == 1 && at + 1 < b.size()) b[at + 1] = 0xff;
  if (more == 2) b.resize(b.size() - 1);
  Arm a;
  LocalIPCMessage r;
  if (r.fromBytes(Buffer(b))) use(r, b.size(), s.type);
  MC_CHECK(g_big < (1 << 20), "%zu bytes allocated at once for %zu", g_big, b.size());
}
// a content is not taken for one of another type when it is too short for it, and never crashes
MC_SCENARIO(msg_other_type, {.inproc = true}) {
  Sent s = message(false, true);
  if (s.kind < 2) mc::prune();
  Buffer b = s.m->toBytes();
  LocalIPCMessage r;
  MC_CHECK(r.fromBytes(Buffer(b)), "refused");
  Arm a;
  use(r, b.size(), mc::choose(NC, "type"));
  MC_CHECK(g_big < (1 << 20), "%zu bytes allocated at once for %zu", g_big, b.size());
  same(s, r);   // and it can still be read
}
MC_SCENARIO(msg_garbage, {.inproc = true}) {
  int n = mc::choose(mc::thorough() ? 11 : 9, "length");
  static const int vals[] = {0, 1, 0xff, 2};
  string b;
  for (int i = 0; i < n; ++i) b += (char)vals[mc::choose(4, "byte")];
  int zeros = mc::choose(3, "zeros");
  b += string(zeros == 0 ? 0 : zeros == 1 ? 19 : 27, 0);
  Arm a;
  LocalIPCMessage r;
  if (r.fromBytes(Buffer(b))) use(r, b.size(), -1);
  MC_CHECK(g_big < (1 << 20), "%zu bytes allocated at once for %zu", g_big, b.size());
}

// whatever a peer (of another version, say) puts in the fields of a message, both sides stay as they were, with logging on as well
MC_SCENARIO(msg_delivered, {.inproc = true}) {
  int code = mc::choose(256, "code"), kind = mc::choose(3, "payload"), side = mc::choose(2, "side");
  bool known = code < (int)OpCode::Invalid;
  static const char *ops[] = {"op", "", "st"};
  LocalIPCMessage m("svc", ops[mc::choose(3, "operation")], OpCode::Invalid, ids[mc::choose(3, "request")], {}, {"peer", 3});
  m.setOperationCode(static_cast<OpCode>(code));
  if (kind == 1) {
    static const int errs[] = {0, 3, 9, 0x20, 0x7f, 0x80, 0xff};
    m.setPayload(std::make_shared<CSError>("bad", static_cast<CSErrorCode>(errs[mc::choose(7, "error")])));
  }
  if (kind == 2) m.setPayload(ParamTrait::translate<Ag1>(std::make_shared<Ag1>()));
  auto r = std::make_shared<LocalIPCMessage>();
  MC_CHECK(r->fromBytes(m.toBytes()), "refused");
  size_t written = 0;
  maf::logging::init(0xff, [&](const string &t) { written += t.size(); });
  struct Off { ~Off() { maf::logging::init(); } } off;
  if (side == 0) {
    auto s = std::make_shared<cs::TestServer>();
    auto p = s->getServiceProvider("svc");
    std::shared_ptr<RequestIF> req;
    p->registerRequestHandler("held", [&](const std::shared_ptr<RequestIF> &q) { req = q; });
    p->registerRequestHandler("op", [](const std::shared_ptr<RequestIF> &q) { q->respond(nullptr); });
    p->setStatus("st", cs::pay(5));
    s->from("c", OpCode::Request, "held", 4);
    s->from("c", OpCode::StatusRegister, "st", 5);
    s->out.clear();
    bool handled = s->incoming(r);
    if (!known) MC_CHECK(!handled && s->out.empty(), "unknown code %d handled: %s", code, cs::show(s->out).c_str());
    for (auto &o : s->out) MC_CHECK(o.addr == "peer", "a message to %s for one of peer", o.addr.c_str());
    s->out.clear();
    req->respond(cs::pay(8));
    p->setStatus("st", cs::pay(6));
    int c = 0;
    for (auto &o : s->out) if (o.addr == "c") c += o.v;
    MC_CHECK(c == 14, "the other client was sent: %s", cs::show(s->out).c_str());
    s->deinit();
  } else {
    auto c = std::make_shared<cs::TestClient>();
    auto q = c->getServiceRequester("svc");
    c->available("svc");
    std::vector<int> got, seen;
    q->sendRequestAsync("held", cs::pay(1), [&](const CSPayloadIFPtr &p) { got.push_back(cs::val(p)); }, nullptr);
    q->registerStatus("level", [&](const CSPayloadIFPtr &p) { seen.push_back(cs::val(p)); }, nullptr);
    q->sendRequestAsync("op", cs::pay(1), [&](const CSPayloadIFPtr &p) { if (p) { std::ostringstream os; p->dump(os); } }, nullptr);
    auto id = c->out[0].id;
    bool handled = c->incoming(r);
    if (!known) MC_CHECK(!handled, "unknown code %d handled", code);
    c->available("svc");
    c->reply(OpCode::Request, "held", id, cs::pay(8));
    c->reply(OpCode::StatusRegister, "level", RequestIDInvalid, cs::pay(9));
    MC_CHECK(got == std::vector<int>{8} && seen == std::vector<int>{9}, "the held request got %zu answers, the registration %zu changes", got.size(), seen.size());
    c->deinit();
  }
}
