// P19, histories: typed proxy and stub over the local IPC connection (simulated
// sockets), held against the same reference as in-process.
#include <vsock.h>
#include <mc.h>
#define TY_IPC
#define TY_STUB(s, e) maf::localipc::createStub(maf::messaging::Address("srv", 1), s, e)
#define TY_PROXY(s, e) maf::localipc::createProxy(maf::messaging::Address("srv", 1), s, e)
#define TY_SETTLE() mc::quiesce()
#include "typed_hist.h"
#include <maf/messaging/client-server/CSMgmt.h>
static void come(W &w) { mc::sleep_ns(1200000000ull); w.drain(); }
static void history(W &w, int n) {
  for (int i = 0; i < n; ++i) step(w, mc::choose(OpN, "op"), i + 1);
}
MC_SCENARIO(typi_from_up, {.pb_quick = 0, .pb_thorough = 0, .blocked_ok = true, .delays = true}) {
  W w;
  come(w);
  step(w, Up, 0);
  history(w, mc::thorough() ? 4 : 3);
}
MC_SCENARIO(typi_from_down, {.pb_quick = 0, .pb_thorough = 0, .blocked_ok = true, .delays = true}) {
  W w;
  come(w);
  history(w, mc::thorough() ? 4 : 3);
}
// shorter ones, with every step also run out of turn
MC_SCENARIO(typi_delayed, {.pb_quick = 1, .pb_thorough = 1, .blocked_ok = true, .delays = true}) {
  W w;
  int k = 20;
  come(w);
  step(w, Up, 20);
  for (int op : {RegL, RegN, EchoKept}) step(w, op, ++k);
  history(w, mc::thorough() ? 2 : 1);
}
// several registrations first
MC_SCENARIO(typi_registered, {.pb_quick = 0, .pb_thorough = 0, .blocked_ok = true, .delays = true}) {
  W w;
  come(w);
  int k = 20;
  if (mc::choose(2, "set before")) step(w, SetA, k++);
  step(w, Up, k++);
  for (int op : {RegL, RegN, RegT, RegL, RegN, Local, Local, Local}) step(w, op, k++);
  history(w, 3);
}
