// P19, histories: typed proxy and stub over the in-process connection.
#include "typed.h"
#define TY_STUB maf::itc::createStub
#define TY_PROXY maf::itc::createProxy
#define TY_SETTLE() (void)0
#include "typed_hist.h"
MC_SCENARIO(typed_from_up, {.inproc = true}) { history(1, mc::thorough() ? 5 : 4); }
MC_SCENARIO(typed_from_down, {.inproc = true}) { history(0, mc::thorough() ? 5 : 4); }
// several registrations first, then a history
MC_SCENARIO(typed_registered, {.inproc = true}) {
  W w;
  int k = 20;
  if (mc::choose(2, "set before")) step(w, SetA, k++);
  step(w, Up, k++);
  for (int op : {RegL, RegN, RegT, RegL, RegN, Local, Local, Local}) step(w, op, k++);
  for (int i = 0; i < (mc::thorough() ? 4 : 3); ++i) step(w, mc::choose(OpN, "op"), i + 1);
}
