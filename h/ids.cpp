// P27: ids handed out.
#include <mc.h>
#include <thread>
#include <vector>
#include <util.h>
#include <maf/messaging/client-server/RegID.h>
using namespace maf::messaging;
template <class M, class T> void take(M &m, std::vector<T> &got) {
  T id = m.allocateNewID();
  got.push_back(id);
}
template <class M, class T> void distinct(const std::vector<T> &ids) {
  for (size_t i = 0; i < ids.size(); ++i) {
    MC_CHECK(ids[i] != M::INVALID_ID && M::isValidID(ids[i]), "the invalid id was handed out");
    for (size_t j = 0; j < i; ++j) MC_CHECK(ids[i] != ids[j], "id %lld handed out twice", (long long)ids[i]);
  }
}
// threads ask a manager that already gave out `before` ids
template <class T> void threads(size_t before, int n, int each) {
  using M = maf::util::IDManagerT<T>;
  M m;
  std::vector<std::vector<T>> got(n + 1);
  for (size_t i = 0; i < before; ++i) take(m, got[n]);
  {
    std::vector<std::thread> ts;
    for (int t = 0; t < n; ++t) ts.emplace_back([&, t] { for (int i = 0; i < each; ++i) { take(m, got[t]); if (i == 0) m.reclaimUsedID(got[t][0]); } });
    for (auto &t : ts) t.join();
  }
  std::vector<T> all;
  for (auto &g : got) all.insert(all.end(), g.begin(), g.end());
  distinct<M>(all);
}
MC_SCENARIO(id_two_threads, {.pb_quick = 4, .pb_thorough = 6}) { threads<uint64_t>(0, 2, 3); }
MC_SCENARIO(id_three_threads, {.pb_quick = 3, .pb_thorough = 5}) { threads<RequestID>(1, 3, 2); }
// 255 ids are there, the last ones are asked for at once
MC_SCENARIO(id_small_end, {.pb_quick = 4, .pb_thorough = 6}) { threads<uint8_t>(251, 2, 2); }
MC_SCENARIO(id_signed_end, {.pb_quick = 4, .pb_thorough = 6}) { threads<int8_t>(126, 2, 2); }
// the range wraps while several ask: never the invalid one
template <class T> void wrap(size_t before, int n) {
  using M = maf::util::IDManagerT<T>;
  M m;
  for (size_t i = 0; i < before; ++i) m.allocateNewID();
  std::vector<std::vector<T>> got(n);
  std::vector<std::thread> ts;
  for (int t = 0; t < n; ++t) ts.emplace_back([&, t] { take(m, got[t]); take(m, got[t]); });
  for (auto &t : ts) t.join();
  std::vector<T> all;
  for (auto &g : got) all.insert(all.end(), g.begin(), g.end());
  distinct<M>(all);
}
MC_SCENARIO(id_wrap, {.pb_quick = 4, .pb_thorough = 6}) { wrap<uint8_t>(252 + mc::choose(4, "before"), 2); }
MC_SCENARIO(id_wrap_three, {.pb_quick = 2, .pb_thorough = 4}) { wrap<uint8_t>(253 + mc::choose(3, "before"), 3); }
// one thread, any number of ids of small ranges
MC_SCENARIO(id_counts, {}) {
  using M = maf::util::IDManagerT<uint8_t>;
  M m, other;
  int n = 200 + mc::choose(120, "count");
  std::vector<uint8_t> ids;
  for (int i = 0; i < n; ++i) { take(m, ids); if (i % 3 == 0) m.reclaimUsedID(ids.back()); }
  MC_CHECK(M::isValidID(other.allocateNewID()), "another manager");
  for (int i = 0; i < n; ++i) MC_CHECK(M::isValidID(ids[i]), "number %d is the invalid id", i);
  if (n > 255) ids.resize(255);
  distinct<M>(ids);
}
MC_SCENARIO(id_regids, {.pb_quick = 4, .pb_thorough = 6}) {
  CSIDManager m;
  RegID a, b;
  a.opID = b.opID = "op";
  std::thread t([&] { RegID::allocateUniqueID(a, m); RegID::reclaimID(a, m); });
  RegID::allocateUniqueID(b, m);
  t.join();
  RegID c;
  c.opID = "op";
  RegID::allocateUniqueID(c, m);
  MC_CHECK(a.valid() && b.valid() && c.valid() && a != b && b != c && a != c, "not unique");
}
