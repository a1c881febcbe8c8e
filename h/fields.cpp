// P28: field-wise views of aggregates, and the difference of tuples.
#include "fields_n.h"
#include <util.h>
inline void mc_same(const void *a, const void *b, int i) { MC_CHECK(a == b, "element %d is another field", i); }
template <class T> bool is_addr(const T &t, const void *p) { return &t == p; }
// nestings: what is visited are the fields themselves; flattened, the innermost ones
struct In { int a; string b; };
struct Mid { In x; double y; In z; };
struct Out { char c; Mid m; std::vector<int> v; Mid k; std::shared_ptr<int> p; };
struct One { In only; };
struct OneOne { One only; };
struct Emp {};
struct WithEmp { int a; Emp e; int b; };
struct PtrRef { int *p; const char *t; bool b : 8; };
MC_SCENARIO(view_nested, {.inproc = true}) {
  Out o{};
  auto v = tuple_view(o);
  MC_CHECK(std::tuple_size_v<decltype(v)> == 5 && &std::get<0>(v) == &o.c && &std::get<1>(v) == &o.m && &std::get<2>(v) == &o.v && &std::get<3>(v) == &o.k && &std::get<4>(v) == &o.p, "view of the outer");
  auto f = flaten(o);
  static_assert(std::tuple_size_v<decltype(f)> == 13);
  const void *want[] = {&o.c, &o.m.x.a, &o.m.x.b, &o.m.y, &o.m.z.a, &o.m.z.b, &o.v, &o.k.x.a, &o.k.x.b, &o.k.y, &o.k.z.a, &o.k.z.b, &o.p};
  int i = 0;
  std::apply([&](auto &...e) { ((void)(mc_same(&e, want[i], i), ++i), ...); }, f);
  int n = 0;
  for_each_field(o.m, [&](auto &e) { n += is_addr(e, &o.m.x) + 10 * is_addr(e, &o.m.y) + 100 * is_addr(e, &o.m.z); });
  MC_CHECK(n >= 111 || (const void *)&o.m == (const void *)&o.m.x, "fields of the middle: %d", n);
  OneOne q{};
  auto g = flaten(q);
  static_assert(std::tuple_size_v<decltype(g)> == 2);
  MC_CHECK(&std::get<0>(g) == &q.only.only.a && &std::get<1>(g) == &q.only.only.b, "flattening through single fields");
  WithEmp w{};
  auto h = flaten(w);
  static_assert(std::tuple_size_v<decltype(h)> == 2 && std::tuple_size_v<decltype(tuple_view(w))> == 3);
  MC_CHECK(&std::get<0>(h) == &w.a && &std::get<1>(h) == &w.b, "an empty field is not skipped");
  Emp e;
  static_assert(std::tuple_size_v<decltype(tuple_view(e))> == 0 && std::tuple_size_v<decltype(flaten(e))> == 0);
  for_each_field(e, [](auto &) { mc::violation("an empty aggregate has no field"); });
}
// flattened comparison: a change anywhere counts, the first one decides the order
MC_SCENARIO(view_compared, {.inproc = true}) {
  using namespace maf::nstl;
  auto make = [](int i) { Out o{}; o.c = 'a' + (i & 1); o.m.x.a = i >> 1 & 1; o.m.z.b = i >> 2 & 1 ? "z" : ""; o.v.assign(i >> 3 & 1, 4); o.k.y = i >> 4 & 1; return o; };
  int i = mc::choose(32, "first"), j = mc::choose(32, "second");
  Out a = make(i), b = make(j);
  int d = 0;
  for (int bit = 0; bit < 5 && !d; ++bit) if ((i ^ j) >> bit & 1) d = (i >> bit & 1) ? 1 : -1;
  MC_CHECK((a == b) == (d == 0) && (a != b) == (d != 0) && (a < b) == (d < 0) && (a > b) == (d > 0) && (a <= b) == (d <= 0) && (a >= b) == (d >= 0), "%d and %d", i, j);
}
// tuples that differ at a set of positions
template <class T> void differ(T a, T b, unsigned want) {
  auto d = maf::util::tuple_diff(a, b);
  MC_CHECK(d.to_ulong() == want, "marks %lx, expected %x", d.to_ulong(), want);
  MC_CHECK(maf::util::tuple_diff(b, a) == d && maf::util::tuple_diff(a, a).none(), "other way round");
}
struct Near { bool operator()(int a, int b) const { return a / 10 != b / 10; } };
MC_SCENARIO(diff_positions, {.inproc = true}) {
  unsigned m = mc::choose(64, "positions");
  auto on = [&](int i) { return int(m >> i & 1); };
  differ(std::make_tuple(1, string("s"), 2.5, 'c', std::vector<int>{1}, true), std::make_tuple(1 + on(0), string(on(1) ? "" : "s"), 2.5 + on(2), char('c' + on(3)), std::vector<int>(1 + on(4), 1), !on(5)), m);
  differ(std::make_tuple(), std::make_tuple(), 0);
  differ(std::make_tuple(5), std::make_tuple(5 + on(0)), m & 1);
  In a{3, "x"}, b{3 + on(0), on(1) ? "y" : "x"};
  auto va = tuple_view(a), vb = tuple_view(b);
  MC_CHECK(maf::util::tuple_diff(va, vb).to_ulong() == (m & 3), "views");
  auto x = std::make_tuple(10, 20, 30), y = std::make_tuple(10 + 5 * on(0) + 10 * on(1), 20 + 9 * on(2), 30 - on(3));
  auto n = maf::util::tuple_diff<decltype(x), Near>(x, y);
  MC_CHECK(n.to_ulong() == ((on(1) ? 1u : 0u) | (on(3) ? 4u : 0u)), "own comparison: %lx", n.to_ulong());
}
MC_SCENARIO(diff_wide, {.inproc = true}) {
  S<33> a{}, b{};
  int i = mc::choose(33, "one"), j = mc::choose(34, "two");
  ((int *)&b)[i] = 1;
  if (j < 33) ((int *)&b)[j] = 1;
  auto va = tuple_view(a), vb = tuple_view(b);
  auto d = maf::util::tuple_diff(va, vb);
  for (int k = 0; k < 33; ++k) MC_CHECK(d.test(k) == (k == i || k == j), "position %d of 33", k);
}
// visiting a tuple
MC_SCENARIO(each_element, {.inproc = true}) {
  std::tuple<int, string, std::unique_ptr<int>, int> t{1, "b", std::make_unique<int>(7), 2};
  string seen;
  struct {
    string &s;
    void operator()(int &i) { s += "i" + std::to_string(i); i += 5; }
    void operator()(string &x) { s += x; }
    void operator()(std::unique_ptr<int> &p) { s += "p" + std::to_string(*p); }
  } f{seen};
  tuple_for_each(t, f);
  MC_CHECK(seen == "i1bp7i2" && std::get<0>(t) == 6 && std::get<3>(t) == 7, "visited %s", seen.c_str());
  int n = 0;
  tuple_for_each(std::make_tuple(), [&](auto &) { ++n; });
  tuple_for_each(const_cast<const decltype(t) &>(t), [&](const auto &) { ++n; });
  tuple_for_each(std::make_pair(1, 2), [&](const auto &e) { n += 10 * e; });
  tuple_for_each(std::array<int, 3>{1, 1, 1}, [&](int e) { n += 100 * e; });
  MC_CHECK(n == 334, "visited %d", n);
}
