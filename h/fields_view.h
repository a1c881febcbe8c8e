// P28: views of one size range.
#pragma once
#include "fields_n.h"
#include <util.h>
inline void mc_same(const void *a, const void *b, int i) { MC_CHECK(a == b, "element %d is another field", i); }
// a view of n fields: every field of `s`, by reference, in order
template <int N> void views() {
  using T = S<N>;
  T s{};
  int *f = (int *)&s;
  for (int i = 0; i < N; ++i) f[i] = i * 7 + 1;
  auto v = tuple_view(s);
  constexpr int n = std::tuple_size_v<decltype(v)>;
  MC_CHECK(n == N, "%d fields seen as %d", N, n);
  int i = 0;
  std::apply([&](auto &...e) { ((void)(mc_same(&e, f + i, i), ++i), ...); }, v);
  MC_CHECK(i == N, "tuple of %d fields has %d", N, i);
  i = 0;
  for_each_field(s, [&](int &e) { MC_CHECK(&e == f + i, "%d fields: visit %d is another field", N, i); e += 1000; ++i; });
  MC_CHECK(i == N, "%d fields, %d visited", N, i);
  for (int k = 0; k < N; ++k) MC_CHECK(f[k] == k * 7 + 1001, "%d fields: field %d not written through the view", N, k);
  const T &c = s;
  i = 0;
  for_each_field(c, [&](const int &e) { MC_CHECK(&e == f + i, "%d fields, const: visit %d", N, i); ++i; });
  MC_CHECK(i == N, "%d const fields, %d visited", N, i);
  // the same through flattening
  auto fl = flaten(s);
  constexpr int m = std::tuple_size_v<decltype(fl)>;
  MC_CHECK(m == N, "%d fields flattened to %d", N, m);
  i = 0;
  std::apply([&](auto &...e) { ((void)(mc_same(&e, f + i, i), ++i), ...); }, fl);
  // comparison sees each of them
  if constexpr (N > 0) {
    int at = mc::choose(N, "field");
    T o = s;
    using namespace maf::nstl;
    MC_CHECK(o == s && !(o != s) && !(o < s), "%d fields: copies differ", N);
    ((int *)&o)[at]++;
    MC_CHECK(o != s && s < o && !(o < s) && !(o == s), "%d fields: field %d not compared", N, at);
  }
}
template <int From, int... Ns> void sizes(std::integer_sequence<int, Ns...>) {
  int k = mc::choose(sizeof...(Ns), "size"), i = 0;
  ((i++ == k ? views<From + Ns>() : void()), ...);
}

