// P26: addresses, registration ids and comparable aggregates, compared and as keys.
#include <mc.h>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <maf/messaging/client-server/Address.h>
#include <maf/messaging/client-server/RegID.h>
#include <maf/utils/cppextension/AggregateCompare.h>
using namespace maf::messaging;
using std::string;

struct G2 { int a; string b; };
struct G4 { bool a; char b; string c; int d; };
struct GN { int8_t x; G2 in; G4 deep; int last; };
struct GD { struct Mid { G2 g; int m; } mid; string tail; };
struct GV { std::vector<int> v; int k; };
MC_MAF_MAKE_COMPARABLE(G2) MC_MAF_MAKE_COMPARABLE(GN) MC_MAF_MAKE_COMPARABLE(GD)
using namespace maf::nstl;   // compares the others
namespace user { struct U3 { int a, b, c; }; MC_MAF_MAKE_COMPARABLE(U3) }

static const string S[] = {"", "a", "b", "ab", string("a\0", 2)};
static const int I[] = {0, -1, 5};
template <class T> struct V;
template <> struct V<Address> {
  static auto make() { static const Address::Port p[] = {0, 1, 7, Address::INVALID_PORT}; auto &s = S[mc::choose(5, "name")]; return Address(s, p[mc::choose(4, "port")]); }
  static auto key(const Address &a) { return std::make_tuple(a.get_name(), a.get_port()); }
};
template <> struct V<RegID> {
  static auto make() { static const RequestID q[] = {0, 1, 9, RequestIDInvalid}; RegID r; r.requestID = q[mc::choose(4, "id")]; r.opID = S[mc::choose(5, "op")]; return r; }
  static auto key(const RegID &r) { return std::make_tuple(r.requestID, r.opID); }
};
static int num() { return I[mc::choose(3, "number")]; }
static string str() { return S[mc::choose(3, "text")]; }
template <> struct V<G2> { static G2 make() { int a = num(); return {a, str()}; } static auto key(const G2 &g) { return std::make_tuple(g.a, g.b); } };
template <> struct V<G4> {
  static G4 make() { bool a = mc::choose(2, "flag"); char b = "ab"[mc::choose(2, "char")]; string c = S[mc::choose(2, "text")]; return {a, b, c, I[mc::choose(2, "number")]}; }
  static auto key(const G4 &g) { return std::make_tuple(g.a, g.b, g.c, g.d); }
};
template <> struct V<GN> {
  static GN make() { int i = mc::choose(64, "fields"); return {(int8_t)(i & 1), {i >> 1 & 1, S[i >> 2 & 1]}, {bool(i >> 3 & 1), 'x', S[i >> 4 & 1], 3}, i >> 5 & 1}; }
  static auto key(const GN &g) { return std::make_tuple(g.x, g.in.a, g.in.b, g.deep.a, g.deep.b, g.deep.c, g.deep.d, g.last); }
};
template <> struct V<GD> {
  static GD make() { int i = mc::choose(16, "fields"); return {{{i & 1, S[i >> 1 & 1]}, i >> 2 & 1}, S[i >> 3 & 1]}; }
  static auto key(const GD &g) { return std::make_tuple(g.mid.g.a, g.mid.g.b, g.mid.m, g.tail); }
};
template <> struct V<GV> {
  static GV make() { std::vector<int> v(mc::choose(3, "length")); for (auto &e : v) e = mc::choose(2, "elem"); return {v, mc::choose(2, "number")}; }
  static auto key(const GV &g) { return std::make_tuple(g.v, g.k); }
};
template <> struct V<user::U3> {
  static user::U3 make() { int a = I[mc::choose(2, "a")], b = num(); return {a, b, I[mc::choose(2, "c")]}; }
  static auto key(const user::U3 &g) { return std::make_tuple(g.a, g.b, g.c); }
};

template <class T> void agree(const T &a, const T &b, const char *n, bool all) {
  auto ka = V<T>::key(a), kb = V<T>::key(b);
  MC_CHECK((a == b) == (ka == kb), "%s: == is %d", n, a == b);
  MC_CHECK((a != b) == (ka != kb), "%s: != is %d", n, a != b);
  (void)all;
}
// every triple of values
template <class T> void order(const char *n) {
  T a = V<T>::make(), b = V<T>::make();
  agree(a, b, n, false);
  MC_CHECK(!(a < a), "%s: a < a", n);
  MC_CHECK((a < b) + (b < a) + (a == b) == 1, "%s: a<b %d b<a %d a==b %d", n, a < b, b < a, a == b);
  T c = V<T>::make();
  if (a < b && b < c) MC_CHECK(a < c, "%s: not transitive", n);
  if (!(a < b) && !(b < a) && !(b < c) && !(c < b)) MC_CHECK(!(a < c) && !(c < a), "%s: equivalence is not transitive", n);
}
// field by field, as tuples are compared
template <class T> void lexical(const char *n) {
  T a = V<T>::make(), b = V<T>::make();
  auto ka = V<T>::key(a), kb = V<T>::key(b);
  MC_CHECK((a < b) == (ka < kb) && (a > b) == (ka > kb) && (a <= b) == (ka <= kb) && (a >= b) == (ka >= kb), "%s: < %d > %d <= %d >= %d", n, a < b, a > b, a <= b, a >= b);
  T c = a;
  MC_CHECK(a == c && V<T>::key(c) == ka, "%s: a copy differs", n);
}
// sets and maps against a plain list of the distinct keys
template <class T> void keyed(const char *n, int steps) {
  std::set<T> s;
  std::map<T, int> m;
  std::multimap<T, int> mm;
  std::vector<std::pair<T, int>> model;
  for (int i = 0; i < steps; ++i) {
    T k = V<T>::make();
    auto kk = V<T>::key(k);
    auto it = std::find_if(model.begin(), model.end(), [&](auto &e) { return V<T>::key(e.first) == kk; });
    bool has = it != model.end();
    MC_CHECK(s.count(k) == (has ? 1u : 0u) && (s.find(k) != s.end()) == has, "%s: set finds %zu", n, s.count(k));
    auto f = m.find(k);
    MC_CHECK((f != m.end()) == has && (!has || f->second == it->second), "%s: map finds another", n);
    if (mc::choose(3, "op") < 2) {
      MC_CHECK(s.insert(k).second == !has, "%s: insert into the set", n);
      m[k] = i;
      mm.emplace(k, i);
      if (has) it->second = i; else model.emplace_back(k, i);
    } else {
      MC_CHECK(s.erase(k) == (has ? 1u : 0u) && m.erase(k) == (has ? 1u : 0u), "%s: erase", n);
      mm.erase(k);
      if (has) model.erase(it);
    }
    MC_CHECK(s.size() == model.size() && m.size() == model.size(), "%s: %zu in the set, %zu in the map, expected %zu", n, s.size(), m.size(), model.size());
    for (auto &e : model) MC_CHECK(s.count(e.first) && m.at(e.first) == e.second && mm.count(e.first), "%s: lost", n);
  }
}
#define ORD(name, T) MC_SCENARIO(order_##name, {.inproc = true}) { order<T>(#name); }
#define LEX(name, T) MC_SCENARIO(fields_##name, {.inproc = true}) { lexical<T>(#name); }
#define KEY(name, T, q, t) MC_SCENARIO(keys_##name, {.inproc = true}) { keyed<T>(#name, mc::thorough() ? t : q); }
ORD(address, Address) ORD(regid, RegID) ORD(two, G2) ORD(four, G4) ORD(nested, GN) ORD(deep, GD) ORD(list, GV) ORD(user, user::U3)
LEX(two, G2) LEX(four, G4) LEX(nested, GN) LEX(deep, GD) LEX(list, GV) LEX(user, user::U3)
KEY(address, Address, 3, 4) KEY(regid, RegID, 3, 4) KEY(two, G2, 4, 5) KEY(nested, GN, 2, 3) KEY(deep, GD, 3, 4) KEY(user, user::U3, 3, 4)

// validity and moving
MC_SCENARIO(order_moved, {.inproc = true}) {
  RegID r = V<RegID>::make();
  RegID copy = r;
  MC_CHECK(copy == r, "copy");
  bool valid = r.requestID != RequestIDInvalid && !r.opID.empty();
  MC_CHECK(r.valid() == valid, "valid() is %d", r.valid());
  int how = mc::choose(4, "how");
  RegID to = V<RegID>::make();
  if (how == 0) { RegID c(std::move(r)); to = c; }
  if (how == 1) to = std::move(r);
  if (how == 2) { to = r; r.clear(); }
  if (how == 3) { RegID &self = copy; copy = std::move(self); MC_CHECK(copy.valid() == valid, "moved to itself"); to = copy; r.clear(); }
  MC_CHECK(to == copy && to.valid() == valid, "lost");
  MC_CHECK(!r.valid() && r == RegID{}, "still there");
  Address a = V<Address>::make(), none;
  MC_CHECK(!none.valid() && a.valid() == (a.get_port() != Address::INVALID_PORT || !a.get_name().empty()), "address valid() is %d", a.valid());
  MC_CHECK((a == none) == !a.valid(), "invalid address");
}
