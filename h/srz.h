// Values of many types, enumerated; for the serialisation checks.
#pragma once
#include <mc.h>
#include <cmath>
#include <cstring>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include <maf/utils/cppextension/AggregateCompare.h>
#include <maf/utils/serialization/AggregateDump.h>
#include <maf/utils/serialization/Dumper.h>
#include <maf/utils/serialization/IByteStream.h>
#include <maf/utils/serialization/OByteStream.h>
#include <maf/utils/serialization/VariantDump.h>
#include <maf/utils/serialization/VariantSerializer.h>

enum class E8 : char { a, b, c = 'c' };
enum class E32 : int32_t { a = -5, b = 0x01020304 };
struct StrD : std::string { using std::string::string; };
struct Ag0 {};
struct Ag1 { int a = 7; bool operator==(const Ag1 &o) const { return a == o.a; } };
struct Ag3 { bool b = true; std::string s = "dflt"; std::vector<int> v = {9, 9}; bool operator==(const Ag3 &o) const { return b == o.b && s == o.s && v == o.v; } };
struct AgN { int8_t x = 3; Ag3 in; double d = 0.5; Ag1 last; bool operator==(const AgN &o) const { return x == o.x && in == o.in && d == o.d && last == o.last; } };
struct Tup { int p = 1; std::string q = "tq"; MC_MAF_GENERATE_AS_TUPLE_METHOD(p, q) Tup() {} Tup(int a, std::string b) : p(a), q(b) {} bool operator==(const Tup &o) const { return p == o.p && q == o.q; } };
struct TupD : Tup { uint16_t r = 5; MC_MAF_GENERATE_AS_TUPLE_METHOD_WITH_BASE_CLASS(Tup, r) bool operator==(const TupD &o) const { return Tup::operator==(o) && r == o.r; } };

// clang-format off
#include <maf/utils/serialization/SerializableObjectBegin.mc.h>
OBJECT(Obj1) MEMBERS((int, only, 4)) ENDOBJECT(Obj1)
using MapIS = std::map<int, std::string>;
OBJECT(Obj3) MEMBERS((std::string, name), (MapIS, map), (int64_t, num, -1)) ENDOBJECT(Obj3)
OBJECT(ObjN) MEMBERS((Obj3, in), (std::vector<Obj1>, many)) ENDOBJECT(ObjN)
#include <maf/utils/serialization/SerializableObjectEnd.mc.h>
// clang-format on

namespace cust {
struct C { std::string val; bool operator==(const C &o) const { return val == o.val; } };
MC_MAF_DEFINE_SERIALIZE_FUNCTION(C, c) { maf::srz::serialize(os, c.val); }
MC_MAF_DEFINE_DESERIALIZE_FUNCTION(C, c) { return maf::srz::deserialize(is, c.val); }
inline maf::srz::SizeType _serializedSize(const C &c) { return maf::srz::serializedSize(c.val); }
MC_MAF_DEFINE_DUMP_FUNCTION(C, c) { maf::srz::dump(os, c.val, indentLevel); }
}  // namespace cust

// deep equality
template <class T> bool eq(const T &a, const T &b);
template <class T> struct Eq { static bool is(const T &a, const T &b) { return a == b; } };
template <> struct Eq<Ag0> { static bool is(const Ag0 &, const Ag0 &) { return true; } };
template <class P> bool eqp(const P &a, const P &b) { return !a || !b ? !a == !b : eq(*a, *b); }
template <class T> struct Eq<T *> { static bool is(T *const &a, T *const &b) { return eqp(a, b); } };
template <class T> struct Eq<std::unique_ptr<T>> { static bool is(const std::unique_ptr<T> &a, const std::unique_ptr<T> &b) { return eqp(a, b); } };
template <class T> struct Eq<std::shared_ptr<T>> { static bool is(const std::shared_ptr<T> &a, const std::shared_ptr<T> &b) { return eqp(a, b); } };
template <class C> bool eqr(const C &a, const C &b) {
  if (a.size() != b.size()) return false;
  auto j = b.begin();
  for (auto i = a.begin(); i != a.end(); ++i, ++j) if (!eq(*i, *j)) return false;
  return true;
}
template <class T> struct Eq<std::vector<T>> { static bool is(const std::vector<T> &a, const std::vector<T> &b) { return eqr(a, b); } };
template <> struct Eq<std::vector<bool>> { static bool is(const std::vector<bool> &a, const std::vector<bool> &b) { return a == b; } };
template <class K, class T> struct Eq<std::map<K, T>> { static bool is(const std::map<K, T> &a, const std::map<K, T> &b) { return eqr(a, b); } };
template <class A, class B> struct Eq<std::pair<A, B>> { static bool is(const std::pair<A, B> &a, const std::pair<A, B> &b) { return eq(a.first, b.first) && eq(a.second, b.second); } };
template <class T> bool eq(const T &a, const T &b) { return Eq<T>::is(a, b); }

// one value of the type; `lvl` 2: the whole domain, 1: a few values, 0: two
template <class T, class = void> struct Gen;
template <class T> void gen(T &v, int lvl) { Gen<T>::to(v, lvl); }
template <class T> T genv(int lvl) { T v; gen(v, lvl); return v; }
template <class T> T one_of(std::initializer_list<T> l, int lvl) {
  int n = lvl >= 2 ? (int)l.size() : std::min<int>(l.size(), lvl == 1 ? 3 : 2);
  return *(l.begin() + mc::choose(n, "value"));
}
template <> struct Gen<bool> { static void to(bool &v, int) { v = mc::choose(2, "value"); } };
template <class T> struct Gen<T, std::enable_if_t<std::is_integral_v<T>>> {
  static void to(T &v, int l) { v = one_of<T>({(T)0x0102030405060708ull, (T)-1, 0, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), (T)0x80}, l); }
};
template <class T> struct Gen<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static void to(T &v, int l) { v = one_of<T>({(T)1.25, (T)-3e30, 0, std::numeric_limits<T>::min(), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::denorm_min()}, l); }
};
template <> struct Gen<E8> { static void to(E8 &v, int l) { v = one_of<E8>({E8::c, E8::a, E8::b}, l); } };
template <> struct Gen<E32> { static void to(E32 &v, int l) { v = one_of<E32>({E32::b, E32::a}, l); } };
template <class C> struct Gen<std::basic_string<C>> {
  using S = std::basic_string<C>;
  static void to(S &v, int l) { v = one_of<S>({S(2, 'x'), S(), S(1, 0) + S(1, 'y'), S(300, 'z'), S(1, (C)-1)}, l); }
};
template <> struct Gen<StrD> { static void to(StrD &v, int l) { gen(static_cast<std::string &>(v), l); } };
template <class C, class Add> void fill(C &c, int lvl, Add add) {
  c.clear();
  int n = mc::choose(lvl >= 2 ? 4 : lvl + 2, "size");
  for (int i = 0; i < n; ++i) add();
}
template <class T> struct Seq { static void to(T &c, int l) { fill(c, l, [&] { typename T::value_type e; gen(e, l - 1 > 0 ? l - 1 : 0); c.push_back(std::move(e)); }); } };
template <class T> struct Ins { static void to(T &c, int l) { fill(c, l, [&] { typename T::value_type e; gen(e, l - 1 > 0 ? l - 1 : 0); c.insert(std::move(e)); }); } };
template <class T> struct InsM { static void to(T &c, int l) { fill(c, l, [&] { std::pair<typename T::key_type, typename T::mapped_type> e; gen(e.first, l > 1); gen(e.second, 0); c.insert(std::move(e)); }); } };
template <class T> struct Gen<std::vector<T>> : Seq<std::vector<T>> {};
template <class T> struct Gen<std::list<T>> : Seq<std::list<T>> {};
template <class T> struct Gen<std::deque<T>> : Seq<std::deque<T>> {};
template <class T> struct Gen<std::set<T>> : Ins<std::set<T>> {};
template <class T> struct Gen<std::multiset<T>> : Ins<std::multiset<T>> {};
template <class T> struct Gen<std::unordered_set<T>> : Ins<std::unordered_set<T>> {};
template <class K, class T> struct Gen<std::map<K, T>> : InsM<std::map<K, T>> {};
template <class K, class T> struct Gen<std::multimap<K, T>> : InsM<std::multimap<K, T>> {};
template <class K, class T> struct Gen<std::unordered_map<K, T>> : InsM<std::unordered_map<K, T>> {};
template <class A, class B> struct Gen<std::pair<A, B>> { static void to(std::pair<A, B> &v, int l) { gen(v.first, l); gen(v.second, l); } };
template <class... A> struct Gen<std::tuple<A...>> { static void to(std::tuple<A...> &v, int l) { std::apply([&](auto &...e) { (gen(e, l > 0 ? l - 1 : 0), ...); }, v); } };
template <class P, class T> void genp(P &p, int l) { if (mc::choose(2, "null")) p = P(); else { auto t = new T(); p = P(t); gen(*t, l); } }
// raw pointers of this scenario are freed at its end
struct Trash { std::vector<std::shared_ptr<void>> v; };
inline Trash *&trash() { static Trash *t; return t; }
template <class T> void keep(T *p) { if (p && trash()) trash()->v.push_back(std::shared_ptr<T>(p)); }
template <class T> struct Gen<T *> { static void to(T *&p, int l) { p = nullptr; if (!mc::choose(2, "null")) { p = new T(); keep(p); gen(*p, l); } } };
template <class T> struct Gen<std::unique_ptr<T>> { static void to(std::unique_ptr<T> &p, int l) { genp<std::unique_ptr<T>, T>(p, l); } };
template <class T> struct Gen<std::shared_ptr<T>> { static void to(std::shared_ptr<T> &p, int l) { genp<std::shared_ptr<T>, T>(p, l); } };
template <class... A> struct Gen<std::variant<A...>> {
  template <size_t I> static void at(std::variant<A...> &v, size_t i, int l) {
    if constexpr (I < sizeof...(A)) {
      if (i == I) { std::variant_alternative_t<I, std::variant<A...>> e; gen(e, l); v.template emplace<I>(std::move(e)); }
      else at<I + 1>(v, i, l);
    }
  }
  static void to(std::variant<A...> &v, int l) { at<0>(v, mc::choose(sizeof...(A), "alternative"), l > 0 ? l - 1 : 0); }
};
template <> struct Gen<Ag0> { static void to(Ag0 &, int) {} };
template <> struct Gen<Ag1> { static void to(Ag1 &v, int l) { gen(v.a, l); } };
template <> struct Gen<Ag3> { static void to(Ag3 &v, int l) { gen(v.b, l); gen(v.s, l > 1); gen(v.v, l > 1); } };
template <> struct Gen<AgN> { static void to(AgN &v, int l) { gen(v.x, 0); gen(v.in, 0); gen(v.d, 0); gen(v.last, l); } };
template <> struct Gen<Tup> { static void to(Tup &v, int l) { gen(v.p, l); gen(v.q, l); } };
template <> struct Gen<TupD> { static void to(TupD &v, int l) { gen(v.p, 0); gen(v.q, 0); gen(v.r, l); } };
template <> struct Gen<Obj1> { static void to(Obj1 &v, int l) { gen(v.get_only(), l); } };
template <> struct Gen<Obj3> { static void to(Obj3 &v, int l) { gen(v.get_name(), l > 1); gen(v.get_map(), l > 1); gen(v.get_num(), l > 1); } };
template <> struct Gen<ObjN> { static void to(ObjN &v, int) { gen(v.get_in(), 0); gen(v.get_many(), 0); } };
template <> struct Gen<cust::C> { static void to(cust::C &v, int l) { gen(v.val, l); } };

using std::string;
using VarA = std::variant<string, int, bool, double, std::vector<int>>;
using VarD = std::variant<int, string, int>;
using I8 = int8_t;
using VarBig = std::variant<I8, I8, I8, I8, I8, I8, I8, I8, I8, I8, I8, I8, I8, I8, I8, I8, I8, I8, I8, string>;
struct AgV { VarD v; int n = 2; bool operator==(const AgV &o) const { return v == o.v && n == o.n; } };
template <> struct Gen<AgV> { static void to(AgV &v, int l) { gen(v.v, l); gen(v.n, 0); } };
using Types = std::tuple<
    bool, char, int8_t, uint16_t, int, uint32_t, int64_t, uint64_t, float, double, E8, E32, string, std::u16string, std::wstring, StrD,
    std::vector<int>, std::vector<bool>, std::vector<string>, std::vector<double>, std::list<string>, std::deque<int>, std::set<int>, std::multiset<string>,
    std::map<int, string>, std::multimap<int, int>, std::unordered_map<string, int>, std::unordered_set<int>, std::map<string, std::vector<int>>,
    std::vector<std::vector<string>>, std::set<std::vector<int>>, std::pair<int, string>, std::pair<string, std::pair<int, bool>>, std::vector<std::pair<int, string>>,
    std::tuple<int, string, std::vector<int>>, std::tuple<string, std::tuple<int, bool>>, std::tuple<>, int *, string *, std::unique_ptr<int>,
    std::shared_ptr<string>, std::shared_ptr<std::vector<int>>, std::vector<std::shared_ptr<string>>, std::map<int, std::shared_ptr<int>>,
    std::vector<std::unique_ptr<int>>, VarA, VarD, std::vector<VarA>, std::shared_ptr<VarA>, Ag0, Ag1, Ag3, AgN, std::vector<Ag3>, std::map<E8, Ag1>, std::shared_ptr<AgN>,
    VarBig, std::pair<VarD, int>, std::tuple<VarD, string>, std::vector<VarD>, std::pair<int, Ag0>, std::tuple<string, std::tuple<>>, AgV, std::unique_ptr<AgV>,
    Tup, TupD, Obj1, Obj3, ObjN, std::vector<Obj3>, std::shared_ptr<Obj3>, std::map<string, Obj1>, cust::C, std::vector<cust::C>>;
constexpr size_t NT = std::tuple_size_v<Types>;
// types with one encoding for each value: what decodes must have been just that
template <class T> struct Canon : std::bool_constant<(std::is_arithmetic_v<T> && !std::is_same_v<T, bool>) || std::is_enum_v<T>> {};
template <class C> struct Canon<std::basic_string<C>> : std::true_type {};
template <class T> struct Canon<std::vector<T>> : Canon<T> {};
template <class T> struct Canon<std::list<T>> : Canon<T> {};
template <class T> struct Canon<std::deque<T>> : Canon<T> {};
template <class A, class B> struct Canon<std::pair<A, B>> : std::bool_constant<Canon<A>::value && Canon<B>::value> {};
template <class... A> struct Canon<std::tuple<A...>> : std::bool_constant<(Canon<A>::value && ...)> {};
template <class... A> struct Canon<std::variant<A...>> : std::bool_constant<(Canon<A>::value && ...)> {};
template <> struct Canon<Ag0> : std::true_type {};
template <> struct Canon<Ag1> : std::true_type {};
template <> struct Canon<AgV> : std::true_type {};
template <> struct Canon<Tup> : std::true_type {};
template <> struct Canon<TupD> : std::true_type {};
template <> struct Canon<Obj1> : std::true_type {};
template <> struct Canon<cust::C> : std::true_type {};
template <class T> struct Tag { using type = T; };
// calls f(Tag<T>) for type number i of the list
template <class L, class F, size_t I = 0> void with_type(size_t i, F f) {
  if constexpr (I < std::tuple_size_v<L>) { if (i == I) f(Tag<std::tuple_element_t<I, L>>{}); else with_type<L, F, I + 1>(i, f); }
}
template <class T> const char *type_name() { return __PRETTY_FUNCTION__ + strlen("const char *type_name() [T = "); }

inline string bytes_of(maf::srz::OByteStream &o) { return o.bytes(); }
inline string bytes_of(std::ostringstream &o) { return o.str(); }
template <class T> void drop(T &) {}
template <class T> void drop(T *&p) { keep(p); p = nullptr; }
