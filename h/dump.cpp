// P31: dumped text against a plain recursive writer.
#include "srz.h"
using namespace maf::srz;

static string pad(int n) { return n < 0 ? "" : string(n * 2, ' '); }
static string nl(int n) { return n < 0 ? "" : "\n" + pad(n); }
static int next(int n) { return n < 0 ? n : n + 1; }
template <class T> string ref(const T &v, int n);
template <class T, class = void> struct Ref { static string of(const T &v, int) { std::ostringstream o; o << v; return o.str(); } };
template <class C> string list(const C &c, int n, char open, char close) {
  string s(1, open);
  bool first = true;
  for (const auto &e : c) { if (!first) s += ","; first = false; s += nl(next(n)) + ref(e, next(n)); }
  return s + nl(n) + close;
}
template <> struct Ref<bool> { static string of(bool v, int) { return v ? "true" : "false"; } };
template <class T> struct Ref<T, std::enable_if_t<std::is_enum_v<T>>> { static string of(T v, int) { return std::to_string((uint32_t)v); } };
template <> struct Ref<string> { static string of(const string &v, int) { return v; } };
template <> struct Ref<const char *> { static string of(const char *v, int) { return v ? v : ""; } };
#define LIST(C) template <class T> struct Ref<C<T>> { static string of(const C<T> &v, int n) { return list(v, n, '[', ']'); } };
LIST(std::vector) LIST(std::list) LIST(std::deque) LIST(std::set) LIST(std::multiset) LIST(std::unordered_set)
#define MAP(C) template <class K, class T> struct Ref<C<K, T>> { static string of(const C<K, T> &v, int n) { return list(v, n, '{', '}'); } };
MAP(std::map) MAP(std::multimap) MAP(std::unordered_map)
template <class A, class B> struct Ref<std::pair<A, B>> { static string of(const std::pair<A, B> &p, int n) { return ref(p.first, n) + (n < 0 ? ":" : ": ") + ref(p.second, n); } };
template <> struct Ref<std::vector<bool>> { static string of(const std::vector<bool> &v, int n) { std::deque<bool> d(v.begin(), v.end()); return list(d, n, '[', ']'); } };
inline string fields(int) { return ""; }
template <class... A> string tup(int n, const A &...a) {
  string s = "[";
  size_t i = 0;
  ((s += nl(next(n)) + ref(a, next(n)) + (++i < sizeof...(A) ? "," : "")), ...);
  return s + nl(n) + "]";
}
template <class... A> struct Ref<std::tuple<A...>> { static string of(const std::tuple<A...> &t, int n) { return std::apply([&](auto &...e) { return tup(n, e...); }, t); } };
template <class P, class T> string pointee(const P &p, int n) { return p ? ref<T>(*p, n) : ref(T{}, n); }
template <class T> struct Ref<T *, std::enable_if_t<!std::is_same_v<T, const char>>> { static string of(T *const &p, int n) { return pointee<T *, T>(p, n); } };
template <class T> struct Ref<std::unique_ptr<T>> { static string of(const std::unique_ptr<T> &p, int n) { return pointee<std::unique_ptr<T>, T>(p, n); } };
template <class T> struct Ref<std::shared_ptr<T>> { static string of(const std::shared_ptr<T> &p, int n) { return pointee<std::shared_ptr<T>, T>(p, n); } };
template <class... A> struct Ref<std::variant<A...>> { static string of(const std::variant<A...> &v, int n) { return std::visit([&](auto &e) { return ref(e, n); }, v); } };
struct AgP { const char *p = nullptr; std::shared_ptr<Ag1> s; bool b = false; std::vector<bool> f; };
template <> struct Gen<AgP> { static void to(AgP &v, int l) { static const char *t[] = {"text", nullptr, ""}; v.p = t[mc::choose(3, "text")]; gen(v.s, 0); gen(v.b, 0); gen(v.f, l); } };
template <> struct Ref<Ag0> { static string of(const Ag0 &, int n) { return tup(n); } };
template <> struct Ref<Ag1> { static string of(const Ag1 &a, int n) { return tup(n, a.a); } };
template <> struct Ref<Ag3> { static string of(const Ag3 &a, int n) { return tup(n, a.b, a.s, a.v); } };
template <> struct Ref<AgN> { static string of(const AgN &a, int n) { return tup(n, a.x, a.in, a.d, a.last); } };
template <> struct Ref<AgP> { static string of(const AgP &a, int n) { return tup(n, a.p, a.s, a.b, a.f); } };
template <> struct Ref<Tup> { static string of(const Tup &a, int n) { return tup(n, a.p, a.q); } };
template <> struct Ref<TupD> { static string of(const TupD &a, int n) { return tup(n, a.p, a.q, a.r); } };
template <> struct Ref<cust::C> { static string of(const cust::C &a, int) { return a.val; } };
template <class... A> string obj(int n, const std::pair<const char *, A> &...m) {
  string s = pad(n) + "{";
  ((s += nl(next(n)) + m.first + (next(n) < 0 ? ":" : ": ") + ref(m.second, next(n)) + ","), ...);
  s.back() = ' ';   // no comma after the last
  return s + nl(n) + "}";
}
template <> struct Ref<Obj1> { static string of(const Obj1 &o, int n) { return obj(n, std::pair{"only", o.get_only()}); } };
template <> struct Ref<Obj3> { static string of(const Obj3 &o, int n) { return obj(n, std::pair{"name", o.get_name()}, std::pair{"map", o.get_map()}, std::pair{"num", o.get_num()}); } };
template <> struct Ref<ObjN> { static string of(const ObjN &o, int n) { return obj(n, std::pair{"in", o.get_in()}, std::pair{"many", o.get_many()}); } };
template <class T> string ref(const T &v, int n) { return Ref<T>::of(v, n); }

using DTypes = std::tuple<
    bool, char, int8_t, uint16_t, int, uint32_t, int64_t, uint64_t, float, double, E8, E32, string,
    std::vector<int>, std::vector<bool>, std::vector<string>, std::list<string>, std::deque<int>, std::set<int>, std::multiset<string>,
    std::map<int, string>, std::multimap<int, int>, std::unordered_map<string, int>, std::unordered_set<int>, std::map<string, std::vector<int>>,
    std::vector<std::vector<string>>, std::set<std::vector<int>>, std::pair<int, string>, std::pair<string, std::pair<int, bool>>, std::vector<std::pair<int, string>>,
    std::tuple<int, string, std::vector<int>>, std::tuple<string, std::tuple<int, bool>>, std::tuple<>, int *, string *, std::unique_ptr<int>,
    std::shared_ptr<string>, std::shared_ptr<std::vector<int>>, std::vector<std::shared_ptr<string>>, std::map<int, std::shared_ptr<int>>,
    VarA, VarD, std::vector<VarA>, std::shared_ptr<VarA>, Ag0, Ag1, Ag3, AgN, AgP, std::vector<Ag3>, std::map<E8, Ag1>, std::shared_ptr<AgN>,
    Tup, TupD, Obj1, Obj3, ObjN, std::vector<Obj3>, std::shared_ptr<Obj3>, std::map<string, Obj1>, cust::C, std::vector<cust::C>, std::vector<std::map<int, std::vector<int>>>, std::vector<AgP>>;
struct Scope : Trash { Scope() { trash() = this; } ~Scope() { trash() = nullptr; } };

MC_SCENARIO(dump_text, {.inproc = true}) {
  Scope scope;
  with_type<DTypes>(mc::choose(std::tuple_size_v<DTypes>, "type"), [&](auto tag) {
    using T = typename decltype(tag)::type;
    T v{};
    gen(v, mc::thorough() ? 2 : 1);
    static const int ind[] = {-1, 0, 1, 3};
    int n = ind[mc::choose(4, "indent")];
    string want = ref(v, n), got = toString(v, n);
    MC_CHECK(got == want, "%s, indent %d: dumped\n%s\nexpected\n%s", type_name<T>(), n, got.c_str(), want.c_str());
    std::ostringstream o;
    o << "<";
    dump(o, v, n);
    o << ">";
    MC_CHECK(o.str() == "<" + want + ">", "%s, indent %d: into a stream", type_name<T>(), n);
    std::ostringstream p;
    auto ds = dumpstream(p, n);
    ds << v << nodump("|") << indent(2) << v << newline;
    MC_CHECK(p.str() == want + "|" + ref(v, 2) + "\n", "%s, indent %d: dumpstream", type_name<T>(), n);
  });
}
// names of enumerators, objects and their own dump()
MC_SCENARIO(dump_objects, {.inproc = true}) {
  ObjN v;
  gen(v, 1);
  static const int ind[] = {-1, 0, 2};
  int n = ind[mc::choose(3, "indent")];
  MC_CHECK(v.dump(n) == ref(v, n), "dumped\n%s\nexpected\n%s", v.dump(n).c_str(), ref(v, n).c_str());
  MC_CHECK(v.get_in().dump() == ref(v.get_in(), -1), "without indentation");
}
