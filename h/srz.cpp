// P24/P25: values of many types through the serialiser and back.
#include "srz.h"
#include <functional>
#include <new>
using namespace maf::srz;

// the biggest single allocation since it was armed
static size_t g_big;
static bool g_armed;
static long g_live;  // allocations not freed yet
void *operator new(size_t n) { if (g_armed && n > g_big) g_big = n; if (void *p = malloc(n ? n : 1)) { ++g_live; return p; } throw std::bad_alloc(); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) --g_live; free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

struct Scope : Trash { Scope() { trash() = this; } ~Scope() { trash() = nullptr; } };
static string hex(const string &s) { string r; char b[4]; for (unsigned char c : s.substr(0, 60)) { snprintf(b, 4, "%02x", c); r += b; } return r; }

template <class T> static string encode(const T &v, bool byteStream) {
  if (byteStream) { OByteStream o; serialize(o, v); MC_CHECK(!o.fail(), "stream failed"); return o.bytes(); }
  std::ostringstream o; serialize(o, v); return o.str();
}
template <class T> static bool decode(const string &b, T &v, int stream, size_t *used, bool *fail = nullptr) {
  if (stream == 0) {
    IByteStream is(b);
    bool r = deserialize(is, v);
    *used = is.readingPos();
    if (fail) *fail = is.fail();
    if (r && !b.empty()) MC_CHECK(is.eof() == (*used == b.size()) && !is.fail(), "state after reading");
    return r;
  }
  if (stream == 1) {
    IByteStream base(b);
    IByteStreamView is(base);
    bool r = deserialize(is, v);
    *used = is.readingPos();
    if (fail) *fail = is.fail();
    MC_CHECK(base.readingPos() == 0, "the view moved the stream");
    return r;
  }
  std::istringstream is(b);
  bool r = deserialize(is, v);
  if (fail) *fail = is.fail();
  is.clear();
  *used = (size_t)is.tellg();
  return r;
}
static void round_trip(int lvl) {
  Scope scope;
  with_type<Types>(mc::choose(NT, "type"), [&](auto tag) {
    using T = typename decltype(tag)::type;
    T v{};
    gen(v, lvl);
    string b = encode(v, true), c = encode(v, false);
    MC_CHECK(b == c, "%s: streams differ: %s / %s", type_name<T>(), hex(b).c_str(), hex(c).c_str());
    MC_CHECK(serializedSize(v) == b.size(), "%s: announced %u bytes, wrote %zu", type_name<T>(), serializedSize(v), b.size());
    for (int stream = 0; stream < 3; ++stream) {
      size_t used = 0;
      for (const char *tail : {"", "tail"}) {
        T w{};
        bool r = decode(b + tail, w, stream, &used);
        MC_CHECK(r, "%s: decoding %s failed", type_name<T>(), hex(b).c_str());
        MC_CHECK(used == b.size(), "%s: decoding consumed %zu of %zu bytes", type_name<T>(), used, b.size());
        MC_CHECK(eq(v, w), "%s: decoded value differs, bytes %s, again %s", type_name<T>(), hex(b).c_str(), hex(encode(w, true)).c_str());
        drop(w);
      }
    }
  });
}
MC_SCENARIO(srz_round_trip, {.inproc = true}) { round_trip(mc::thorough() ? 3 : 2); }

// many elements
template <class T> static void big(size_t n) {
  T v, w;
  if constexpr (std::is_same_v<T, std::map<int, I8>>) for (size_t i = 0; i < n; ++i) v[(int)i] = (I8)i;
  else for (size_t i = 0; i < n; ++i) v.push_back((typename T::value_type)(i * 7 + i / 251));
  string b = encode(v, mc::choose(2, "byte stream"));
  MC_CHECK(serializedSize(v) == b.size(), "%s of %zu: announced %u bytes, wrote %zu", type_name<T>(), n, serializedSize(v), b.size());
  size_t used;
  for (int s = 0; s < 3; ++s) MC_CHECK(decode(b, w, s, &used) && used == b.size() && v == w, "%s of %zu decodes to %zu elements from %zu of %zu bytes", type_name<T>(), n, w.size(), used, b.size());
  MC_CHECK(!decode(b.substr(0, b.size() - 1), w, 0, &used), "%s of %zu decoded without its last byte", type_name<T>(), n);
}
MC_SCENARIO(srz_big, {.inproc = true}) {
  static const size_t sizes[] = {255, 256, 257, 4095, 4096, 4097, 8192, 12289, 65535, 65536, 65537, 131072, 1000001};
  size_t n = sizes[mc::choose(13, "size")];
  switch (mc::choose(6, "type")) {
    case 0: big<string>(n); break;
    case 1: big<std::u16string>(n); break;
    case 2: big<std::vector<I8>>(n); break;
    case 3: big<std::vector<int64_t>>(n); break;
    case 4: big<std::list<uint16_t>>(n); break;
    case 5: big<std::map<int, I8>>(n); break;
  }
}

// into something that has a value already
MC_SCENARIO(srz_overwrite, {.inproc = true}) {
  Scope scope;
  with_type<Types>(mc::choose(NT, "type"), [&](auto tag) {
    using T = typename decltype(tag)::type;
    int lvl = 1;
    T v{}, w{};
    gen(v, lvl);
    gen(w, lvl);
    size_t used;
    string b = encode(v, true);
    MC_CHECK(decode(b, w, 0, &used) && used == b.size(), "%s: failed", type_name<T>());
    MC_CHECK(eq(v, w), "%s: decoded value differs, bytes %s, again %s", type_name<T>(), hex(b).c_str(), hex(encode(w, true)).c_str());
    drop(w);
  });
}

using Few = std::tuple<bool, int, string, std::vector<int>, std::map<int, string>, std::shared_ptr<string>, VarA, Ag3, Obj3, std::pair<int, string>, std::tuple<int, string, std::vector<int>>, E8, double, std::unique_ptr<int>>;
// several values behind each other
MC_SCENARIO(srz_sequence, {.inproc = true}) {
  Scope scope;
  OByteStream o;
  std::vector<std::function<void(IByteStream &, std::istringstream &)>> back;
  string types;
  size_t total = 0;
  int n = mc::thorough() ? 4 : 3;
  for (int i = 0; i < n; ++i)
    with_type<Few>(mc::choose(std::tuple_size_v<Few>, "type"), [&](auto tag) {
      using T = typename decltype(tag)::type;
      auto v = std::make_shared<T>();
      Gen<T>::to(*v, 0);
      SR sr(o);
      sr << *v;
      total += serializedSize(*v);
      MC_CHECK(o.bytes().size() == total, "%s%s: wrote %zu bytes, announced %zu", types.c_str(), type_name<T>(), o.bytes().size(), total);
      types += type_name<T>();
      back.push_back([&types, v](IByteStream &is, std::istringstream &ss) {
        T w{}, x{};
        DSR d(is); d >> w;
        DSR e(ss); e >> x;
        MC_CHECK(eq(*v, w) && eq(*v, x), "%s: %s differs", types.c_str(), type_name<T>());
      });
    });
  IByteStream is(o.bytes());
  std::istringstream ss(o.bytes());
  try { for (auto &f : back) f(is, ss); } catch (const std::exception &e) { mc::violation("%s: %s", types.c_str(), e.what()); }
  MC_CHECK(is.eof() && !is.fail() && is.readingPos() == total && (size_t)ss.tellg() == total, "%s: not at the end", types.c_str());
}
// in one go
MC_SCENARIO(srz_batch, {.inproc = true}) {
  int a = genv<int>(1), a2 = 3;
  string s = genv<string>(1), s2 = "old";
  std::vector<int> v = genv<std::vector<int>>(1), v2 = {5};
  VarA x = genv<VarA>(1), x2;
  Ag3 g = genv<Ag3>(0), g2;
  OByteStream o;
  std::ostringstream os;
  if (mc::choose(2, "stream used before")) { serialize(o, string("before")); o.reset(); MC_CHECK(o.bytes().empty(), "reset"); }
  serializeBatch(o, a, s, v, x, g);
  SR(os).serializeBatch(a, s, v, x, g);
  MC_CHECK(o.bytes() == os.str(), "streams differ");
  MC_CHECK(o.bytes().size() == serializedSize(std::tie(a, s, v, x, g)), "size");
  if (mc::choose(2, "how")) {
    IByteStream is(o.bytes());
    MC_CHECK(deserializeBatch(is, a2, s2, v2, x2, g2) && is.eof(), "failed");
  } else {
    std::istringstream is(os.str());
    DSR(is).deserializeBatch(a2, s2, v2, x2, g2);
  }
  MC_CHECK(a == a2 && s == s2 && v == v2 && x == x2 && g == g2, "values differ");
}

// every proper prefix
MC_SCENARIO(dmg_truncated, {.inproc = true}) {
  Scope scope;
  with_type<Types>(mc::choose(NT, "type"), [&](auto tag) {
    using T = typename decltype(tag)::type;
    T v{};
    gen(v, mc::thorough() ? 2 : 1);
    string b = encode(v, true);
    if (b.empty()) mc::prune();
    int cuts = (int)b.size();
    // a long run of text only at its ends
    int cut = cuts > 80 ? (mc::choose(80, "cut") + 40 + cuts - 40) % cuts : mc::choose(cuts, "cut");
    string c = b.substr(0, cut);
    // nothing may look behind the end
    for (int stream = 0; stream < 3; ++stream) {
      long live = g_live;
      {
        T w{};
        size_t used;
        decode(c, w, stream, &used);
      }
      MC_CHECK(g_live == live, "%s: %ld allocations left after decoding %d bytes %s failed", type_name<T>(), g_live - live, cut, hex(c).c_str());
      T w{};
      size_t used;
      bool fail = false;
      g_big = 0; g_armed = true;
      bool r = decode(c, w, stream, &used, &fail);
      g_armed = false;
      MC_CHECK(!r, "%s: %d of %zu bytes %s decoded as success", type_name<T>(), cut, b.size(), hex(c).c_str());
      MC_CHECK(fail, "%s: stream did not fail", type_name<T>());
      MC_CHECK(g_big < (1u << 20), "%s: %zu bytes allocated at once for %d bytes", type_name<T>(), g_big, cut);
      drop(w);
      try {
        T x{};
        if (stream == 0) { IByteStream is(c); DSR(is) >> x; }
        else { std::istringstream is(c); DSR(is) >> x; }
        mc::violation("%s: no exception", type_name<T>());
      } catch (const std::runtime_error &) {}
    }
  });
}
template <class T> constexpr bool ends = !std::is_same_v<T, std::tuple<>> && !std::is_same_v<T, Ag0>;
// every single byte changed
MC_SCENARIO(dmg_changed, {.inproc = true}) {
  Scope scope;
  with_type<Types>(mc::choose(NT, "type"), [&](auto tag) {
    using T = typename decltype(tag)::type;
    if constexpr (ends<T>) {
      T v{};
      gen(v, 1);
      string b = encode(v, true);
      if (b.size() > 100) mc::prune();   // long runs of text
      int at = mc::choose(b.size(), "position");
      unsigned char old = b[at];
      static const int vals[] = {0, 1, 2, 3, 4, 5, 0x10, 0x7f, 0x80, 0xfe, 0xff};
      b[at] = mc::thorough() ? (char)mc::choose(256, "byte") : (char)vals[mc::choose(11, "byte")];
      if ((unsigned char)b[at] == old) mc::prune();
      if (mc::choose(2, "more") && at + 1 < (int)b.size()) b[at + 1] = 0xff;
      for (int stream = 0; stream < 3; ++stream) {
        T w{};
        size_t used;
        bool fail = false;
        g_big = 0; g_armed = true;
        bool r = decode(b, w, stream, &used, &fail);
        g_armed = false;
        MC_CHECK(r == !fail || !r, "%s: %s: success on a failed stream", type_name<T>(), hex(b).c_str());
        MC_CHECK(g_big < (1u << 20), "%s: %zu bytes allocated at once for %zu bytes %s", type_name<T>(), g_big, b.size(), hex(b).c_str());
        if (r) {
          MC_CHECK(used <= b.size(), "consumed %zu of %zu", used, b.size());
          string again = encode(w, true);   // whatever it is, it is a proper value
          MC_CHECK(serializedSize(w) == again.size(), "%s: size of the decoded", type_name<T>());
          if (Canon<T>::value) MC_CHECK(again == b.substr(0, used), "%s: %s decoded as success, but to %s", type_name<T>(), hex(b).c_str(), hex(again).c_str());
        }
        drop(w);
      }
    } else mc::prune();
  });
}
// two sizes damaged to be huge, empty input
MC_SCENARIO(dmg_garbage, {.inproc = true}) {
  Scope scope;
  with_type<Types>(mc::choose(NT, "type"), [&](auto tag) {
    using T = typename decltype(tag)::type;
    if constexpr (ends<T>) {
      int n = mc::choose(mc::thorough() ? 8 : 6, "length");
      static const int vals[] = {0, 1, 0xff, 2};
      string b;
      for (int i = 0; i < n; ++i) b += (char)vals[mc::choose(4, "byte")];
      for (int stream = 0; stream < 3; ++stream) {
        T w{};
        size_t used;
        bool fail = false;
        g_big = 0; g_armed = true;
        bool r = decode(b, w, stream, &used, &fail);
        g_armed = false;
        MC_CHECK(!r || !fail, "%s: %s: success on a failed stream", type_name<T>(), hex(b).c_str());
        MC_CHECK(g_big < (1u << 20), "%s: %zu bytes allocated at once for %zu bytes %s", type_name<T>(), g_big, b.size(), hex(b).c_str());
        if (r) encode(w, true);
        drop(w);
      }
    } else mc::prune();
  });
}

// the input stream itself
MC_SCENARIO(dmg_stream, {.inproc = true}) {
  string data = string("abcdefg").substr(0, mc::choose(4, "length") * 2);
  auto stream = std::make_unique<IByteStream>(data);
  string log;
  size_t pos = 0;
  bool failed = false, atEnd = false, good = true;
  for (int i = 0; i < (mc::thorough() ? 6 : 5); ++i) {
    IByteStream &is = *stream;
    int op = mc::choose(8, "op");
    log += std::to_string(op);
    if (op < 4) {
      static const size_t sizes[] = {0, 1, 3, (size_t)-1};
      size_t n = sizes[op];
      char buf[8];
      memset(buf, '#', 8);
      is.read(buf, n);
      if (!good) failed = true;
      else if (n > data.size() - pos) { failed = true; good = false; }
      else { MC_CHECK(!memcmp(buf, data.data() + pos, n) && buf[n] == '#', "%s: wrong bytes", log.c_str()); pos += n; if (pos == data.size()) atEnd = true; n = 0; }
      if (n) MC_CHECK(buf[0] == '#', "%s: a failing read wrote", log.c_str());
    }
    if (op == 4) stream = std::make_unique<IByteStream>(std::move(is));
    if (op == 5) { IByteStream c(is); char x; c.read(&x, 1); IByteStreamView v(is); v.read(&x, 1); MC_CHECK(v.fail() == (!good || pos == data.size()), "%s: view", log.c_str()); }
    if (op == 6) { is.reset(); data.clear(); pos = 0; failed = atEnd = false; good = true; }
    if (op == 7) stream = std::make_unique<IByteStream>(data, 0), pos = 0, failed = atEnd = false, good = true;
    IByteStream &now = *stream;
    MC_CHECK(now.fail() == failed, "%s: fail() is %d", log.c_str(), now.fail());
    MC_CHECK(now.good() == good, "%s: good() is %d", log.c_str(), now.good());
    if (pos) MC_CHECK(now.eof() == atEnd, "%s: eof() is %d", log.c_str(), now.eof());
    MC_CHECK(now.readingPos() == pos && now.bytes() == data, "%s: position %zu, expected %zu", log.c_str(), now.readingPos(), pos);
  }
}
