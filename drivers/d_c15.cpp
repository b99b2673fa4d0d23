// C15: which writer calls each front end makes.
#include "common.hpp"
#include "protocols.hpp"
#include <list>
#include <unordered_map>
#include <zerialize/dynamic.hpp>
#include <zerialize/translate.hpp>
#include <zerialize/zbuilders.hpp>
using namespace drv;
namespace z = zerialize;

// ---- a Writer that records its calls
struct Rec {
    std::string o; bool first = true;
    void sep() { if (!first) o += ','; first = false; }
    void val(const V& v) { sep(); o += "[\"v\","; j_value(o, v); o += ']'; }
    void null() { val(V::null()); }
    void boolean(bool b) { val(V::boolean(b)); }
    void int64(std::int64_t v) { val(V::sint(v)); }
    void uint64(std::uint64_t v) { val(V::uint(v)); }
    void double_(double v) { val(V::dbl(v)); }
    void string(std::string_view s) { val(V::str(std::string(s))); }
    void binary(std::span<const std::byte> b) { val(V::blob(blob_to_string(b))); }
    void key(std::string_view k) { sep(); o += "[\"k\","; j_bytes(o, k); o += ']'; }
    void num(const char* c, size_t n) { sep(); o += std::string("[\"") + c + "\"," + std::to_string(n > 1000000 ? 1000000 : n) + "]"; }
    void begin_array(std::size_t n) { num("[", n); }
    void end_array() { sep(); o += "[\"]\"]"; }
    void begin_map(std::size_t n) { num("{", n); }
    void end_map() { sep(); o += "[\"}\"]"; }
};
static_assert(z::Writer<Rec>);

// ---- custom types found by argument-dependent lookup
namespace user {
struct Point { int x; unsigned y; };
template <z::Writer W> void serialize(const Point& p, W& w) { w.begin_map(2); w.key("x"); z::serialize(p.x, w); w.key("y"); z::serialize(p.y, w); w.end_map(); }
struct Tree { std::string name; std::vector<Tree> kids; };
template <z::Writer W> void serialize(const Tree& t, W& w) { z::zmap<"name", "kids">(t.name, t.kids)(w); }
struct Raw { std::vector<std::byte> b; };
template <z::Writer W> void serialize(const Raw& r, W& w) { w.binary(r.b); }
}

// ---- what a C++ value means (the driver's own reading)
static V mean(std::nullptr_t) { return V::null(); }
static V mean(bool b) { return V::boolean(b); }
template <std::integral T> requires(!std::same_as<T, bool>) static V mean(T v) { if constexpr (std::is_signed_v<T>) return V::sint(v); else return V::uint(v); }
template <std::floating_point T> static V mean(T v) { return V::dbl(double(v)); }
static V mean(const char* s) { return V::str(s); }
static V mean(std::string_view s) { return V::str(std::string(s)); }
static V mean(const std::string& s) { return V::str(s); }
static V mean(const std::vector<std::byte>& b) { return V::blob(blob_to_string(b)); }
static V mean(std::span<const std::byte> b) { return V::blob(blob_to_string(b)); }
static V mean(const user::Point& p) { return V::map({{"x", V::sint(p.x)}, {"y", V::uint(p.y)}}); }
static V mean(const user::Raw& p) { return V::blob(blob_to_string(p.b)); }
static V mean(const user::Tree& t) { std::vector<V> k; for (auto& c : t.kids) k.push_back(mean(c)); return V::map({{"name", V::str(t.name)}, {"kids", V::arr(k)}}); }
template <class T> static V mean(const std::vector<T>& c);
template <class T> static V mean(const std::list<T>& c);
template <class T, size_t N> static V mean(const std::array<T, N>& c);
template <class K, class T> static V mean(const std::map<K, T>& c);
template <class K, class T> static V mean(const std::unordered_map<K, T>& c);
template <class C> static V mean_seq(const C& c) { std::vector<V> r; for (const auto& x : c) r.push_back(mean(x)); return V::arr(r); }
template <class C> static V mean_map(const C& c) { std::vector<std::pair<std::string, V>> r; for (const auto& [k, x] : c) r.emplace_back(std::string(k), mean(x)); return V::map(r); }
template <class T> static V mean(const std::vector<T>& c) { return mean_seq(c); }
template <class T> static V mean(const std::list<T>& c) { return mean_seq(c); }
template <class T, size_t N> static V mean(const std::array<T, N>& c) { return mean_seq(c); }
template <class K, class T> static V mean(const std::map<K, T>& c) { return mean_map(c); }
template <class K, class T> static V mean(const std::unordered_map<K, T>& c) { return mean_map(c); }

// ---- random C++ values
static const GenOpt Opt = [] { GenOpt o; o.midpct = 2; o.nulkeys = false; o.maxdepth = 2; o.maxfan = 4; return o; }();
template <class T> struct Gen;
template <class T> T make(Rng& g) { return Gen<T>::make(g); }
template <class T> requires std::integral<T> struct Gen<T> { static T make(Rng& g) {
    if constexpr (std::same_as<T, bool>) return g.chance(50);
    else switch (g.below(5)) { case 0: return std::numeric_limits<T>::min(); case 1: return std::numeric_limits<T>::max(); case 2: return T(g.below(3)); case 3: return T(T(0) - T(1)); default: return T(g.next()); } } };
template <class T> requires std::floating_point<T> struct Gen<T> { static T make(Rng& g) { if (g.chance(40)) { static const auto bd = boundary_doubles(); return T(g.pick(bd).d_()); } return T(double(int64_t(g.next())) / 65536.0); } };
template <> struct Gen<std::string> { static std::string make(Rng& g) { return gen_bytes(g, gen_len(g, Opt)); } };
template <> struct Gen<std::nullptr_t> { static std::nullptr_t make(Rng&) { return nullptr; } };
template <> struct Gen<std::vector<std::byte>> { static std::vector<std::byte> make(Rng& g) { auto s = gen_bytes(g, gen_len(g, Opt)); auto b = as_bytes(s); return {b.begin(), b.end()}; } };
template <> struct Gen<user::Point> { static user::Point make(Rng& g) { return {Gen<int>::make(g), Gen<unsigned>::make(g)}; } };
template <> struct Gen<user::Raw> { static user::Raw make(Rng& g) { return {Gen<std::vector<std::byte>>::make(g)}; } };
template <> struct Gen<user::Tree> { static user::Tree make(Rng& g) { user::Tree t{Gen<std::string>::make(g), {}}; size_t n = g.below(3); if (g.chance(40)) for (size_t i = 0; i < n; ++i) t.kids.push_back(make(g)); return t; } };
template <class T> struct Gen<std::vector<T>> { static std::vector<T> make(Rng& g) { std::vector<T> v; size_t n = g.chance(10) ? 5 + g.below(30) : g.below(5); for (size_t i = 0; i < n; ++i) v.push_back(Gen<T>::make(g)); return v; } };
template <class T> struct Gen<std::list<T>> { static std::list<T> make(Rng& g) { std::list<T> v; size_t n = g.below(5); for (size_t i = 0; i < n; ++i) v.push_back(Gen<T>::make(g)); return v; } };
template <class T, size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> make(Rng& g) { std::array<T, N> v{}; for (auto& x : v) x = Gen<T>::make(g); return v; } };
template <class T> struct Gen<std::map<std::string, T>> { static std::map<std::string, T> make(Rng& g) { std::map<std::string, T> v; size_t n = g.chance(10) ? 5 + g.below(30) : g.below(5); for (size_t i = 0; i < n; ++i) v[gen_key(g, Opt)] = Gen<T>::make(g); return v; } };
template <class T> struct Gen<std::unordered_map<std::string, T>> { static std::unordered_map<std::string, T> make(Rng& g) { std::unordered_map<std::string, T> v; size_t n = g.chance(10) ? 5 + g.below(40) : g.below(6); for (size_t i = 0; i < n; ++i) v[gen_key(g, Opt)] = Gen<T>::make(g); return v; } };

// ---- dynamic values from the value model, through every constructor
static z::dyn::Value to_dyn(Rng& g, const V& v) {
    using D = z::dyn::Value;
    if (g.chance(10)) switch (v.t) { // the type-erased slot
        case 'i': return D::serializable(v.i);
        case 'u': return z::dyn::serializable(v.u);
        case 's': return D::serializable(v.s);
        case 'd': return D::serializable(v.d_());
        case 'a': case 'm': return D::serializable(to_dyn(g, v));
        default: break;
    }
    switch (v.t) {
    case 'n': switch (g.below(3)) { case 0: return D(); case 1: return D(nullptr); default: return D(z::dyn::Null{}); }
    case 'b': return D(v.b);
    case 'i': if (v.i >= -128 && v.i < 128 && g.chance(60)) return g.chance(50) ? D(static_cast<signed char>(v.i)) : D(static_cast<short>(v.i)); if (v.i == int(v.i) && g.chance(50)) return D(int(v.i)); return g.chance(50) ? D(static_cast<long>(v.i)) : D(static_cast<long long>(v.i));
    case 'u': if (v.u < 256 && g.chance(60)) return g.chance(50) ? D(static_cast<unsigned char>(v.u)) : D(static_cast<unsigned short>(v.u)); if (v.u == unsigned(v.u) && g.chance(50)) return D(unsigned(v.u)); return g.chance(50) ? D(static_cast<unsigned long>(v.u)) : D(static_cast<unsigned long long>(v.u));
    case 'd': { float f = float(v.d_()); double b = f; uint64_t w; std::memcpy(&w, &b, 8); if (w == v.d && g.chance(50)) return D(f); return D(v.d_()); }
    case 's': switch (g.below(3)) { case 0: return D(v.s); case 1: if (v.s.find('\0') == std::string::npos) return D(v.s.c_str()); [[fallthrough]]; default: return D(std::string_view(v.s)); }
    case 'x': { auto b = as_bytes(v.s); std::vector<std::byte> vec(b.begin(), b.end()); switch (g.below(5)) { case 0: return D(vec); case 1: return D(std::move(vec)); case 2: return D(b); case 3: return D::blob(b); default: return D(z::dyn::Binary{vec}); } }
    case 'a': { D::Array a; for (auto& c : v.a) a.push_back(to_dyn(g, c)); if (v.a.size() == 2 && g.chance(50)) return z::dyn::array({to_dyn(g, v.a[0]), to_dyn(g, v.a[1])}); return g.chance(50) ? D::array(a) : D(a); }
    default: { D::Map m; for (auto& [k, c] : v.m) m.emplace_back(k, to_dyn(g, c)); if (v.m.size() == 1 && g.chance(50)) return z::dyn::map({{v.m[0].first, to_dyn(g, v.m[0].second)}}); return g.chance(50) ? D::map(m) : D(m); }
    }
}

// ---- one observation: runs and read-backs
struct Obs {
    std::string how; V v; std::vector<std::string> runs; std::string nodes;
    template <class F> void run(F&& f) { Rec r; f(r); if (std::find(runs.begin(), runs.end(), r.o) == runs.end()) runs.push_back(r.o); }
    template <class P> void node(const z::ZBuffer& b) { if (!nodes.empty()) nodes += ','; nodes += "[\"" + std::string(pcode<P>) + "\","; try { Heap h(b.buf()); typename P::Deserializer d(h.span()); j_node(nodes, d); } catch (...) { nodes += "[[],[\"E\",\"X\"]]"; } nodes += ']'; }
};
// make an object show something else, in place where it can
template <class X> void spoil(X& x) {
    if constexpr (requires { x.begin(); *x.begin() = *x.begin(); x.clear(); }) { for (auto&& e : x) { using E = std::remove_cvref_t<decltype(e)>; if constexpr (std::is_default_constructible_v<E>) e = E{}; } }
    if constexpr (std::is_default_constructible_v<X> && std::is_move_assignable_v<X>) x = X{};
}
// value front ends: x is any serializable
template <class X> void observe(Obs& ob, X& x, bool readback = true) {
    using z::serialize;
    auto ser = [&](auto& w, auto&& y) { if constexpr (z::Builder<X>) y(w); else serialize(y, w); };
    ob.run([&](Rec& r) { ser(r, x); });
    ob.run([&](Rec& r) { auto wv = z::dyn::WriterView::make(r); ser(wv, x); });
    { X copy = x; ob.run([&](Rec& r) { ser(r, copy); }); X moved = std::move(copy); ob.run([&](Rec& r) { ser(r, moved); }); ob.run([&](Rec& r) { ser(r, moved); }); }
    if constexpr (!z::Builder<X>) ob.run([&](Rec& r) { z::dyn::Value d = z::dyn::serializable(x); z::dyn::Value d2 = d; d = z::dyn::Value(1); serialize(d2, r); });
    if constexpr (!z::Builder<X>) ob.run([&](Rec& r) { // kept while what it was made from changes and goes
        auto y = std::make_unique<X>(x); std::vector<z::dyn::Value> ds; ds.push_back(z::dyn::serializable(*y)); ds.push_back(z::dyn::Value::serializable(std::as_const(*y))); ds.push_back(z::dyn::Value(z::dyn::Serializable::make(*y)));
        if constexpr (std::is_constructible_v<z::dyn::Value, X&> && !std::is_pointer_v<X>) ds.push_back(z::dyn::Value(*y));
        size_t n = ds.size(); spoil(*y); y.reset();
        serialize(ds[ob.runs.size() % n], r); for (auto& d : ds) { Rec again; serialize(d, again); if (again.o != r.o) { r.o = again.o; break; } } });
    if (readback) {
        ob.node<z::Zera>(z::serialize<z::Zera>(x)); ob.node<z::MsgPack>(z::serialize<z::MsgPack>(x)); ob.node<z::Flex>(z::serialize<z::Flex>(x));
        X copy = x; ob.node<z::MsgPack>(z::serialize<z::MsgPack>(std::move(copy)));
    }
    ob.run([&](Rec& r) { ser(r, x); });
}
template <class T> Obs value_case(Rng& g, const char* how = "exact") { T x = make<T>(g); Obs ob{how, mean(x)}; observe(ob, x); return ob; }

// builders kept after the expressions that made them are gone
template <class B> static auto heap_kept(B&& b) { return std::make_unique<std::remove_cvref_t<B>>(std::forward<B>(b)); }
static Obs builder_case(Rng& g, size_t which) {
    using z::zmap, z::zvec;
    auto i = make<int>(g); auto u = make<unsigned long>(g); auto d = make<double>(g); auto s = make<std::string>(g); auto m = make<std::map<std::string, int>>(g); auto vv = make<std::vector<std::string>>(g); auto p = make<user::Point>(g); auto by = make<std::vector<std::byte>>(g); V dv = gen_value(g, Opt); auto dy = to_dyn(g, dv); auto t = make<user::Tree>(g);
    Obs ob; ob.how = "exact";
    auto keep = [&](V v, auto&& b) { ob.v = std::move(v); auto k = heap_kept(std::move(b)); std::string fill(300, 'f'); observe(ob, *k); };
    switch (which % 14) {
    case 0: keep(V::arr({}), zvec()); break;
    case 1: keep(V::map({}), zmap<>()); break;
    case 2: keep(V::arr({mean(i), mean(u), mean(d), mean(s), V::null(), V::boolean(true)}), zvec(i, u, d, s, nullptr, true)); break;
    case 3: keep(V::arr({mean(i), mean(s), V::str("literal"), V::str("a temporary string long enough")}), zvec(int(i), std::string(s), "literal", std::string("a temporary string long enough"))); break;
    case 4: keep(V::map({{"a", mean(i)}, {"b", mean(s)}, {"", mean(d)}}), zmap<"a", "b", "">(int(i), std::string(s), double(d))); break;
    case 5: keep(V::map({{"zz", V::arr({mean(i), V::map({{"q", mean(s)}})})}, {"aa", mean(m)}}), zmap<"zz", "aa">(zvec(int(i), zmap<"q">(std::string(s))), std::map<std::string, int>(m))); break;
    case 6: { auto inner = zvec(i, std::string(s)); auto in2 = inner; keep(V::arr({V::arr({mean(i), mean(s)}), V::arr({mean(i), mean(s)}), V::map({{"k", V::arr({mean(i), mean(s)})}})}), zvec(inner, in2, zmap<"k">(zvec(i, s)))); break; }
    case 7: keep(V::arr({mean(vv), mean(p), mean(by), dv, mean(t)}), zvec(vv, p, by, dy, t)); break;
    case 8: keep(V::map({{"v", mean(vv)}, {"p", mean(p)}, {"b", mean(by)}, {"d", dv}, {"t", mean(t)}}), zmap<"v", "p", "b", "d", "t">(std::vector<std::string>(vv), user::Point(p), std::vector<std::byte>(by), z::dyn::Value(dy), user::Tree(t))); break;
    case 9: { auto f = [&] { std::string local = s + "!"; return zvec(std::move(local), std::string("x") + s); }; keep(V::arr({mean(s + "!"), mean("x" + s)}), f()); break; }
    case 10: keep(V::arr({V::sint(1), V::arr({V::sint(2), V::arr({V::sint(3), V::arr({V::str(s), V::map({{"deep", V::arr({})}})})})})}), zvec(1, zvec(2, zvec(3, zvec(std::string(s), zmap<"deep">(zvec())))))); break;
    case 11: keep(V::map({{"i8", V::sint(-1)}, {"u8", V::uint(255)}, {"i16", V::sint(-32768)}, {"u16", V::uint(65535)}, {"f", V::dbl(0.5)}, {"c", V::sint('c')}, {"ull", V::uint(~0ull)}, {"ll", V::sint(INT64_MIN)}}),
        zmap<"i8", "u8", "i16", "u16", "f", "c", "ull", "ll">((signed char)-1, (unsigned char)255, (short)-32768, (unsigned short)65535, 0.5f, 'c', ~0ull, (long long)INT64_MIN)); break;
    case 12: { std::vector<V> same(20, mean(i)); keep(V::arr(same), zvec(i, i, i, i, i, i, i, i, i, i, i, i, i, i, i, i, i, i, i, i)); break; }
    default: keep(V::map({{"k0", mean(i)}, {"k1", mean(i)}, {"k2", mean(i)}, {"k3", mean(i)}, {"k4", mean(i)}, {"k5", mean(i)}, {"k6", mean(i)}, {"k7", mean(i)}, {"k8", mean(i)}, {"k9", mean(i)}, {"ka", mean(i)}, {"kb", mean(i)}, {"kc", mean(i)}, {"kd", mean(i)}, {"ke", mean(i)}, {"kf", mean(i)}, {"kg", mean(s)}}),
        zmap<"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "ka", "kb", "kc", "kd", "ke", "kf", "kg">(i, i, i, i, i, i, i, i, i, i, i, i, i, i, i, i, s)); break;
    }
    return ob;
}
static Obs special_case(Rng& g, size_t which) {
    using z::serialize;
    Obs ob; ob.how = "exact"; auto s = make<std::string>(g); for (auto& c : s) if (!c) c = '.';
    switch (which % 9) {
    case 0: { const char* p = s.c_str(); ob.v = V::str(s); observe(ob, p); break; }
    case 1: { ob.v = V::str(s); Heap h(s); std::string_view sv(reinterpret_cast<char*>(h.p), h.n); observe(ob, sv); break; }
    case 2: { ob.v = V::blob(s); Heap h(s); std::span<const std::byte> sp(reinterpret_cast<std::byte*>(h.p), h.n); observe(ob, sp); break; }
    case 3: { ob.v = V::arr({V::sint(1), V::sint(-2), V::sint(3)}); ob.run([&](Rec& r) { serialize({1, -2, 3}, r); });
        if (g.chance(30)) { ob.runs.clear(); ob.v = V::arr({}); ob.run([&](Rec& r) { serialize(std::initializer_list<int>{}, r); }); }
        else if (g.chance(50)) { ob.runs.clear(); ob.v = V::arr({V::str(s), V::str(""), V::str("x")}); ob.run([&](Rec& r) { serialize(std::initializer_list<std::string>{s, "", "x"}, r); auto wv = z::dyn::WriterView::make(r); (void)wv; }); }
        break; }
    case 4: { ob.v = V::arr({V::boolean(true), V::boolean(false), V::boolean(true)}); std::vector<bool> vb{true, false, true}; observe(ob, vb); break; }
    case 5: { std::map<std::string_view, double> m{{"a", 1.5}, {"b", -0.0}}; ob.v = mean(m); observe(ob, m); break; }
    case 6: { ob.v = V::null(); ob.node<z::Zera>(z::serialize<z::Zera>()); ob.node<z::Flex>(z::serialize<z::Flex>()); break; }
    case 7: { z::dyn::Value a = z::dyn::array({1, "x"}); z::dyn::Value m = z::dyn::map({{"a", a}, {"b", a}, {"s", z::dyn::serializable(user::Point{-1, 2})}}); a = z::dyn::Value(); ob.v = V::map({{"a", V::arr({V::sint(1), V::str("x")})}, {"b", V::arr({V::sint(1), V::str("x")})}, {"s", V::map({{"x", V::sint(-1)}, {"y", V::uint(2)}})}}); observe(ob, m); break; }
    default: { z::DynamicValue m = z::dyn::map({}); ob.v = V::map({}); observe(ob, m); }
    }
    return ob;
}
template <class P> static Obs copy_case(Rng& g) { // copying from a reader
    V v = gen_value(g, Opt); std::string b; write_value_bytes<P>(v, b);
    Heap h(b); typename P::Deserializer d(h.span());
    Obs ob; ob.v = v; ob.how = std::is_same_v<P, z::Zera> ? "exact" : std::is_same_v<P, z::Flex> ? "unordered" : "number";
    ob.run([&](Rec& r) { z::write_value(d, r); }); ob.run([&](Rec& r) { z::write_value(d, r); });
    ob.run([&](Rec& r) { auto wv = z::dyn::WriterView::make(r); z::write_value(d, wv); });
    return ob;
}
static Obs dyn_case(Rng& g) {
    V v = gen_value(g, Opt); auto d = to_dyn(g, v); Obs ob; ob.how = "exact"; ob.v = v; observe(ob, d);
    z::dyn::Value assigned(7); assigned = d; ob.run([&](Rec& r) { using z::serialize; serialize(assigned, r); });
    return ob;
}
static Obs make_case(Rng& g, size_t id) {
    switch (id % 8) {
    case 0: case 1: return builder_case(g, id / 8 * 2 + id % 8);
    case 2: return special_case(g, id / 8);
    case 3: return dyn_case(g);
    case 4: switch (id / 8 % 3) { case 0: return copy_case<z::Zera>(g); case 1: return copy_case<z::MsgPack>(g); default: return copy_case<z::Flex>(g); }
    default: break;
    }
    switch (g.below(38)) {
    case 0: return value_case<bool>(g); case 1: return value_case<char>(g); case 2: return value_case<signed char>(g); case 3: return value_case<unsigned char>(g);
    case 4: return value_case<short>(g); case 5: return value_case<unsigned short>(g); case 6: return value_case<int>(g); case 7: return value_case<unsigned>(g);
    case 8: return value_case<long>(g); case 9: return value_case<unsigned long>(g); case 10: return value_case<long long>(g); case 11: return value_case<unsigned long long>(g);
    case 12: return value_case<float>(g); case 13: return value_case<double>(g); case 14: return value_case<std::string>(g); case 15: return value_case<std::vector<std::byte>>(g);
    case 16: return value_case<std::nullptr_t>(g); case 17: return value_case<user::Point>(g); case 18: return value_case<user::Tree>(g); case 19: return value_case<user::Raw>(g);
    case 20: return value_case<std::vector<int>>(g); case 21: return value_case<std::vector<std::uint8_t>>(g); case 22: return value_case<std::vector<std::vector<double>>>(g); case 23: return value_case<std::list<std::string>>(g);
    case 24: return value_case<std::array<short, 3>>(g); case 25: return g.chance(50) ? value_case<std::array<std::string, 17>>(g) : g.chance(50) ? value_case<std::map<std::string, std::array<int, 0>>>(g) : value_case<std::map<std::string, std::array<bool, 1>>>(g); case 26: return value_case<std::map<std::string, int>>(g);
    case 27: return value_case<std::unordered_map<std::string, unsigned>>(g, "unordered"); case 28: return value_case<std::map<std::string, std::map<std::string, std::vector<float>>>>(g);
    case 29: return value_case<std::map<std::string, user::Point>>(g); case 30: return value_case<std::list<std::vector<std::byte>>>(g); case 31: return value_case<std::map<std::string, std::list<user::Raw>>>(g);
    case 32: return value_case<std::vector<user::Tree>>(g); case 33: return value_case<std::unordered_map<std::string, std::map<std::string, bool>>>(g, "unordered"); case 34: return value_case<std::array<std::list<unsigned char>, 2>>(g);
    case 35: return value_case<std::list<std::list<std::nullptr_t>>>(g); case 36: return value_case<std::map<std::string, std::vector<std::byte>>>(g);
    default: return value_case<std::map<std::string, std::array<long long, 2>>>(g);
    }
}
// ---- containers too large to list: the calls are counted and digested
struct Sum {
    std::string open, shut; size_t ann = 0, vals = 0, keys = 0, stray = 0; int depth = 0; bool lastkey = false; uint64_t h = 1469598103934665603ull, pair = 0; bool unordered = false;
    static uint64_t fnv(std::string_view s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
    void token(const std::string& t, bool key) {
        if (depth != 1) ++stray;
        if (key) { ++keys; if (lastkey) ++stray; lastkey = true; pair = fnv(t); return; }
        ++vals; if ((open == "{") != lastkey) ++stray; lastkey = false;
        uint64_t x = fnv(t, fnv(std::to_string(pair))); pair = 0;
        h = unordered ? h + x : (h ^ x) * 1099511628211ull;
    }
    void val(const V& v) { std::string o; j_value(o, v); token(o, false); }
    void null() { val(V::null()); } void boolean(bool b) { val(V::boolean(b)); } void int64(std::int64_t v) { val(V::sint(v)); } void uint64(std::uint64_t v) { val(V::uint(v)); } void double_(double v) { val(V::dbl(v)); }
    void string(std::string_view s) { val(V::str(std::string(s))); } void binary(std::span<const std::byte> b) { val(V::blob(blob_to_string(b))); }
    void key(std::string_view k) { std::string o; j_bytes(o, k); token(o, true); }
    void begin(const char* c, size_t n) { if (depth++) ++stray; open += c; ann = n; }
    void end(const char* c) { if (--depth) ++stray; shut += c; if (lastkey) ++stray; }
    void begin_array(std::size_t n) { begin("[", n); } void end_array() { end("]"); } void begin_map(std::size_t n) { begin("{", n); } void end_map() { end("}"); }
    std::string show() const { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return "[" + j_str(open) + "," + std::to_string(std::min<size_t>(ann, 500000000)) + "," + std::to_string(vals) + "," + std::to_string(keys) + "," + std::to_string(stray) + "," + j_str(shut) + ",\"" + b + "\"]"; }
};
static_assert(z::Writer<Sum>);
struct BigObs { V v; bool unordered = false; std::vector<std::string> sums; template <class F> void run(F&& f) { Sum s; s.unordered = unordered; f(s); auto t = s.show(); if (std::find(sums.begin(), sums.end(), t) == sums.end()) sums.push_back(t); } };
template <class X> static BigObs big_value(const X& x, bool unordered = false) {
    using z::serialize; BigObs b{mean(x), unordered, {}};
    b.run([&](Sum& s) { serialize(x, s); }); b.run([&](Sum& s) { auto wv = z::dyn::WriterView::make(s); serialize(x, wv); }); b.run([&](Sum& s) { z::dyn::Value d = z::dyn::serializable(x); serialize(d, s); });
    return b;
}
static const std::vector<size_t> BigN{255, 256, 257, 65535, 65536, 65537, 70001};
template <class P> static BigObs big_copy(size_t n, bool map) {
    if (map) n = std::min<size_t>(n, 700); else if (std::is_same_v<P, z::MsgPack>) n = std::min<size_t>(n, 4000);
    V v; v.t = map ? 'm' : 'a'; for (size_t i = 0; i < n; ++i) if (map) v.m.emplace_back("k" + std::to_string(i), V::str(std::to_string(i))); else v.a.push_back(i % 2 ? V::str("s" + std::to_string(i)) : V::dbl(double(i)));
    std::string b; write_value_bytes<P>(v, b); Heap h(b); typename P::Deserializer d(h.span());
    BigObs o{v, map, {}}; o.run([&](Sum& s) { z::write_value(d, s); }); o.run([&](Sum& s) { auto wv = z::dyn::WriterView::make(s); z::write_value(d, wv); });
    return o;
}
static BigObs big_case(size_t k) {
    const size_t n = BigN[k / 14 % BigN.size()]; Rng g(seed(), k);
    switch (k % 14) {
    case 0: { std::vector<int> x; for (size_t i = 0; i < n; ++i) x.push_back(int(g.next())); return big_value(x); }
    case 1: { std::list<unsigned> x; for (size_t i = 0; i < n; ++i) x.push_back(unsigned(g.next())); return big_value(x); }
    case 2: switch (k / 14 % 3) { case 0: { auto x = std::make_unique<std::array<short, 256>>(); for (auto& e : *x) e = short(g.next()); return big_value(*x); } case 1: { auto x = std::make_unique<std::array<int, 65536>>(); for (auto& e : *x) e = int(g.next()); return big_value(*x); } default: { auto x = std::make_unique<std::array<int, 65537>>(); for (auto& e : *x) e = int(g.next()); return big_value(*x); } }
    case 3: { std::map<std::string, int> x; for (size_t i = 0; i < n; ++i) x[std::to_string(i)] = int(g.next()); return big_value(x); }
    case 4: { std::unordered_map<std::string, long> x; for (size_t i = 0; i < n; ++i) x["u" + std::to_string(i)] = long(g.next()); return big_value(x, true); }
    case 5: case 6: { const bool map = k % 14 == 6; V v; v.t = map ? 'm' : 'a'; z::dyn::Value::Array a; z::dyn::Value::Map m; for (size_t i = 0; i < n; ++i) { auto s = std::to_string(g.next() % 100000); if (map) { m.emplace_back("d" + std::to_string(i), z::dyn::Value(s)); v.m.emplace_back("d" + std::to_string(i), V::str(s)); } else { a.push_back(z::dyn::Value(s)); v.a.push_back(V::str(s)); } }
        z::dyn::Value d = map ? z::dyn::Value::map(m) : z::dyn::Value::array(a); using z::serialize; BigObs b{v, false, {}}; b.run([&](Sum& s) { serialize(d, s); }); b.run([&](Sum& s) { z::dyn::Value e = d; auto wv = z::dyn::WriterView::make(s); serialize(e, wv); }); return b; }
    case 7: { std::vector<std::string> x; for (size_t i = 0; i < n; ++i) x.push_back(std::to_string(g.next())); return big_value(x); }
    case 8: return big_copy<z::Zera>(n, false); case 9: return big_copy<z::Flex>(n, false); case 10: return big_copy<z::MsgPack>(n, false);
    case 11: return big_copy<z::Zera>(n, true); case 12: return big_copy<z::Flex>(n, true); default: return big_copy<z::MsgPack>(n, true);
    }
}
// every size of every standard container, alone and as it grows and shrinks
template <size_t N> static BigObs sized_array(Rng& g) { std::array<short, N> x{}; for (auto& e : x) e = short(g.next()); return big_value(x); }
template <size_t N> static BigObs sized_strings(Rng& g) { std::array<std::string, N> x{}; for (auto& e : x) e = std::to_string(g.next() % 1000); return big_value(x); }
using ArrayMaker = BigObs (*)(Rng&);
static const ArrayMaker Arrays[] = {sized_array<0>, sized_array<1>, sized_array<2>, sized_array<4>, sized_array<5>, sized_array<6>, sized_array<7>, sized_array<8>, sized_array<9>, sized_array<12>, sized_array<15>, sized_array<16>, sized_array<17>, sized_array<31>, sized_array<32>, sized_array<33>, sized_array<64>, sized_array<127>, sized_array<128>, sized_array<255>, sized_array<257>, sized_strings<0>, sized_strings<1>, sized_strings<2>, sized_strings<16>};
constexpr size_t Sized = 300, Kinds = 6;
static BigObs sized_case(size_t k) {
    Rng g(seed(), 5000000 + k); const size_t n = k / Kinds, extra = g.below(40);
    switch (k % Kinds) {
    case 0: { std::vector<unsigned short> x; for (size_t i = 0; i < n + extra; ++i) x.push_back((unsigned short)(g.next())); x.resize(n); return big_value(x); }
    case 1: { std::list<signed char> x; for (size_t i = 0; i < n + extra; ++i) x.push_back((signed char)(g.next())); x.resize(n); return big_value(x); }
    case 2: { std::map<std::string, double> x; for (size_t i = 0; i < n + extra; ++i) x["m" + std::to_string(i)] = double(g.below(1000)); while (x.size() > n) x.erase(x.begin()); return big_value(x); }
    case 3: { std::unordered_map<std::string, unsigned> x; if (g.chance(30)) x.max_load_factor(0.3f + float(g.below(40)) / 10); if (g.chance(30)) x.reserve(g.below(500)); for (size_t i = 0; i < n + extra; ++i) x["u" + std::to_string(i)] = unsigned(g.next()); while (x.size() > n) x.erase(x.begin()); return big_value(x, true); }
    case 4: { std::vector<bool> x; for (size_t i = 0; i < n; ++i) x.push_back(g.chance(50)); return big_value(x); }
    default: return Arrays[n % std::size(Arrays)](g);
    }
}
static std::string big_line(size_t id, size_t k) {
    BigObs b = k >= 14 * BigN.size() ? sized_case(k - 14 * BigN.size()) : big_case(k); Sum want; want.unordered = b.unordered;
    if (b.v.t == 'a') { want.begin_array(b.v.a.size()); for (auto& e : b.v.a) want.val(e); want.end_array(); } else { want.begin_map(b.v.m.size()); for (auto& [q, e] : b.v.m) { want.key(q); want.val(e); } want.end_map(); }
    std::string o = "{\"id\":" + std::to_string(id) + ",\"big\":" + want.show() + ",\"sums\":["; for (size_t i = 0; i < b.sums.size(); ++i) o += (i ? "," : "") + b.sums[i];
    return o + "]}";
}
int main(int argc, char** argv) {
    const size_t nbig = 14 * BigN.size() + Kinds * Sized, n0 = scale(16000, 80000);
    return run_cases(argc, argv, n0 + nbig, [&](size_t id) {
        Rng g(seed(), id);
        if (id >= n0) { try { return big_line(id, id - n0); } catch (const std::exception& e) { return "{\"id\":" + std::to_string(id) + ",\"crash\":" + j_str(std::string("exception ") + e.what()) + "}"; } }
        std::string o = "{\"id\":" + std::to_string(id) + ",";
        try {
            Obs ob = make_case(g, id);
            o += "\"how\":\"" + ob.how + "\",\"v\":"; j_value(o, ob.v); o += ",\"runs\":[";
            for (size_t i = 0; i < ob.runs.size(); ++i) { if (i) o += ','; o += '[' + ob.runs[i] + ']'; }
            o += "],\"nodes\":[" + ob.nodes + "]}";
        } catch (const std::exception& e) { return "{\"id\":" + std::to_string(id) + ",\"crash\":" + j_str(std::string("exception ") + e.what()) + "}"; }
        return o;
    });
}
