// C17: what the Flex writer produces, and how the reader reads FlexBuffers of other producers.
#include "common.hpp"
#include "protocols.hpp"
#include "flex_gen.hpp"
using namespace drv;
using P = zerialize::Flex;
using D = P::Deserializer;

static std::vector<V> fixed_cases() {
    std::vector<V> c{V::null(), V::boolean(true), V::boolean(false)};
    for (auto& v : boundary_ints()) { c.push_back(v); c.push_back(V::arr({v, v})); c.push_back(V::arr({v, v, v, v, v})); }
    for (auto& v : boundary_doubles()) { c.push_back(v); c.push_back(V::arr({v, v, v})); }
    Rng g(11);
    for (size_t n : {0, 1, 2, 3, 4, 5, 8, 31, 32, 127, 128, 255, 256, 257, 400}) {
        c.push_back(V::str(gen_bytes(g, n))); c.push_back(V::blob(gen_bytes(g, n)));
        std::string k = gen_bytes(g, n); for (auto& ch : k) if (!ch) ch = '\x01';
        c.push_back(V::map({{k, V::blob(gen_bytes(g, n / 3))}, {"second key that is here", V::str("x")}}));
        V a, b, d, t; a.t = b.t = d.t = t.t = 'a'; for (size_t i = 0; i < n; ++i) { a.a.push_back(V::uint(i * 3)); b.a.push_back(V::sint(-int64_t(i) * 40)); d.a.push_back(V::dbl(double(i) / 8)); t.a.push_back(V::boolean(i % 3 == 0)); }
        c.push_back(a); c.push_back(b); c.push_back(d); c.push_back(t); c.push_back(V::arr({a, b, d, t}));
        V m; m.t = 'm'; for (size_t i = 0; i < n && i < 300; ++i) m.m.emplace_back("k" + std::to_string(i), i % 2 ? V::sint(-int64_t(i)) : V::str(std::to_string(i))); c.push_back(m);
    }
    c.push_back(V::map({{"a", V::map({{"x", V::uint(1)}, {"y", V::uint(2)}})}, {"b", V::map({{"x", V::uint(3)}, {"y", V::uint(4)}})}, {"\xff", V::null()}, {"", V::null()}}));
    return c;
}
// homogeneous arrays are what typed vectors are made of: make some
static void homogenize(Rng& g, V& v) {
    for (auto& c : v.a) homogenize(g, c);
    for (auto& [k, c] : v.m) homogenize(g, c);
    if (v.t == 'a' && g.chance(15)) { std::vector<V> a; for (size_t n = 1 + g.below(5); n--;) a.push_back(V::str(std::string(g.below(6), char('a' + g.below(3))))); v.a = a; return; }
    if (v.t == 'a' && g.chance(60)) { size_t n = g.chance(60) ? 2 + g.below(3) : g.below(9); V x = g.chance(40) ? V::sint(int64_t(g.next()) >> g.below(64)) : g.chance(40) ? V::uint(g.next() >> g.below(64)) : g.chance(60) ? V::dbl(g.chance(50) ? double(std::bit_cast<float>(uint32_t(g.next()))) : double(int64_t(g.next()) >> 40) / 4) : V::boolean(true); std::vector<V> a; for (size_t i = 0; i < n; ++i) { V y = x; y.i = int64_t(uint64_t(x.i) ^ (i * 5)); y.u = x.u ^ i; if (x.t == 'd') y = g.chance(50) ? V::dbl(x.d_() * double(i)) : V::dbl(double(std::bit_cast<float>(uint32_t(g.next())))); y.b = i % 2; a.push_back(y); } v.a = a; }
}
int main(int argc, char** argv) {
    static auto fixed = fixed_cases();
    const size_t nrand = scale(6000, 60000);
    return run_cases(argc, argv, 2 * (fixed.size() * 4 + nrand), [&](size_t id) {
        std::string o = "{\"id\":" + std::to_string(id) + ",";
        size_t i = id / 2; bool w = id % 2 == 0;
        Rng g(seed(), id);
        V v;
        if (i < fixed.size() * 4) v = fixed[i / 4];
        else { Rng gv(seed(), 100000000 + i); GenOpt go; go.maxdepth = 1 + int(i % 3); go.midpct = 4; go.nulkeys = false; v = gen_value(gv, go); if (i % 2) homogenize(gv, v); }
        if (w) {
            std::string b; std::string out = write_value_bytes<P>(v, b);
            o += "\"dir\":\"w\",\"v\":"; j_value(o, v, true); o += ",\"out\":\"" + out + "\",\"b\":"; j_bytes(o, b, true);
        } else {
            FlexForge f(g, i % 4 == 0 ? 100 : i % 4 == 1 ? 60 : i % 4 == 2 ? 25 : 0); f.keyvals = g.chance(25); f.message(v);
            o += "\"dir\":\"r\",\"b\":"; j_bytes(o, f.o, true);
            o += ",\"nodes\":[";
            Heap h(f.o, g.below(2) * 8); std::string first;
            auto add = [&](auto&& mk) { std::string n; outcome(n, "[[],[\"E\",\"D\"]]", "[[],[\"E\",\"X\"]]", [&] { auto&& r = mk(); j_node(n, r, true); }); if (n != first) { if (!first.empty()) o += ','; o += n; if (first.empty()) first = n; } };
            add([&] { return open_view<D>(h, i); });
            add([&] { std::vector<uint8_t> t(f.o.begin(), f.o.end()); return D(t); });
            o += "]";
        }
        return o + "}";
    });
}
