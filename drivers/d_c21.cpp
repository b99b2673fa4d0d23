// C21: what the CBOR writer produces, how foreign well-formed CBOR is shown, and translations
// between CBOR and the other protocols.
#include "common.hpp"
#include "protocols.hpp"
#include "cb_gen.hpp"
#include <zerialize/translate.hpp>
#include <zerialize/protocols/cbor.hpp>
using namespace drv;
using namespace zerialize;
namespace drv { template <> inline constexpr const char* pcode<zerialize::CBOR> = "C"; }
using D = CBOR::Deserializer;
template <class F> void with_any(int i, F&& f) { if (i == 3) f(CBOR{}); else with_proto(i, f); }

static std::vector<V> fixed_cases() {
    std::vector<V> c{V::null(), V::boolean(true), V::boolean(false)};
    for (auto& v : boundary_ints()) c.push_back(v);
    for (auto& v : boundary_doubles()) c.push_back(v);
    for (unsigned h : {0x0001u, 0x03ffu, 0x0400u, 0x3c00u, 0x3c01u, 0x7bffu, 0x8001u, 0xbc00u, 0xfbffu, 0x5555u, 0x2aaau}) { // halves
        double m = h & 0x3ff, v = (h >> 10 & 31) ? (1 + m / 1024) * std::pow(2.0, int(h >> 10 & 31) - 15) : m * std::pow(2.0, -24); c.push_back(V::dbl(h & 0x8000 ? -v : v)); }
    Rng g(11);
    for (size_t n : {0, 1, 5, 22, 23, 24, 25, 127, 128, 255, 256, 257, 400}) {
        c.push_back(V::str(gen_bytes(g, n))); c.push_back(V::blob(gen_bytes(g, n)));
        c.push_back(V::map({{gen_bytes(g, n), V::blob(gen_bytes(g, n / 3))}, {"second key that is here", V::str("x")}}));
        V a; a.t = 'a'; for (size_t i = 0; i < n; ++i) a.a.push_back(V::uint(i)); c.push_back(a);
        V m; m.t = 'm'; for (size_t i = 0; i < n && i < 300; ++i) m.m.emplace_back("k" + std::to_string(i), V::sint(-int64_t(i))); c.push_back(m);
    }
    c.push_back(V::map({{std::string("a\0b", 3), V::sint(1)}, {"c", V::arr({V::sint(2)})}}));
    return c;
}
template <class R> std::string shown(const R& r) { std::string n; try { j_node(n, r, true); } catch (...) { n = "[[],[\"E\",\"X\"]]"; } return n; }
template <class R> void hop(std::string& o, Rng& g, const R& r, size_t hops) {
    if (hops == 0) return;
    const int to = g.chance(40) ? 3 : int(g.below(3));
    with_any(to, [&]<class P>(P) {
        using E = typename P::Deserializer;
        o += std::string(o.back() == '[' ? "" : ",") + "[\"" + pcode<P> + "\",";
        const size_t mark = o.size(); bool entered = false;
        auto seen = [&](const E& e) { entered = true; o += "\"ok\"," + shown(e) + "]"; hop(o, g, e, hops - 1); };
        try {
            if (g.chance(30)) {
                typename P::RootSerializer rs{}; typename P::Serializer w{rs}; write_value(r, w); ZBuffer b = rs.finish();
                Heap h(b.buf()); E e = open_view<E>(h, g.below(3)); seen(e);
            } else if (g.chance(30)) { E e = translate_bytes<P>(r); E e2 = e; e = E(e2); seen(e); }
            else { E e = translate<P>(r); seen(e); }
        } catch (const SerializationError&) { if (entered) throw; o.resize(mark); o += "\"S\",[]]"; }
        catch (...) { if (entered) throw; o.resize(mark); o += "\"X\",[]]"; }
    });
}

int main(int argc, char** argv) {
    static auto fixed = fixed_cases();
    const size_t nrand = scale(3500, 40000);
    return run_cases(argc, argv, 3 * (fixed.size() * 3 + nrand), [&](size_t id) {
        std::string o = "{\"id\":" + std::to_string(id) + ",";
        size_t i = id / 3; int dir = int(id % 3);
        Rng g(seed(), id);
        V v;
        if (i < fixed.size() * 3) v = fixed[i / 3];
        else { Rng gv(seed(), 100000000 + i); GenOpt go; go.maxdepth = 1 + int(i % 3); go.midpct = 4; v = gen_value(gv, go); }
        if (dir == 0) {
            std::string b; std::string out = write_value_bytes<CBOR>(v, b);
            return o + "\"dir\":\"w\",\"v\":" + [&] { std::string s; j_value(s, v, true); return s; }() + ",\"out\":\"" + out + "\",\"b\":" + [&] { std::string s; j_bytes(s, b, true); return s; }() + "}";
        }
        CborForge f(g, i % 3 == 0 ? 100 : i % 3 == 1 ? 40 : 10, i % 2 ? 50 : 0, dir == 1 && i % 5 == 0 ? 30 : 0); f.val(v);
        Heap h(f.o, g.below(16));
        o += std::string("\"dir\":\"") + (dir == 1 ? "r" : "t") + "\",\"b\":"; j_bytes(o, f.o, true);
        if (dir == 1) {
            o += ",\"nodes\":["; std::string first;
            auto add = [&](auto&& mk) { std::string n; outcome(n, "[[],[\"E\",\"D\"]]", "[[],[\"E\",\"X\"]]", [&] { auto&& r = mk(); j_node(n, r, true); }); if (n != first) { if (!first.empty()) o += ','; o += n; if (first.empty()) first = n; } };
            for (size_t w = 0; w < 3; ++w) add([&] { return open_view<D>(h, w); });
            add([&] { std::vector<uint8_t> t(f.o.begin(), f.o.end()); return D(t); });
            add([&] { std::vector<uint8_t> t(f.o.begin(), f.o.end()); D d(std::move(t)); D e = std::move(d); return e; });
            return o + "]}";
        }
        o += ",\"steps\":[";
        std::string st = "[";
        try { if (id % 2) { D d = open_view<D>(h); hop(st, g, d, 1 + g.below(4)); } else { D d(std::vector<uint8_t>(f.o.begin(), f.o.end())); hop(st, g, d, 1 + g.below(4)); } } catch (...) { st += ",[\"X\",\"X\",[]]"; }
        return o + st.substr(1) + "]}";
    });
}
