// C02: chains of translations, starting from whole messages or sub-values.
#include "common.hpp"
#include "protocols.hpp"
#include "mp_gen.hpp"
#include "flex_gen.hpp"
#include "zera_gen.hpp"
#include <zerialize/translate.hpp>
using namespace drv;
using namespace zerialize;

struct Chain { std::string o; Rng& g; size_t hops; const V* cur; bool full; int first = -1; bool list = false; };

template <class R> void hop(Chain& c, const R& r, const V& cv);
template <class R> void sub(Chain& c, const R& r, const V& cv) {
    // go down a random path first, with some probability
    if ((cv.t == 'a' && !cv.a.empty()) || (cv.t == 'm' && !cv.m.empty())) {
        if (c.full && c.g.chance(35)) {
            if (cv.t == 'a') {
                size_t i = c.g.below(cv.a.size());
                c.o += ",[\"idx\"," + std::to_string(i) + "]";
                auto s = r[i]; sub(c, s, cv.a[i]); return;
            }
            size_t i = c.g.below(cv.m.size());
            c.o += ",[\"get\","; j_bytes(c.o, cv.m[i].first, c.list); c.o += "]";
            auto s = r[std::string_view(cv.m[i].first)]; sub(c, s, cv.m[i].second); return;
        }
    }
    hop(c, r, cv);
}
template <class R> void hop(Chain& c, const R& r, const V& cv) {
    if (c.hops == 0) return;
    --c.hops;
    with_proto(c.first >= 0 ? c.first : int(c.g.below(3)), [&]<class P>(P) {
        using D = typename P::Deserializer;
        c.o += ",[\"tr\",\"" + std::string(pcode<P>) + "\",";
        auto seen = [&](const D& d) {
            std::string n; try { j_node(n, d, c.list); } catch (...) { n = "[[],[\"E\",\"X\"]]"; }
            c.o += "\"ok\"," + n + "]"; sub(c, d, cv);
        };
        const size_t mark = c.o.size();
        int how = int(c.g.below(4));
        bool entered = false;
        try {
            if (how == 0) { // by hand: write_value into a writer, bytes read in place
                typename P::RootSerializer rs{}; typename P::Serializer w{rs};
                write_value(r, w); ZBuffer b = rs.finish();
                Heap h(b.buf()); D d(h.span()); entered = true; seen(d);
            } else if (how == 1) { D d = translate_bytes<P>(r); D e = std::move(d); entered = true; seen(e); }
            else { D d = translate<P>(r); entered = true; seen(d); }
        } catch (const SerializationError&) { if (entered) throw; c.o.resize(mark); c.o += "\"S\",[]]"; }
        catch (...) { if (entered) throw; c.o.resize(mark); c.o += "\"X\",[]]"; }
    });
}
static std::vector<V> fixed_cases() {
    std::vector<V> c{V::null(), V::boolean(true), V::boolean(false)};
    for (auto& v : boundary_ints()) c.push_back(v);
    for (auto& v : boundary_doubles()) c.push_back(v);
    Rng g(3);
    for (size_t n : {0, 1, 12, 13, 15, 16, 17, 31, 32, 33, 255, 256, 257, 65535, 65536, 65537}) {
        c.push_back(V::str(gen_bytes(g, n))); c.push_back(V::blob(gen_bytes(g, n)));
        std::string k(n, 'k'); c.push_back(V::map({{k, V::blob("v")}})); c.push_back(V::arr({V::map({{k, V::str(k)}, {"b", V::uint(n)}})}));
        if (n < 300) {
            V a; a.t = 'a'; for (size_t i = 0; i < n; ++i) a.a.push_back(i % 2 ? V::uint(i << 56) : V::sint(-int64_t(i))); c.push_back(a);
            V m; m.t = 'm'; for (size_t i = 0; i < n; ++i) m.m.emplace_back("k" + std::to_string(i), i % 2 ? V::dbl(double(i)) : V::arr({V::sint(int64_t(i))})); c.push_back(m);
        }
    }
    for (size_t n : {300, 700, 4000}) {
        V a; a.t = 'a'; for (size_t i = 0; i < n; ++i) a.a.push_back(i % 3 == 0 ? V::sint(int64_t(i) - 5) : i % 3 == 1 ? V::uint(i) : V::str(std::to_string(i))); c.push_back(a);
        V m; m.t = 'm'; for (size_t i = 0; i < n; ++i) m.m.emplace_back("k" + std::to_string(i * 7919 % 100003), V::uint(i)); if (n < 1000) c.push_back(m);
    }
    for (size_t n : {65535, 65536, 65601}) { V m; m.t = 'm'; for (size_t i = 0; i < n; ++i) m.m.emplace_back("k" + std::to_string(i), V::uint(i)); c.push_back(m); V a; a.t = 'a'; for (size_t i = 0; i < n; ++i) a.a.push_back(i % 2 ? V::sint(-int64_t(i)) : V::str("s" + std::to_string(i))); c.push_back(a); }
    for (int depth : {40, 100, 1000}) { V x = V::boolean(true); for (int i = 0; i < depth; ++i) { V y = i % 2 ? V::arr({V::null()}) : V::map({{"p", V::sint(-i)}}); if (i % 2) { y.a.push_back(std::move(x)); y.a.push_back(V::blob("ab")); } else y.m.emplace_back("q", std::move(x)); x = std::move(y); } c.push_back(std::move(x)); }
    c.push_back(V::arr({V::blob(std::string((1 << 24) + 5, '\x31')), V::str("a string after sixteen megabytes"), V::blob("blob"), V::arr({V::str(std::string(13, 'e'))}), V::uint(7)}));
    c.push_back(V::map({{std::string("a\0b", 3), V::sint(1)}, {"c", V::arr({V::sint(2)})}}));
    c.push_back(V::map({{"z", V::sint(1)}, {"y", V::uint(2)}, {"", V::arr({})}, {"x", V::map({})}, {"\xff", V::blob("")}, {"A", V::str("")}}));
    return c;
}
// Chains that start from a message some other writer might have made.
static std::string foreign_case(size_t id, size_t k) {
    Rng g(seed(), id); GenOpt o; o.maxdepth = 1 + int(g.below(4)); o.maxfan = 1 + g.below(6); o.midpct = 1; o.nulkeys = g.chance(30);
    V v; if (g.chance(12)) { static const std::vector<V> es{V::arr({}), V::map({}), V::str(""), V::blob(""), V::map({{"", V::null()}}), V::null()}; std::vector<V> a; for (size_t n = 1 + g.below(4); n--;) a.push_back(g.pick(es)); v = g.chance(50) ? V::arr(a) : V::map({{"e", g.pick(es)}, {"f", V::arr(a)}}); if (g.chance(20)) v = g.pick(es); }
    else v = gen_value(g, o);
    size_t mk = 0; bool nul = false; key_facts(v, mk, nul); int p = int(k % 3); if (p == 2 && nul) p = 1;
    std::string b, steps; Chain c{"", g, 1 + g.below(4), &v, true}; c.list = true;
    if (p == 0) b = ZeraForge(g).message(v); else if (p == 1) { MpForge f(g, g.chance(30) ? 100 : 50); f.val(v); b = f.o; } else b = FlexForge(g, g.chance(30) ? 100 : 40).message(v);
    with_proto(p, [&]<class P>(P) {
        c.o += "[\"from\",\"" + std::string(pcode<P>) + "\","; j_bytes(c.o, b, true); c.o += ']';
        try { Heap h(b); typename P::Deserializer d = open_view<typename P::Deserializer>(h, id); sub(c, d, v); } catch (...) { c.o += ",[\"X\",\"\"]"; }
    });
    return "{\"id\":" + std::to_string(id) + ",\"v\":[\"n\"],\"steps\":[" + c.o + "]}";
}
int main(int argc, char** argv) {
    static auto fixed = fixed_cases();
    const size_t nrand = scale(12000, 60000), rep = 3, nforeign = scale(4000, 20000);
    return run_cases(argc, argv, fixed.size() * rep + nrand + nforeign, [&](size_t id) {
        if (id >= fixed.size() * rep + nrand) return foreign_case(id, id - fixed.size() * rep - nrand);
        Rng g(seed(), id);
        V v;
        if (id < fixed.size() * rep) v = fixed[id / rep];
        else { GenOpt o; o.maxdepth = 2 + int(id % 3); o.midpct = 3; v = gen_value(g, o); }
        const bool deep = depth_of(v) > 60, wide = v.a.size() > 600 || v.m.size() > 600; ContainerLimit = deep ? 0 : 600;
        std::string o = "{\"id\":" + std::to_string(id) + ",\"v\":"; j_value(o, v);
        Chain c{"", g, wide ? 1 + g.below(2) : 1 + g.below(5), &v, !deep && !wide};
        const bool huge = v.a.size() > 60000 || v.m.size() > 60000; // only FlexBuffers finds entries of these fast enough
        int p0 = huge ? 2 : int(id % 3); if (huge) { c.hops = 1; c.first = int(id % 3); }
        with_proto(p0, [&]<class P>(P) {
            std::string b; std::string out = write_value_bytes<P>(v, b);
            c.o += "[\"start\",\"" + std::string(pcode<P>) + "\",\"" + out + "\"]";
            if (out != "ok") return;
            try {
                std::vector<uint8_t> bytes(b.begin(), b.end());
                typename P::Deserializer d(bytes);
                sub(c, d, v);
            } catch (...) { c.o += ",[\"X\",\"\"]"; }
        });
        return o + ",\"steps\":[" + c.o + "]}";
    });
}
