// C19: the debug text of whole messages and of their parts.
#include "common.hpp"
#include "protocols.hpp"
#include "mp_gen.hpp"
#include "flex_gen.hpp"
#include "zera_gen.hpp"
using namespace drv;

// Blanks and line breaks outside quotes carry no meaning.
static std::string squash(const std::string& t) {
    std::string o; bool in = false;
    for (size_t i = 0; i < t.size(); ++i) {
        if (in && t[i] == '\\' && i + 1 < t.size()) { o += t[i]; o += t[++i]; continue; }
        if (t[i] == '"') in = !in;
        if (!in && (t[i] == ' ' || t[i] == '\n')) continue;
        o += t[i];
    }
    return o;
}
static V nested(Rng& g, size_t depth, V leaf) {
    V x = std::move(leaf); for (size_t i = 0; i < depth; ++i) { V y = g.chance(50) ? V::arr({}) : V::map({}); if (y.t == 'a') { if (g.chance(30)) y.a.push_back(V::uint(i)); y.a.push_back(std::move(x)); if (g.chance(20)) y.a.push_back(V::arr({})); } else { y.m.emplace_back(g.chance(20) ? "" : "k", std::move(x)); if (g.chance(20)) y.m.emplace_back("l", V::null()); } x = std::move(y); }
    return x;
}
static V make(Rng& g, size_t i, bool nul) {
    static const std::vector<V> fixed = [] {
        std::vector<V> f = boundary_ints(); for (auto& d : boundary_doubles()) f.push_back(d);
        for (double d : {1.0, 2.0, 9.0, 10.0, 99999.0, 999999.0, -1.0, -524288.0, 123456.0}) f.push_back(V::dbl(d));
        f.push_back(V::null()); f.push_back(V::boolean(true)); f.push_back(V::boolean(false)); f.push_back(V::arr({})); f.push_back(V::map({}));
        for (int c = 0; c < 256; ++c) { std::string s(1, char(c)); f.push_back(V::str(s)); f.push_back(V::str("a" + s + "0\"")); if (c) f.push_back(V::map({{s, V::str(s)}, {s + s, V::null()}})); f.push_back(V::blob(std::string(size_t(c), char(c)))); f.push_back(V::str(std::string(size_t(c), 'l'))); }
        for (size_t n : {256, 257, 4095, 65535, 65536, 65537, 100000, (1 << 20) + 7, (1 << 24) + 1}) { f.push_back(V::blob(std::string(n, 'B'))); f.push_back(V::arr({V::blob(std::string(n, 'B'))})); f.push_back(V::map({{"x", V::arr({V::null(), V::blob(std::string(n, 'c'))})}})); }
        for (size_t n : {255, 256, 257, 300, 511, 512, 513, 600}) for (int w = 0; w < 3; ++w) { V a = V::arr({}), m = V::map({}); for (size_t k = 0; k < n; ++k) if (w == 2) { if (k < 300) m.m.emplace_back("k" + std::to_string(k), V::uint(k)); } else a.a.push_back(w ? V::uint(k % 10) : k % 7 ? V::null() : V::str("")); V x = w == 2 ? m : a; if (w == 2 && n != 257 && n != 300) continue; f.push_back(w == 1 ? x : V::arr({x, V::uint(1)})); if (n % 2) f.push_back(V::map({{"in", V::arr({x})}})); }
        Rng g(5); for (size_t d : {3, 5, 8, 10, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 50}) { f.push_back(nested(g, d, V::null())); f.push_back(nested(g, d, V::str("deep"))); f.push_back(nested(g, d, V::arr({}))); f.push_back(nested(g, d, V::map({{"a", V::sint(-1)}, {"b", V::blob("xyz")}}))); }
        for (size_t n : {2000, 5000}) { f.push_back(V::str(std::string(n, 's'))); f.push_back(V::map({{std::string(n, 'k'), V::str(std::string(n, '"'))}})); }
        return f;
    }();
    if (i < fixed.size()) return fixed[i];
    if (i % 40 == 0) { V v = V::arr({}); size_t n = g.below(130); for (size_t k = 0; k < n; ++k) v.a.push_back(V::uint(k)); return v; }
    if (i % 40 == 1) { GenOpt o; o.maxdepth = 1; o.nulkeys = nul; V leaf = gen_value(g, o); return nested(g, 1 + g.below(30), leaf); }
    GenOpt o; o.maxdepth = 1 + int(i % 4); o.maxfan = 5; o.midpct = 3; o.nulkeys = nul; return gen_value(g, o);
}
static bool heavy(const V& v) { if (v.t == 'x' && v.s.size() > 60000) return true; for (auto& c : v.a) if (heavy(c)) return true; for (auto& c : v.m) if (heavy(c.second)) return true; return false; }
// Large blobs by digest, everything else in full.
static void put_value(std::string& o, const V& v) { j_value(o, v, !heavy(v)); }
template <class R> static void show(Rng& g, const R& r, const V& v, const std::string& path, std::string& o, int depth) {
    if (!o.empty()) o += ',';
    o += "[[" + path + "],"; std::string t;
    try { t = r.to_string(); std::string again = r.to_string(); if (again != t) t = "differs: " + t + " / " + again; } catch (const std::exception& e) { t = std::string("exception: ") + e.what(); }
    j_bytes(o, squash(t), true); o += ']';
    if (depth > 2) return;
    auto under = [&](const std::string& s) { return path.empty() ? s : path + "," + s; };
    if (v.t == 'a') for (int k = 0; k < 2 && !v.a.empty(); ++k) { size_t i = g.below(v.a.size()); show(g, r[i], v.a[i], under("[\"i\"," + std::to_string(i) + "]"), o, depth + 1); }
    if (v.t == 'm') for (int k = 0; k < 2 && !v.m.empty(); ++k) { size_t i = g.below(v.m.size()); std::string s = "[\"k\","; j_bytes(s, v.m[i].first, true); show(g, r[std::string_view(v.m[i].first)], v.m[i].second, under(s + "]"), o, depth + 1); }
}
static V foreign_value(Rng& g, bool nul) {
    static const std::vector<V> es{V::arr({}), V::map({}), V::str(""), V::blob(""), V::map({{"", V::null()}}), V::null(), V::boolean(false), V::uint(0)};
    if (g.chance(25)) { std::vector<V> a; for (size_t n = 1 + g.below(4); n--;) a.push_back(g.pick(es)); return g.chance(40) ? g.pick(es) : g.chance(50) ? V::arr(a) : V::map({{"e", g.pick(es)}, {"f", V::arr(a)}}); }
    GenOpt o; o.maxdepth = 1 + int(g.below(4)); o.maxfan = 5; o.midpct = 2; o.nulkeys = nul; return gen_value(g, o);
}
int main(int argc, char** argv) {
    const size_t n = scale(4400, 22000), nf = scale(1500, 8000);
    ContainerLimit = 100000;
    return run_cases(argc, argv, (n + nf) * 3, [&](size_t id) {
        Rng gv(seed(), 3000000 + id / 3), g(seed(), id); const bool foreign = id >= n * 3;
        V v = foreign ? foreign_value(gv, id % 3 != 2) : make(gv, id / 3, id % 3 != 2); size_t mk = 0; bool nk = false; key_facts(v, mk, nk);
        std::string o = "{\"id\":" + std::to_string(id) + (foreign ? ",\"b\":" : ",\"v\":");
        with_proto(int(id % 3), [&]<class P>(P) {
            using D = typename P::Deserializer; std::string b, shown, open = "ok"; bool same = true;
            if (!foreign) { put_value(o, v); open = write_value_bytes<P>(v, b); }
            else { if (id % 3 == 0) b = ZeraForge(g).message(v); else if (id % 3 == 1) { MpForge f(g, g.chance(30) ? 100 : 50); f.val(v); b = f.o; } else b = FlexForge(g, g.chance(30) ? 100 : 40).message(v); j_bytes(o, b, true); }
            if (open == "ok") { Heap h(b); try { D d = open_view<D>(h, id); show(g, d, v, "", shown, 0); } catch (...) { open = "X"; } same = std::memcmp(h.p, b.data(), b.size()) == 0; }
            o += ",\"p\":\"" + std::string(pcode<P>) + "\",\"open\":\"" + open + "\",\"mk\":" + std::to_string(mk) + ",\"nk\":" + (nk ? "true" : "false") + ",\"same\":" + (same ? "true" : "false") + ",\"shown\":[" + shown + "]}";
        });
        return o;
    });
}
