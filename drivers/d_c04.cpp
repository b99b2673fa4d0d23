// C04: random reading sessions over root and sub-value handles, with keys and indices chosen
// around the existing ones.
#include "session.hpp"
#include "protocols.hpp"
using namespace drv;

static void collect(const V& v, std::vector<std::string>& ks) {
    for (auto& c : v.a) collect(c, ks);
    for (auto& [k, c] : v.m) { ks.push_back(k); collect(c, ks); }
    if (v.t == 'Q') for (uint64_t i : {uint64_t(0), uint64_t(1), uint64_t(9), uint64_t(10), v.u / 2, v.u - 1, v.u}) ks.push_back("k" + std::to_string(i));
}
static std::string near(Rng& g, const std::vector<std::string>& ks) {
    if (ks.empty() || g.chance(10)) return gen_bytes(g, g.below(5));
    std::string k = g.pick(ks);
    switch (g.below(11)) {
    case 0: if (!k.empty()) k.pop_back(); break;
    case 1: k += 'x'; break;
    case 2: k += '\0'; break;
    case 3: if (!k.empty()) k.back() = char(k.back() ^ 1); break;
    case 4: if (!k.empty()) k[0] = char(k[0] ^ 0x20); break;
    case 5: k = ""; break;
    case 6: if (!k.empty()) k.erase(0, 1); break;
    default: break;
    }
    return k;
}
// The same value with array elements and map entries in another order (recursively).
static void shuffle(Rng& g, V& v) {
    for (auto& c : v.a) shuffle(g, c);
    for (auto& [k, c] : v.m) shuffle(g, c);
    for (size_t i = v.a.size(); i > 1; --i) std::swap(v.a[i - 1], v.a[g.below(i)]);
    for (size_t i = v.m.size(); i > 1; --i) std::swap(v.m[i - 1], v.m[g.below(i)]);
    if (v.m.size() > 1 && g.chance(50)) { size_t a = g.below(v.m.size()), b = g.below(v.m.size()); std::swap(v.m[a].second, v.m[b].second); }
}
static V make(Rng& g, size_t i, bool nul) {
    static const size_t sizes[] = {0, 1, 2, 14, 15, 16, 17, 31, 32, 100, 255, 256, 257, 300, 1000, 65535, 65536, 70000};
    if (i % 12 == 0) { V v; v.t = g.chance(50) ? 'R' : 'Q'; v.u = g.pick(sizes); if (v.t == 'Q' && v.u == 0) v.u = 3; if (v.u > 60000 && i % 5) v.u = 300;
        if (g.chance(50)) return V::arr({V::str("before"), v, V::sint(-1)}); if (g.chance(50)) return V::map({{"big", v}, {"k0", V::str("outer")}}); return v; }
    if (i % 12 == 1) { // many similar keys
        V v; v.t = 'm'; std::set<std::string> seen; size_t n = 1 + g.below(40); static const char al[] = {'a', 'b', 'A', char(0x80), char(0xff), nul ? char(0) : char(1)};
        for (size_t j = 0; j < n; ++j) { std::string k; size_t len = g.below(4); for (size_t q = 0; q < len; ++q) k += g.pick(al); if (g.chance(10)) k += std::string(12, 'p'); if (seen.insert(k).second) v.m.emplace_back(k, V::uint(j)); }
        return v; }
    GenOpt o; o.maxdepth = 2 + int(i % 3); o.maxfan = 8; o.midpct = 3; o.nulkeys = nul;
    V v; do v = gen_value(g, o); while (v.t != 'a' && v.t != 'm');
    return v;
}
// Containers of every size: every key, the keys around each, every index.
constexpr size_t Series = 140 * 2;
template <class P> static std::string series(size_t id, size_t s) {
    using D = typename P::Deserializer;
    Rng g(seed(), 9000000 + id); size_t n = s / 2; V v; v.t = s % 2 ? 'm' : 'a'; std::vector<std::string> ks;
    for (size_t i = 0; i < n; ++i) {
        if (v.t == 'a') { v.a.push_back(i % 3 ? V::uint(i) : V::str("k" + std::to_string(i))); continue; }
        std::string k = s % 4 == 1 ? "k" + std::to_string(i * 7919 % 1000) : i % 2 ? std::string(1 + i / 2, 'p') : std::string(i / 2, 'p') + "a"; ks.push_back(k);
        v.m.emplace_back(k, i % 3 ? V::uint(i) : V::str("k" + std::to_string((i + 1) * 7919 % 1000)));
    }
    for (size_t i = v.m.size(); i > 1; --i) std::swap(v.m[i - 1], v.m[g.below(i)]);
    std::string o = "{\"id\":" + std::to_string(id) + ",\"p\":\"" + std::string(pcode<P>) + "\",\"v\":"; j_value(o, v, true);
    std::string b, ops, open = write_value_bytes<P>(v, b); bool same = true;
    if (open == "ok") try {
        Heap h(b); D d = open_view<D>(h, id); Session<D> S(d);
        if (v.t == 'a') { S.scalar(14, 0); for (size_t i = 0; i <= n + 1; ++i) if (S.idx(0, i)) S.scalar(i % 3 ? 7 : 12, S.handles() - 1); }
        else {
            S.keys(0); S.cursors(g, 0); std::sort(ks.begin(), ks.end());
            for (size_t i = 0; i < ks.size(); ++i) { S.has(0, ks[i]); if (i < 4 || i + 4 >= ks.size() || i % 7 == 0) { if (S.get(0, ks[i])) { S.scalar(7, S.handles() - 1); S.scalar(12, S.handles() - 1); } S.has(0, near(g, ks)); S.get(0, near(g, ks)); } }
            S.has(0, ""); S.has(0, "zzz"); S.get(0, "\xff");
        }
        ops = std::move(S.o); same = std::memcmp(h.p, b.data(), b.size()) == 0;
    } catch (...) { open = "X"; }
    return o + ",\"open\":\"" + open + "\",\"same\":" + (same ? "true" : "false") + ",\"ops\":[" + ops + "]}";
}
int main(int argc, char** argv) {
    const size_t n = scale(5000, 30000);
    return run_cases(argc, argv, (n + Series) * 3, [&](size_t id) {
        if (id >= n * 3) { std::string o; with_proto(int(id % 3), [&]<class P>(P) { o = series<P>(id, (id - n * 3) / 3); }); return o; }
        Rng gv(seed(), 7000000 + id / 3);
        V v = make(gv, id / 3, id % 3 != 2); // Flex cannot hold NUL in keys
        const bool reuse = id / 3 % 4 == 3;
        std::vector<std::string> ks; collect(v, ks);
        bool nul = false; size_t mk = 0; key_facts(v, mk, nul);
        Rng g(seed(), id);
        std::string o = "{\"id\":" + std::to_string(id) + ",";
        with_proto(int(id % 3), [&]<class P>(P) {
            using D = typename P::Deserializer;
            std::string before; // what the buffer held (and was read) before
            if (reuse) { write_value_bytes<P>(v, before); shuffle(g, v); }
            o += "\"p\":\"" + std::string(pcode<P>) + "\",\"v\":"; j_value(o, v, true);
            std::string b, ops, open = write_value_bytes<P>(v, b);
            bool same = true;
            if (open == "ok") {
                Heap h(b); std::vector<uint8_t> vec(b.begin(), b.end()); const std::vector<uint8_t> vec0 = vec;
                try {
                    auto run = [&](const D& d) {
                        Session<D> s(d);
                        for (int step = 0; step < 45; ++step) {
                            size_t hd = g.chance(40) ? g.below(s.handles()) : g.chance(50) ? 0 : s.handles() - 1;
                            size_t sz = 2; bool big = false;
                            try { s.with(hd, [&](auto& r) { if (r.isArray()) sz = r.arraySize(); else if (r.isMap()) { size_t c = 0; for (std::string_view k : r.mapKeys()) { (void)k; if (++c > 600) { big = true; break; } } } return 0; }); } catch (...) {}
                            switch (g.below(10)) {
                            case 0: s.kinds(hd); break;
                            case 1: if (!big) { if (g.chance(60)) s.cursors(g, hd); else s.keys(hd); } else s.has(hd, near(g, ks)); break;
                            case 2: case 3: { static const size_t far[] = {size_t(1) << 29, size_t(1) << 31, size_t(1) << 32, size_t(1) << 60, size_t(-1), (size_t(1) << 32) + 1, (size_t(1) << 60) + 1};
                                size_t i = g.chance(60) ? g.below(sz + 1) : g.chance(50) ? sz - (sz > 0 && g.chance(50)) : g.chance(50) ? sz + g.below(300) : g.pick(far); s.idx(hd, i); break; }
                            case 4: case 5: s.get(hd, near(g, ks)); break;
                            case 6: case 7: s.has(hd, near(g, ks)); break;
                            case 8: s.scalar(14, hd); break;
                            default: s.scalar(int(g.below(15)), hd);
                            }
                        }
                        ops = std::move(s.o);
                    };
                    if (reuse) {
                        Heap m(before.size() > b.size() ? before : b);
                        std::memcpy(m.p, before.data(), before.size()); { D d(std::span<const uint8_t>(m.p, before.size())); run(d); }
                        std::memcpy(m.p, b.data(), b.size()); { D d(std::span<const uint8_t>(m.p, b.size())); run(d); }
                        same = std::memcmp(m.p, b.data(), b.size()) == 0;
                    } else switch (g.below(3)) {
                    case 0: { D d = open_view<D>(h, g.below(3)); run(d); break; }
                    case 1: { D d(vec); run(d); break; }
                    default: { std::span<const uint8_t> sp(vec); D d(sp); run(d); }
                    }
                } catch (...) { open = "X"; }
                same = same && std::memcmp(h.p, b.data(), b.size()) == 0 && vec == vec0;
            }
            o += ",\"open\":\"" + open + "\",\"same\":" + (same ? "true" : "false") + ",\"ops\":[" + ops + "]}";
        });
        return o;
    });
}
