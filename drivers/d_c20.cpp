// C20: open arbitrary bytes as CBOR and read them in every way.
#include "session.hpp"
#include "cb_gen.hpp"
#include <zerialize/protocols/cbor.hpp>
using namespace drv;
using D = zerialize::CBOR::Deserializer;

// Short strings: every one of length <= 1, then (quick) a sample of / (thorough) every one of length 2.
static const size_t Short1 = 257;
static size_t nshort() { return Short1 + scale(3000, 65536); }
static const uint8_t Markers[] = {0x00, 0x01, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1f, 0x20, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3f, 0x40, 0x41, 0x42, 0x57, 0x58, 0x59, 0x5a, 0x5b, 0x5c, 0x5f,
    0x60, 0x61, 0x62, 0x77, 0x78, 0x79, 0x7a, 0x7b, 0x7c, 0x7f, 0x80, 0x81, 0x82, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9f, 0xa0, 0xa1, 0xa2, 0xb7, 0xb8, 0xb9, 0xba, 0xbb, 0xbc, 0xbf,
    0xc0, 0xc1, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xff};
static std::string make(Rng& g, size_t id) {
    if (id < 1) return "";
    if (id < Short1) return std::string(1, char(id - 1));
    if (id < nshort()) { size_t k = scale(3000, 65536) == 65536 ? id - Short1 : g.below(65536); return {char(k >> 8), char(k)}; }
    std::string b;
    switch (id % 8) {
    case 0: { size_t n = 3 + g.below(30); for (size_t i = 0; i < n; ++i) b += g.chance(50) ? char(g.pick(Markers)) : g.chance(60) ? char(g.below(8)) : char(g.below(256)); return b; }
    case 1: { // announced sizes with too little behind them
        if (g.chance(40)) b += g.chance(50) ? char(0x81 + g.below(3)) : g.chance(50) ? char(0x9f) : char(0x5f + 0x20 * g.below(2));
        int major = int(2 + g.below(4)), f = int(1 + g.below(4)); static const int w[] = {0, 1, 2, 4, 8};
        static const uint64_t ns[] = {0, 1, 2, 3, 5, 15, 16, 23, 24, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xfffffffe, 0xffffffffu, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull - 20, ~0ull - 9, ~0ull - 8, ~0ull - 7, ~0ull - 3, ~0ull - 1, ~0ull};
        b += char(major * 32 + 23 + f); be(b, g.pick(ns), w[f]); b.resize(b.size() - (g.chance(20) ? g.below(size_t(w[f]) + 1) : 0));
        size_t n = g.below(12); for (size_t i = 0; i < n; ++i) b += g.chance(60) ? char(0x61) : g.chance(20) ? char(0xff) : char(g.below(128)); return b; }
    default: break;
    }
    GenOpt o; o.maxdepth = 1 + int(g.below(3)); o.maxfan = 3; o.midpct = 2;
    V v = gen_value(g, o);
    CborForge f(g, 30, g.chance(50) ? 60 : 0, g.chance(30) ? 30 : 0);
    if (g.chance(30)) { // maps with keys that are not strings, or repeated
        bool in = g.chance(40); f.mark(in ? 0xbf : 0xa3); for (int i = 0; i < 3; ++i) { if (g.chance(40)) f.val(gen_value(g, o, 2)); else f.key(g.chance(50) ? "k" : "kk"); f.val(gen_value(g, o, 2)); }
        if (in) f.mark(0xff);
    } else if (g.chance(15)) { // tags and other simple values in between
        f.mark(0x9f); for (int i = 0; i < 3; ++i) { if (g.chance(50)) f.head(6, g.below(70000)); if (g.chance(50)) { static const std::string os[] = {"\xf7", "\xe0", std::string("\xf8\x20", 2), "\xf8\xff", "\xf3"}; f.o += g.pick(os); } else f.val(gen_value(g, o, 2)); }
        f.mark(0xff);
    } else f.val(v);
    b = f.o;
    switch (id % 8) {
    case 2: return b;
    case 3: b.resize(g.below(b.size() + 1)); return b;
    case 4: b += gen_bytes(g, 1 + g.below(6)); return b;                                      // bytes after the item
    case 5: case 6: { size_t k = 1 + g.below(2); for (size_t i = 0; i < k && !f.heads.empty(); ++i) b[g.pick(f.heads)] = g.chance(70) ? char(g.pick(Markers)) : char(g.below(256)); return b; }
    default: { size_t k = 1 + g.below(3); for (size_t i = 0; i < k; ++i) b[g.below(b.size())] = char(g.below(256)); if (g.chance(30)) b.resize(b.size() - std::min<size_t>(b.size(), g.below(4))); return b; }
    }
}

// Nesting: a unit repeated n times around a leaf. Observed: a few operations on the root.
static std::string deep(size_t k) {
    static const size_t ns[] = {10, 1000, 50000, 400000, 2000000};
    struct U { const char* name; std::string unit, close; } us[] = {{"a1", "\x81", ""}, {"a2", "\x82\x05", ""}, {"a3", std::string("\x99\x00\x01", 3), ""}, {"m1", "\xa1\x61k", ""},
        {"k1", "\xa1", ""}, {"a9", "\x83\xf6\xf5", ""}, {"i1", "\x9f", "\xff"}, {"im", "\xbf\x61k", "\xff"}, {"t1", "\x81\xc1", ""}};
    auto& u = us[k % 9]; size_t n = ns[(k / 9) % 5]; bool cut = k / 45;
    std::string b; b.reserve(n * (u.unit.size() + 1) + 2);
    for (size_t i = 0; i < n; ++i) b += u.unit;
    if (u.name[0] == 'k') { if (!cut) { b += char(0x05); for (size_t i = 0; i < n; ++i) b += char(0xf6); } } // maps nested in key position
    else if (!cut) { b += char(0x07); for (size_t i = 0; i < n; ++i) b += u.close; }
    Heap h(b);
    D d(h.span());
    std::string o = "\"deep\":\"" + std::string(u.name) + "\",\"n\":" + std::to_string(n) + ",\"cut\":" + (cut ? "true" : "false") + ",\"ops\":[";
    auto add = [&](const char* nm, auto&& f, bool last = false) { o += std::string("[\"") + nm + "\","; code(o, f); o += last ? "]" : "],"; };
    auto bo = [&](bool x) { o += x ? "[1,1]" : "[1,0]"; };
    add("arr", [&] { bo(d.isArray()); }); add("map", [&] { bo(d.isMap()); });
    add("size", [&] { o += "[1," + std::to_string(d.arraySize()) + "]"; });
    add("idx0", [&] { auto s = d[size_t(0)]; bo(s.isArray()); });
    add("last", [&] { auto s = d[d.arraySize() - 1]; bo(s.isArray()); });
    add("has", [&] { bo(d.contains("k")); });
    add("get", [&] { auto s = d[std::string_view("k")]; bo(s.isMap()); });
    add("keys", [&] { size_t c = 0; auto kv = d.mapKeys(); for (std::string_view x : kv) { (void)x; ++c; } o += "[1," + std::to_string(c) + "]"; }, true);
    return o + "]";
}

int main(int argc, char** argv) {
    const size_t ndeep = 90, n = nshort() + scale(24000, 150000);
    return run_cases(argc, argv, ndeep + n, [&](size_t id) {
        std::string o = "{\"id\":" + std::to_string(id);
        if (id < ndeep) return o + "," + deep(id) + "}";
        Rng g(seed(), id);
        std::string b = make(g, id - ndeep);
        o += ",\"b\":"; j_bytes(o, b, true);
        Heap h(b, g.below(16));
        std::string open = "ok", ops;
        try {
            auto run = [&](const D& d) { Session<D> s(d); s.walk(g, b.size() <= 2 ? 20 : 60); s.dump(); ops = std::move(s.o); };
            switch (id % 3) {
            case 0: { D d = open_view<D>(h, id / 3); run(d); break; }
            case 1: { std::vector<uint8_t> v(b.begin(), b.end()); v.shrink_to_fit(); D c(std::move(v)); D d = c; c = D(); run(d); break; }
            default: { std::vector<uint8_t> v(b.begin(), b.end()); v.shrink_to_fit(); D d(v); v.clear(); v.shrink_to_fit(); run(d); }
            }
        } catch (const zerialize::DeserializationError&) { open = "D"; } catch (...) { open = "X"; }
        o += ",\"open\":\"" + open + "\",\"ops\":[" + ops + "]}";
        return o;
    });
}
