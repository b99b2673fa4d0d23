// C08: open arbitrary bytes as MsgPack and read them in every way.
#include "session.hpp"
#include "protocols.hpp"
#include "mp_gen.hpp"
using namespace drv;
using D = zerialize::MsgPack::Deserializer;

// Short strings: every one of length <= 1, then (quick) a sample of / (thorough) every one of length 2.
static const size_t Short1 = 257;
static size_t nshort() { return Short1 + scale(3000, 65536); }
static const uint8_t Markers[] = {0x80, 0x81, 0x82, 0x8f, 0x90, 0x91, 0x92, 0x9f, 0xa0, 0xa1, 0xa2, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf,
    0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff, 0x00, 0x01, 0x7f};
static std::string make(Rng& g, size_t id) {
    if (id < 1) return "";
    if (id < Short1) return std::string(1, char(id - 1));
    if (id < nshort()) { size_t k = scale(3000, 65536) == 65536 ? id - Short1 : g.below(65536); return {char(k >> 8), char(k)}; }
    std::string b;
    switch (id % 8) {
    case 0: { size_t n = 3 + g.below(30); for (size_t i = 0; i < n; ++i) b += g.chance(50) ? char(g.pick(Markers)) : g.chance(60) ? char(g.below(8)) : char(g.below(256)); return b; }
    case 1: { // announced sizes with too little behind them
        static const uint8_t hm[] = {0xc4, 0xc5, 0xc6, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf}; uint8_t m = g.pick(hm);
        if (g.chance(40)) b += char(0x91 + g.below(3));
        b += char(m); static const uint32_t ns[] = {0, 1, 2, 3, 5, 15, 16, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xfffffffe, 0xffffffffu};
        int w = (m == 0xc4 || m == 0xd9) ? 1 : (m == 0xc5 || m == 0xda || m == 0xdc || m == 0xde) ? 2 : 4;
        be(b, g.pick(ns), w); b.resize(b.size() - (g.chance(20) ? g.below(w + 1) : 0));
        size_t n = g.below(12); for (size_t i = 0; i < n; ++i) b += g.chance(60) ? char(0xa1) : char(g.below(128)); return b; }
    default: break;
    }
    GenOpt o; o.maxdepth = 1 + int(g.below(3)); o.maxfan = 3; o.midpct = 2;
    V v = gen_value(g, o);
    MpForge f(g, 40);
    if (g.chance(30)) { // maps with keys that are not strings, or repeated
        f.mark(0x83); for (int i = 0; i < 3; ++i) { if (g.chance(50)) f.val(gen_value(g, o, 2)); else f.val(V::str(g.chance(50) ? "k" : "kk")); f.val(gen_value(g, o, 2)); }
    } else f.val(v);
    b = f.o;
    switch (id % 8) {
    case 2: return b;
    case 3: b.resize(g.below(b.size() + 1)); return b;
    case 4: b += gen_bytes(g, 1 + g.below(6)); return b;                                      // bytes after the element
    case 5: case 6: { size_t k = 1 + g.below(2); for (size_t i = 0; i < k; ++i) b[g.pick(f.heads)] = g.chance(70) ? char(g.pick(Markers)) : char(g.below(256)); return b; }
    default: { size_t k = 1 + g.below(3); for (size_t i = 0; i < k; ++i) b[g.below(b.size())] = char(g.below(256)); if (g.chance(30)) b.resize(b.size() - std::min<size_t>(b.size(), g.below(4))); return b; }
    }
}

// Nesting: a unit repeated n times around a leaf. Observed: a few operations on the root.
static std::string deep(size_t k) {
    static const size_t ns[] = {10, 1000, 50000, 400000, 2000000};
    struct U { const char* name; std::string unit; } us[] = {{"a1", "\x91"}, {"a2", "\x92\x05"}, {"a3", std::string("\xdc\x00\x01", 3)}, {"m1", "\x81\xa1k"}, {"k1", "\x81"}, {"a9", "\x93\xc0\xc3"}};
    auto& u = us[k % 6]; size_t n = ns[(k / 6) % 5]; bool cut = k / 30;
    std::string b; b.reserve(n * u.unit.size() + 2);
    for (size_t i = 0; i < n; ++i) b += u.unit;
    if (u.name[0] == 'k') { if (!cut) { b += char(0x05); for (size_t i = 0; i < n; ++i) b += char(0xc0); } } // maps nested in key position
    else if (!cut) b += char(0x07);
    Heap h(b);
    D d(h.span());
    std::string o = "\"deep\":\"" + std::string(u.name) + "\",\"n\":" + std::to_string(n) + ",\"cut\":" + (cut ? "true" : "false") + ",\"ops\":[";
    auto add = [&](const char* nm, auto&& f, bool last = false) { o += std::string("[\"") + nm + "\","; code(o, f); o += last ? "]" : "],"; };
    auto bo = [&](bool x) { o += x ? "[1,1]" : "[1,0]"; };
    add("arr", [&] { bo(d.isArray()); }); add("map", [&] { bo(d.isMap()); });
    add("size", [&] { o += "[1," + std::to_string(d.arraySize()) + "]"; });
    add("idx0", [&] { auto s = d[size_t(0)]; bo(s.isArray()); });
    add("last", [&] { auto s = d[d.arraySize() - 1]; bo(s.isArray()); });
    add("has", [&] { bo(d.contains("k")); });
    add("get", [&] { auto s = d[std::string_view("k")]; bo(s.isMap()); });
    add("keys", [&] { size_t c = 0; for (std::string_view x : d.mapKeys()) { (void)x; ++c; } o += "[1," + std::to_string(c) + "]"; }, true);
    return o + "]";
}

int main(int argc, char** argv) {
    const size_t ndeep = 60, n = nshort() + scale(24000, 150000);
    return run_cases(argc, argv, ndeep + n, [&](size_t id) {
        std::string o = "{\"id\":" + std::to_string(id);
        if (id < ndeep) return o + "," + deep(id) + "}";
        Rng g(seed(), id);
        std::string b = make(g, id - ndeep);
        o += ",\"b\":"; j_bytes(o, b, true);
        Heap h(b, g.below(16));
        std::string open = "ok", ops;
        try {
            auto run = [&](const D& d) { Session<D> s(d); s.walk(g, b.size() <= 2 ? 20 : 60); s.dump(); ops = std::move(s.o); };
            switch (id % 3) {
            case 0: { D d(h.span()); run(d); break; }
            case 1: { D d = D::copy_from(h.span()); run(d); break; }
            default: { std::vector<uint8_t> v(b.begin(), b.end()); v.shrink_to_fit(); D d(v); run(d); }
            }
        } catch (const zerialize::DeserializationError&) { open = "D"; } catch (...) { open = "X"; }
        o += ",\"open\":\"" + open + "\",\"ops\":[" + ops + "]}";
        return o;
    });
}
