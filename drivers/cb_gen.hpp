// Foreign CBOR: encodes a value with any admissible head size, definite or indefinite
// containers, and strings in chunks.
#pragma once
#include "common.hpp"
namespace drv {
inline void be(std::string& o, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o += char((v >> (8 * i)) & 255); }
struct CborForge {
    Rng& g;
    int widepct, indefpct, chunkpct;
    std::vector<size_t> heads; // offsets of heads and their arguments, for mutation
    std::string o;
    explicit CborForge(Rng& r, int w = 40, int indef = 30, int chunk = 10) : g(r), widepct(w), indefpct(indef), chunkpct(chunk) {}
    void mark(int m) { heads.push_back(o.size()); o += char(m); }
    void head(int major, uint64_t n) {
        int f = n < 24 ? 0 : n < 0x100 ? 1 : n < 0x10000 ? 2 : n < 0x100000000ull ? 3 : 4;
        while (f < 4 && g.chance(widepct)) ++f;
        if (f == 0) { mark(major * 32 + int(n)); return; }
        static const int w[] = {0, 1, 2, 4, 8};
        mark(major * 32 + 23 + f); heads.push_back(o.size() + g.below(size_t(w[f]))); be(o, n, w[f]);
    }
    void text(int major, const std::string& s, bool chunks) {
        if (!chunks) { head(major, s.size()); o += s; return; }
        mark(major * 32 + 31); size_t p = 0;
        while (p < s.size() || g.chance(20)) { size_t n = g.below(s.size() - p + 1); head(major, n); o.append(s, p, n); p += n; }
        mark(0xff);
    }
    void key(const std::string& k) { text(3, k, g.chance(chunkpct)); }
    void dbl(uint64_t bits) {
        double v; std::memcpy(&v, &bits, 8); float f = float(v); double back = f; uint64_t bb; std::memcpy(&bb, &back, 8);
        if (bb == bits && g.chance(60)) {
            uint32_t w; std::memcpy(&w, &f, 4);
            // binary16, when the value is a half (normal numbers, zeros, infinities)
            int e = int((w >> 23) & 255); uint32_t m = w & 0x7fffff;
            bool half = (e >= 113 && e <= 142 && (m & 0x1fff) == 0) || (w << 1) == 0 || (e == 255 && m == 0);
            if (half && g.chance(60)) { uint32_t h = (w >> 16) & 0x8000; if (e == 255) h |= 0x7c00; else if (e) h |= uint32_t(e - 112) << 10 | m >> 13; mark(0xf9); be(o, h, 2); }
            else { mark(0xfa); be(o, w, 4); }
        } else { mark(0xfb); be(o, bits, 8); }
    }
    void val(const V& v) {
        switch (v.t) {
        case 'n': mark(0xf6); break;
        case 'b': mark(v.b ? 0xf5 : 0xf4); break;
        case 'i': if (v.i < 0) head(1, ~uint64_t(v.i)); else head(0, uint64_t(v.i)); break;
        case 'u': head(0, v.u); break;
        case 'd': dbl(v.d); break;
        case 's': text(3, v.s, g.chance(chunkpct)); break;
        case 'x': text(2, v.s, g.chance(chunkpct)); break;
        case 'a': { bool in = g.chance(indefpct); if (in) mark(0x9f); else head(4, v.a.size()); for (auto& c : v.a) val(c); if (in) mark(0xff); break; }
        case 'm': { bool in = g.chance(indefpct); if (in) mark(0xbf); else head(5, v.m.size()); for (auto& [k, c] : v.m) { key(k); val(c); } if (in) mark(0xff); break; }
        }
    }
};
}
