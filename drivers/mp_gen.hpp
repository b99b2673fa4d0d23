// Foreign MessagePack: encodes a value with arbitrary admissible head sizes.
#pragma once
#include "common.hpp"
namespace drv {
inline void be(std::string& o, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o += char((v >> (8 * i)) & 255); }
struct MpForge {
    Rng& g;
    int widepct;          // how often a head larger than necessary is chosen
    std::vector<size_t> heads; // offsets of markers and length bytes, for mutation
    std::string o;
    explicit MpForge(Rng& r, int w = 50) : g(r), widepct(w) {}
    bool wider() { return g.chance(widepct); }
    void mark(int m) { heads.push_back(o.size()); o += char(m); }
    void head(size_t n, int fix, size_t fixlim, int m8, int m16, int m32) {
        if (n < fixlim && !wider()) { mark(fix | int(n)); return; }
        if (m8 && n < 256 && !wider()) { mark(m8); heads.push_back(o.size()); be(o, n, 1); return; }
        if (n < 65536 && !wider()) { mark(m16); heads.push_back(o.size() + 1); be(o, n, 2); return; }
        mark(m32); heads.push_back(o.size() + g.below(4)); be(o, n, 4);
    }
    void integer(bool neg, uint64_t w) {
        std::vector<std::pair<int, int>> f; // marker, bytes
        auto su = [&](int n) { return !neg && (n == 8 || (w >> (8 * n)) == 0); };
        auto ss = [&](int n) { int64_t s = int64_t(w); if (!neg && s < 0) return false; if (n == 8) return true; int64_t lim = int64_t(1) << (8 * n - 1); return s >= -lim && s < lim; };
        if (!neg && w < 128) f.push_back({-1, 0});
        if (neg && int64_t(w) >= -32) f.push_back({-1, 0});
        int um[] = {0xcc, 0xcd, 0xce, 0xcf}, sm[] = {0xd0, 0xd1, 0xd2, 0xd3}, nb[] = {1, 2, 4, 8};
        for (int i = 0; i < 4; ++i) { if (su(nb[i])) f.push_back({um[i], nb[i]}); if (ss(nb[i])) f.push_back({sm[i], nb[i]}); }
        auto [m, n] = f[wider() ? g.below(f.size()) : 0];
        if (m < 0) mark(int(w & 255)); else { mark(m); be(o, w, n); }
    }
    void val(const V& v) {
        switch (v.t) {
        case 'n': mark(0xc0); break;
        case 'b': mark(v.b ? 0xc3 : 0xc2); break;
        case 'i': integer(v.i < 0, uint64_t(v.i)); break;
        case 'u': integer(false, v.u); break;
        case 'd': {
            float f = float(v.d_()); double back = f; uint64_t bb; std::memcpy(&bb, &back, 8);
            if (g.chance(50) && (bb == v.d || g.chance(20))) { uint32_t w; std::memcpy(&w, &f, 4); mark(0xca); be(o, w, 4); }
            else { mark(0xcb); be(o, v.d, 8); }
            break;
        }
        case 's': head(v.s.size(), 0xa0, 32, 0xd9, 0xda, 0xdb); o += v.s; break;
        case 'x': head(v.s.size(), 0, 0, 0xc4, 0xc5, 0xc6); o += v.s; break;
        case 'a': head(v.a.size(), 0x90, 16, 0, 0xdc, 0xdd); for (auto& c : v.a) val(c); break;
        case 'm': head(v.m.size(), 0x80, 16, 0, 0xde, 0xdf); for (auto& [k, c] : v.m) { head(k.size(), 0xa0, 32, 0xd9, 0xda, 0xdb); o += k; val(c); } break;
        }
    }
};
}
