// Foreign Zera messages: same format, layouts the library's own writer never produces.
#pragma once
#include "common.hpp"
namespace drv {
inline void put16(std::string& b, size_t v) { b += char(v & 255); b += char((v >> 8) & 255); }
inline void put32(std::string& b, uint64_t v) { for (int i = 0; i < 4; ++i) b += char((v >> (8 * i)) & 255); }
inline void put64(std::string& b, uint64_t v) { for (int i = 0; i < 8; ++i) b += char((v >> (8 * i)) & 255); }
inline void set32(std::string& b, size_t at, uint64_t v) { for (int i = 0; i < 4; ++i) if (at + i < b.size()) b[at + i] = char((v >> (8 * i)) & 255); }
inline uint32_t get32(const std::string& b, size_t at) { uint32_t v = 0; for (int i = 0; i < 4; ++i) if (at + i < b.size()) v |= uint32_t((unsigned char)b[at + i]) << (8 * i); return v; }

struct ZeraForge {
    Rng& g;
    std::string env, arena;
    std::vector<size_t> fields32; // envelope offsets of u32 fields worth corrupting
    bool gaps, junk; int early; std::map<std::string, std::string> made; // containers placed before their contents; refs by content, for sharing
    explicit ZeraForge(Rng& r) : g(r) { gaps = g.chance(50); junk = g.chance(50); early = g.chance(40) ? 0 : g.chance(50) ? 100 : 50; }
    void gap() { if (gaps && g.chance(40)) { size_t n = g.below(9); for (size_t i = 0; i < n; ++i) env += junk ? char(g.below(256)) : char(0); } }
    std::string ref(int tag, int flags, size_t aux) { std::string r; r += char(tag); r += char(flags); put16(r, aux); return r; }
    static void fill(std::string& r) { r.resize(16, 0); }
    size_t arena_put(const std::string& s, size_t align) {
        if (gaps && g.chance(30)) arena += std::string(g.below(7), junk ? '\x5a' : '\0');
        if (align > 1 && g.chance(85)) while (arena.size() % align) arena += '\0';
        // sometimes share bytes already there
        if (!s.empty() && g.chance(15)) { auto p = arena.find(s); if (p != std::string::npos) return p; }
        size_t o = arena.size(); arena += s; return o;
    }
    std::string value(const V& v) {
        std::string r;
        switch (v.t) {
        case 'n': r = ref(0, 0, 0); break;
        case 'b': r = ref(1, 0, v.b); break;
        case 'i': r = ref(2, 0, 0); put64(r, uint64_t(v.i)); break;
        case 'u': r = ref(8, 0, 0); put64(r, v.u); break;
        case 'd': r = ref(3, 0, 0); put64(r, v.d); break;
        case 's':
            if (v.s.size() <= 12 && g.chance(50)) { r = ref(4, 1, v.s.size()); r += v.s; if (junk) while (r.size() < 16) r += char(g.below(256)); }
            else { size_t o = arena_put(v.s, 1); r = ref(4, 0, junk ? g.below(65536) : 0); put32(r, o); put32(r, v.s.size()); if (junk) put32(r, g.next()); }
            break;
        case 'x': {
            size_t o = arena_put(v.s, 16);
            gap(); size_t so = env.size(); fields32.push_back(so); put32(env, 1); put64(env, v.s.size());
            r = ref(7, 0, 2); put32(r, o); put32(r, v.s.size()); put32(r, so);
            break;
        }
        case 'a': {
            std::string same; if (share(v, same)) return same;
            const size_t size = 4 + 16 * v.a.size(); size_t o = 0; const bool first = g.chance(early);
            if (first) { gap(); o = env.size(); env.resize(o + size); }
            std::string body; put32(body, v.a.size()); for (auto& c : v.a) body += value(c);
            if (!first) { gap(); o = env.size(); env.resize(o + size); }
            env.replace(o, size, body); fields32.push_back(o); for (size_t i = 0; i < v.a.size(); ++i) note_ref(o + 4 + 16 * i);
            r = ref(5, 0, junk ? g.below(100) : 0); put32(r, o); if (junk) put64(r, g.next());
            break;
        }
        case 'm': {
            std::string same; if (share(v, same)) return same;
            size_t size = 4, o = 0; for (auto& [k, c] : v.m) size += 20 + k.size(); const bool first = g.chance(early);
            if (first) { gap(); o = env.size(); env.resize(o + size); }
            std::string body; put32(body, v.m.size()); std::vector<size_t> at;
            for (auto& [k, c] : v.m) { at.push_back(body.size()); put16(body, k.size()); put16(body, 0); body += k; body += value(c); }
            if (!first) { gap(); o = env.size(); env.resize(o + size); }
            env.replace(o, size, body); fields32.push_back(o); for (size_t i = 0; i < at.size(); ++i) { fields32.push_back(o + at[i]); note_ref(o + at[i] + 4 + v.m[i].first.size()); }
            r = ref(6, 0, 0); put32(r, o); if (junk) put64(r, g.next());
            break;
        }
        }
        fill(r);
        if (v.t == 'a' || v.t == 'm') { std::string c; canon(c, v); made[c] = r; }
        return r;
    }
    bool share(const V& v, std::string& r) { if (!g.chance(30)) return false; std::string c; canon(c, v); auto f = made.find(c); if (f == made.end()) return false; r = f->second; return true; }
    void note_ref(size_t o) { fields32.push_back(o); fields32.push_back(o + 4); fields32.push_back(o + 8); fields32.push_back(o + 12); }
    std::string message(const V& v) {
        if (gaps) env += std::string(g.below(20), '\x33');
        size_t root = 0; const bool first = g.chance(early); // the root reference may come first
        if (first) { gap(); root = env.size(); env.resize(root + 16); }
        std::string r = value(v);
        if (!first) { gap(); root = env.size(); env.resize(root + 16); }
        note_ref(root); env.replace(root, 16, r);
        if (gaps && g.chance(50)) env += std::string(g.below(30), '\x44');
        std::string out = "ZENV"; put16(out, 1); put16(out, 1); put32(out, root); put32(out, env.size());
        size_t a = 20 + env.size(); while (a % 16) ++a; if (gaps && g.chance(30)) a += 16 * g.below(4);
        put32(out, a); out += env; out.resize(a, junk ? '\x77' : '\0'); out += arena;
        if (gaps && g.chance(30)) out += std::string(g.below(9), '\x11');
        return out;
    }
};

// Offsets (in the message) of the u32 fields of a message made by the library's writer.
inline void zera_fields(const std::string& b, size_t h, std::vector<size_t>& out, int depth = 0) {
    if (20 + h + 16 > b.size() || out.size() > 200 || depth > 20) return;
    for (int i = 0; i < 4; ++i) out.push_back(20 + h + 4 * i);
    uint32_t a = get32(b, 20 + h + 4), c = get32(b, 20 + h + 12);
    switch (b[20 + h]) {
    case 5: { out.push_back(20 + a); uint32_t n = get32(b, 20 + a); for (uint32_t i = 0; i < n && i < 8; ++i) zera_fields(b, a + 4 + 16 * i, out, depth + 1); break; }
    case 6: { out.push_back(20 + a); uint32_t n = get32(b, 20 + a); size_t o = a + 4; for (uint32_t i = 0; i < n && i < 8; ++i) { out.push_back(20 + o); size_t kl = get32(b, 20 + o) & 0xffff; zera_fields(b, o + 4 + kl, out, depth + 1); o += 20 + kl; } break; }
    case 7: out.push_back(20 + c); out.push_back(20 + c + 4); out.push_back(20 + c + 8); break;
    }
}
inline uint64_t interesting32(Rng& g, const std::string& b) {
    const uint64_t env = get32(b, 12), ar = get32(b, 16), al = b.size() - std::min<uint64_t>(ar, b.size());
    const uint64_t base[] = {0, 1, 2, 3, 4, 7, 8, 12, 13, 16, 20, 255, 256, 65535, 65536, env, ar, al, b.size(), 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, 0x10000000, 0x0fffffff, 0x20000000, 0x1fffffff};
    uint64_t v = base[g.below(std::size(base))];
    if (g.chance(50)) { static const int d[] = {-32, -20, -17, -16, -15, -12, -8, -5, -4, -3, -2, -1, 1, 2, 4, 16}; v += uint64_t(int64_t(d[g.below(std::size(d))])); }
    return v & 0xffffffff;
}
}
