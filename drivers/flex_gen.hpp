// Writes FlexBuffers the way some other producer might: any admissible slot width, typed and
// fixed-length vectors, numbers stored indirectly, shared strings and keys, filler between parts.
#pragma once
#include "common.hpp"
namespace drv {
struct FlexForge {
    struct Item { int type; int bw; bool inl; uint64_t bits; size_t at; }; // bw: log2 of the width of what it points to
    Rng& g; int freak; std::string o; std::map<std::string, size_t> keys; std::map<std::string, Item> strings; bool keyvals = false; // some strings as key-typed values
    FlexForge(Rng& g_, int freak_) : g(g_), freak(freak_) {}
    void pad(int w) { if (g.chance(freak / 8)) { size_t n = g.below(6); for (size_t i = 0; i < n; ++i) o += char(g.next()); } while (o.size() % (size_t(1) << w)) o += g.chance(freak) ? char(g.next()) : '\0'; }
    void num(uint64_t v, int w) { for (int i = 0; i < (1 << w); ++i) o += char(v >> (8 * i)); }
    static int wu(uint64_t v) { return v < 0x100 ? 0 : v < 0x10000 ? 1 : v < 0x100000000ull ? 2 : 3; }
    static int wi(int64_t v) { return v == int8_t(v) ? 0 : v == int16_t(v) ? 1 : v == int32_t(v) ? 2 : 3; }
    static int wf(uint64_t b) { double d; std::memcpy(&d, &b, 8); float f = float(d); double e = f; uint64_t c; std::memcpy(&c, &e, 8); return c == b && d == d ? 2 : 3; }
    static uint64_t f32(uint64_t b) { double d; std::memcpy(&d, &b, 8); float f = float(d); uint32_t c; std::memcpy(&c, &f, 4); return c; }
    int bump(int w) { while (w < 3 && g.chance(freak / 2)) ++w; return w; }
    static int need(const Item& it) { switch (it.type) { case 1: return wi(int64_t(it.bits)); case 2: return wu(it.bits); case 3: return wf(it.bits); default: return 0; } }
    bool fits(const Item& it, size_t pos, int w) { return it.inl ? need(it) <= w : wu(pos - it.at) <= w; }
    void slot(const Item& it, int w) { if (!it.inl) num(o.size() - it.at, w); else if (it.type == 3) num(w == 3 ? it.bits : f32(it.bits), w); else num(it.bits, w); }
    Item scalar(int type, uint64_t bits) {
        Item it{type, 0, true, bits, 0}; it.bw = need(it);
        if (type >= 1 && type <= 3 && g.chance(freak / 3)) { int w = bump(need(it)); pad(w); Item r{type + 5, w, false, bits, o.size()}; if (type == 3) num(w == 3 ? bits : f32(bits), w); else num(bits, w); return r; }
        return it;
    }
    Item sized(int type, const std::string& s) {
        if (type == 5 && g.chance(freak)) if (auto f = strings.find(s); f != strings.end()) return f->second;
        int w = bump(wu(s.size())); pad(w); num(s.size(), w); Item r{type, w, false, 0, o.size()}; o += s; if (type == 5) { o += '\0'; strings[s] = r; } return r;
    }
    size_t key(const std::string& k) { if (g.chance(70)) if (auto f = keys.find(k); f != keys.end()) return f->second; size_t at = o.size(); o += k; o += '\0'; keys[k] = at; return at; }
    // prefix: fields before the size, as a function of the width; -1 if they do not fit
    Item vec(int type, const std::vector<Item>& its, bool types, bool size, const std::function<bool(int, bool)>& prefix = {}, int nprefix = 0) {
        int w = 0; for (auto& it : its) if (it.inl) w = std::max(w, need(it)); w = bump(std::max(w, size ? wu(its.size()) : 0));
        for (;; ++w) {
            std::string keep = o; pad(w);
            size_t body = o.size() + (size_t(nprefix) + (size ? 1 : 0)) * (size_t(1) << w); bool ok = true;
            for (size_t i = 0; i < its.size(); ++i) ok &= fits(its[i], body + i * (size_t(1) << w), w);
            if (prefix && ok) ok = prefix(w, false);
            if (!ok && w < 3) { o = keep; continue; }
            if (prefix) prefix(w, true);
            if (size) num(its.size(), w);
            Item r{type, w, false, 0, o.size()};
            for (auto& it : its) slot(it, w);
            if (types) for (auto& it : its) o += char(it.type * 4 + (it.inl ? w : it.bw));
            return r;
        }
    }
    Item val(const V& v) {
        switch (v.t) {
        case 'n': return scalar(0, 0);
        case 'b': return scalar(26, v.b);
        case 'i': return scalar(1, uint64_t(v.i));
        case 'u': return scalar(2, v.u);
        case 'd': return scalar(3, v.d);
        case 's': if (keyvals && v.s.find('\0') == std::string::npos && g.chance(40)) return Item{4, 0, false, 0, key(v.s)}; return sized(5, v.s);
        case 'x': return sized(25, v.s);
        case 'a': {
            char t = v.a.empty() ? 0 : v.a[0].t; bool same = !v.a.empty(); for (auto& c : v.a) same &= c.t == t;
            const size_t n = v.a.size(); const bool number = t == 'i' || t == 'u' || t == 'd';
            if (same && (number || t == 'b') && g.chance(freak)) {
                std::vector<Item> its; for (auto& c : v.a) { int ty = t == 'i' ? 1 : t == 'u' ? 2 : t == 'd' ? 3 : 26; its.push_back({ty, 0, true, t == 'i' ? uint64_t(c.i) : t == 'u' ? c.u : t == 'd' ? c.d : uint64_t(c.b), 0}); }
                if (number && n >= 2 && n <= 4 && g.chance(60)) return vec(16 + int(n - 2) * 3 + its[0].type - 1, its, false, false);
                return vec(t == 'b' ? 36 : its[0].type + 10, its, false, true);
            }
            if (keyvals && same && t == 's' && g.chance(50)) { bool ok = true; for (auto& c : v.a) ok &= c.s.find('\0') == std::string::npos; if (ok) { std::vector<Item> its; for (auto& c : v.a) its.push_back({4, 0, false, 0, key(c.s)}); return vec(14, its, false, true); } }
            std::vector<Item> its; for (auto& c : v.a) its.push_back(val(c)); return vec(10, its, true, true);
        }
        default: {
            std::vector<std::pair<std::string, const V*>> es; for (auto& [k, c] : v.m) es.emplace_back(k, &c); std::sort(es.begin(), es.end(), [](auto& a, auto& b) { return a.first < b.first; });
            std::vector<Item> ks, vs;
            const bool first = g.chance(50); // keys before or after the values
            auto mk = [&] { for (auto& e : es) ks.push_back({4, 0, false, 0, key(e.first)}); };
            if (first) mk(); for (auto& e : es) vs.push_back(val(*e.second)); if (!first) mk();
            Item kv = vec(14, ks, false, true);
            return vec(9, vs, true, true, [&](int w, bool put) { if (!put) return wu(o.size() - kv.at) <= w; num(o.size() - kv.at, w); num(uint64_t(1) << kv.bw, w); return true; }, 2);
        }
        }
    }
    std::string message(const V& v) {
        Item r = val(v); int w = r.inl ? bump(need(r)) : bump(0);
        for (;; ++w) { std::string keep = o; pad(w); if (!fits(r, o.size(), w) && w < 3) { o = keep; continue; } break; }
        slot(r, w); o += char(r.type * 4 + (r.inl ? w : r.bw)); o += char(1 << w); return o;
    }
};
}
