// A stand-in for yyjson (not installed here), written from its documentation: the part of its
// interface that zerialize uses. Reading follows RFC 8259 without extensions: integers that fit
// 64 bits are "uint" (no sign) or "sint" (with a minus), other numbers are "real" (an infinite one
// is an error), text is UTF-8. Writing fails on NaN, infinities and text that is not UTF-8.
// yyjson_mut_strn borrows the caller's bytes until the document is written, as the real one does.
#pragma once
#include <charconv>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <string>
#include <vector>
#define YYJSON_VERSION_HEX 0x000C00
typedef uint32_t yyjson_read_flag;
typedef uint32_t yyjson_write_flag;
static const yyjson_write_flag YYJSON_WRITE_PRETTY = 1u;
struct yyjson_alc;

namespace yystub {
enum Kind { Null, Bool, UInt, SInt, Real, Str, Arr, Obj };
template <class N> struct Node {
    Kind k = Null;
    uint64_t u = 0;
    double r = 0;
    const char* p = nullptr;                // text: borrowed, or in own
    size_t n = 0;
    std::string own;
    std::vector<N*> c;                      // objects: key, value, key, value, ...
};
inline bool utf8(const char* q, size_t n) {
    auto s = reinterpret_cast<const unsigned char*>(q);
    for (size_t i = 0; i < n;) {
        unsigned char b = s[i];
        size_t m = b < 0x80 ? 1 : b >= 0xC2 && b < 0xE0 ? 2 : b >= 0xE0 && b < 0xF0 ? 3 : b >= 0xF0 && b < 0xF5 ? 4 : 0;
        if (!m || n - i < m) return false;
        for (size_t j = 1; j < m; ++j) if ((s[i + j] & 0xC0) != 0x80) return false;
        if ((b == 0xE0 && s[i + 1] < 0xA0) || (b == 0xED && s[i + 1] > 0x9F) || (b == 0xF0 && s[i + 1] < 0x90) || (b == 0xF4 && s[i + 1] > 0x8F)) return false;
        i += m;
    }
    return true;
}
inline void put_utf8(std::string& o, uint32_t c) {
    if (c < 0x80) o += char(c);
    else if (c < 0x800) { o += char(0xC0 | c >> 6); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xE0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xF0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
}
template <class N> bool write(const N* v, bool pretty, int depth, std::string& o) {
    auto line = [&](int d) { if (pretty) { o += '\n'; o.append(size_t(d) * 4, ' '); } };
    switch (v->k) {
    case Null: o += "null"; return true;
    case Bool: o += v->u ? "true" : "false"; return true;
    case UInt: o += std::to_string(v->u); return true;
    case SInt: o += std::to_string(int64_t(v->u)); return true;
    case Real: {
        if (!std::isfinite(v->r)) return false;
        char b[64]; auto e = std::to_chars(b, b + 64, v->r).ptr; std::string_view t(b, size_t(e - b));
        o += t; if (t.find_first_of(".e") == t.npos) o += ".0"; return true;
    }
    case Str: {
        if (!utf8(v->p, v->n)) return false;
        o += '"';
        for (size_t i = 0; i < v->n; ++i) {
            unsigned char c = (unsigned char)v->p[i]; const char* es = "\"\\\b\f\n\r\t"; const char* at = c ? std::strchr(es, c) : nullptr;
            if (at) { o += '\\'; o += "\"\\bfnrt"[at - es]; }
            else if (c < 32) { char b[8]; std::snprintf(b, 8, "\\u%04X", c); o += b; }
            else o += char(c);
        }
        o += '"'; return true;
    }
    case Arr: case Obj: {
        bool obj = v->k == Obj; o += obj ? '{' : '[';
        for (size_t i = 0; i < v->c.size(); ++i) {
            if (!obj || i % 2 == 0) { if (i) o += ','; line(depth + 1); }
            if (!write(v->c[i], pretty, depth + 1, o)) return false;
            if (obj && i % 2 == 0) o += pretty ? ": " : ":";
        }
        if (!v->c.empty()) line(depth);
        o += obj ? '}' : ']'; return true;
    }
    }
    return false;
}
}

struct yyjson_val : yystub::Node<yyjson_val> {};
struct yyjson_mut_val : yystub::Node<yyjson_mut_val> {};
struct yyjson_doc { std::deque<yyjson_val> vals; yyjson_val* root = nullptr; };
struct yyjson_mut_doc { std::deque<yyjson_mut_val> vals; yyjson_mut_val* root = nullptr; };

namespace yystub {
struct Parser {
    const char* s; size_t n; yyjson_doc* d; size_t i = 0;
    yyjson_val* make(Kind k) { d->vals.emplace_back(); auto v = &d->vals.back(); v->k = k; return v; }
    void ws() { while (i < n && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) ++i; }
    bool lit(const char* t) { size_t m = std::strlen(t); if (n - i < m || std::memcmp(s + i, t, m)) return false; i += m; return true; }
    bool hex4(uint32_t& c) {
        c = 0; if (n - i < 4) return false;
        for (int j = 0; j < 4; ++j) { char h = s[i++]; int x = h >= '0' && h <= '9' ? h - '0' : h >= 'a' && h <= 'f' ? h - 'a' + 10 : h >= 'A' && h <= 'F' ? h - 'A' + 10 : -1; if (x < 0) return false; c = c * 16 + uint32_t(x); }
        return true;
    }
    yyjson_val* text() {
        if (i >= n || s[i] != '"') return nullptr;
        ++i; std::string o;
        for (;;) {
            if (i >= n) return nullptr;
            unsigned char c = (unsigned char)s[i++];
            if (c == '"') break;
            if (c < 32) return nullptr;
            if (c != '\\') { o += char(c); continue; }
            if (i >= n) return nullptr;
            char e = s[i++];
            const char* from = "\"\\/bfnrt"; const char* at = e ? std::strchr(from, e) : nullptr;
            if (at) { o += "\"\\/\b\f\n\r\t"[at - from]; continue; }
            if (e != 'u') return nullptr;
            uint32_t a, b; if (!hex4(a)) return nullptr;
            if (a >= 0xDC00 && a < 0xE000) return nullptr;
            if (a >= 0xD800 && a < 0xDC00) { if (!lit("\\u") || !hex4(b) || b < 0xDC00 || b >= 0xE000) return nullptr; a = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00); }
            put_utf8(o, a);
        }
        if (!utf8(o.data(), o.size())) return nullptr;
        auto v = make(Str); v->own = std::move(o); v->p = v->own.c_str(); v->n = v->own.size(); return v;
    }
    yyjson_val* number() {
        size_t b = i; bool neg = false, real = false;
        auto dig = [&] { return i < n && s[i] >= '0' && s[i] <= '9'; };
        if (i < n && s[i] == '-') { neg = true; ++i; }
        if (!dig()) return nullptr;
        size_t d0 = i;
        if (s[i] == '0') ++i; else while (dig()) ++i;
        size_t d1 = i;
        if (dig()) return nullptr;
        if (i < n && s[i] == '.') { real = true; ++i; if (!dig()) return nullptr; while (dig()) ++i; }
        if (i < n && (s[i] == 'e' || s[i] == 'E')) { real = true; ++i; if (i < n && (s[i] == '+' || s[i] == '-')) ++i; if (!dig()) return nullptr; while (dig()) ++i; }
        if (!real) {
            uint64_t u = 0; auto e = std::from_chars(s + d0, s + d1, u);
            if (e.ec == std::errc() && (!neg || u <= (uint64_t(1) << 63))) { auto v = make(neg ? SInt : UInt); v->u = neg ? ~u + 1 : u; return v; }
        }
        double r = std::strtod(std::string(s + b, i - b).c_str(), nullptr);
        if (!std::isfinite(r)) return nullptr;
        auto v = make(Real); v->r = r; return v;
    }
    yyjson_val* leaf() {
        switch (i < n ? s[i] : 0) {
        case 'n': return lit("null") ? make(Null) : nullptr;
        case 't': { if (!lit("true")) return nullptr; auto v = make(Bool); v->u = 1; return v; }
        case 'f': return lit("false") ? make(Bool) : nullptr;
        case '"': return text();
        default: return number();
        }
    }
    yyjson_val* document() { // an explicit stack: depth is not limited
        std::vector<yyjson_val*> st; yyjson_val* root = nullptr;
        for (;;) {
            ws();
            yyjson_val* v = nullptr;
            if (!st.empty() && st.back()->k == Obj) {
                auto k = text(); if (!k) return nullptr;
                ws(); if (i >= n || s[i++] != ':') return nullptr;
                ws(); st.back()->c.push_back(k);
            }
            if (i < n && (s[i] == '[' || s[i] == '{')) {
                v = make(s[i] == '[' ? Arr : Obj); ++i;
                if (st.empty()) root = v; else st.back()->c.push_back(v);
                ws();
                if (i < n && s[i] == (v->k == Arr ? ']' : '}')) ++i; else { st.push_back(v); continue; }
            } else {
                v = leaf(); if (!v) return nullptr;
                if (st.empty()) root = v; else st.back()->c.push_back(v);
            }
            for (;;) {
                ws();
                if (st.empty()) return i == n ? root : nullptr;
                if (i >= n) return nullptr;
                char c = s[i++];
                if (c == ',') break;
                if (c != (st.back()->k == Arr ? ']' : '}')) return nullptr;
                st.pop_back();
            }
        }
    }
};
template <class N> char* give(const N* v, yyjson_write_flag f, size_t* len) {
    std::string o; if (len) *len = 0;
    if (!v || !write(v, f & YYJSON_WRITE_PRETTY, 0, o)) return nullptr;
    char* r = static_cast<char*>(std::malloc(o.size() + 1)); if (!r) return nullptr;
    std::memcpy(r, o.c_str(), o.size() + 1); if (len) *len = o.size(); return r;
}
}

inline yyjson_doc* yyjson_read(const char* s, size_t n, yyjson_read_flag) {
    if (!s || !n) return nullptr;
    auto d = new yyjson_doc; yystub::Parser p{s, n, d};
    d->root = p.document(); if (!d->root) { delete d; return nullptr; }
    return d;
}
inline void yyjson_doc_free(yyjson_doc* d) { delete d; }
inline yyjson_val* yyjson_doc_get_root(yyjson_doc* d) { return d ? d->root : nullptr; }
inline bool yyjson_is_null(yyjson_val* v) { return v && v->k == yystub::Null; }
inline bool yyjson_is_bool(yyjson_val* v) { return v && v->k == yystub::Bool; }
inline bool yyjson_is_uint(yyjson_val* v) { return v && v->k == yystub::UInt; }
inline bool yyjson_is_sint(yyjson_val* v) { return v && v->k == yystub::SInt; }
inline bool yyjson_is_int(yyjson_val* v) { return yyjson_is_uint(v) || yyjson_is_sint(v); }
inline bool yyjson_is_real(yyjson_val* v) { return v && v->k == yystub::Real; }
inline bool yyjson_is_num(yyjson_val* v) { return yyjson_is_int(v) || yyjson_is_real(v); }
inline bool yyjson_is_str(yyjson_val* v) { return v && v->k == yystub::Str; }
inline bool yyjson_is_arr(yyjson_val* v) { return v && v->k == yystub::Arr; }
inline bool yyjson_is_obj(yyjson_val* v) { return v && v->k == yystub::Obj; }
inline bool yyjson_get_bool(yyjson_val* v) { return yyjson_is_bool(v) && v->u; }
inline uint64_t yyjson_get_uint(yyjson_val* v) { return yyjson_is_int(v) ? v->u : 0; }
inline int64_t yyjson_get_sint(yyjson_val* v) { return yyjson_is_int(v) ? int64_t(v->u) : 0; }
inline double yyjson_get_real(yyjson_val* v) { return yyjson_is_real(v) ? v->r : 0; }
inline double yyjson_get_num(yyjson_val* v) { return yyjson_is_real(v) ? v->r : yyjson_is_uint(v) ? double(v->u) : yyjson_is_sint(v) ? double(int64_t(v->u)) : 0; }
inline const char* yyjson_get_str(yyjson_val* v) { return yyjson_is_str(v) ? v->p : nullptr; }
inline size_t yyjson_get_len(yyjson_val* v) { return yyjson_is_str(v) ? v->n : 0; }
inline size_t yyjson_arr_size(yyjson_val* v) { return yyjson_is_arr(v) ? v->c.size() : 0; }
inline yyjson_val* yyjson_arr_get(yyjson_val* v, size_t i) { return yyjson_is_arr(v) && i < v->c.size() ? v->c[i] : nullptr; }
inline size_t yyjson_obj_size(yyjson_val* v) { return yyjson_is_obj(v) ? v->c.size() / 2 : 0; }
inline yyjson_val* yyjson_obj_getn(yyjson_val* v, const char* k, size_t n) {
    if (!yyjson_is_obj(v) || !k) return nullptr;
    for (size_t i = 0; i < v->c.size(); i += 2) if (v->c[i]->n == n && !std::memcmp(v->c[i]->p, k, n)) return v->c[i + 1];
    return nullptr;
}
inline yyjson_val* yyjson_obj_get(yyjson_val* v, const char* k) { return k ? yyjson_obj_getn(v, k, std::strlen(k)) : nullptr; }
struct yyjson_obj_iter { yyjson_val* obj = nullptr; size_t at = 0; };
inline bool yyjson_obj_iter_init(yyjson_val* v, yyjson_obj_iter* it) { if (!it) return false; *it = yyjson_obj_iter{}; if (!yyjson_is_obj(v)) return false; it->obj = v; return true; }
inline yyjson_val* yyjson_obj_iter_next(yyjson_obj_iter* it) { if (!it || !it->obj || it->at >= it->obj->c.size()) return nullptr; auto k = it->obj->c[it->at]; it->at += 2; return k; }
inline char* yyjson_val_write(yyjson_val* v, yyjson_write_flag f, size_t* len) { return yystub::give(v, f, len); }

inline yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc*) { return new yyjson_mut_doc; }
inline void yyjson_mut_doc_free(yyjson_mut_doc* d) { delete d; }
inline void yyjson_mut_doc_set_root(yyjson_mut_doc* d, yyjson_mut_val* v) { if (d) d->root = v; }
inline char* yyjson_mut_write(yyjson_mut_doc* d, yyjson_write_flag f, size_t* len) { return yystub::give<yyjson_mut_val>(d ? d->root : nullptr, f, len); }
namespace yystub { inline yyjson_mut_val* make(yyjson_mut_doc* d, Kind k) { if (!d) return nullptr; d->vals.emplace_back(); d->vals.back().k = k; return &d->vals.back(); } }
inline yyjson_mut_val* yyjson_mut_null(yyjson_mut_doc* d) { return yystub::make(d, yystub::Null); }
inline yyjson_mut_val* yyjson_mut_bool(yyjson_mut_doc* d, bool b) { auto v = yystub::make(d, yystub::Bool); if (v) v->u = b; return v; }
inline yyjson_mut_val* yyjson_mut_uint(yyjson_mut_doc* d, uint64_t n) { auto v = yystub::make(d, yystub::UInt); if (v) v->u = n; return v; }
inline yyjson_mut_val* yyjson_mut_sint(yyjson_mut_doc* d, int64_t n) { auto v = yystub::make(d, yystub::SInt); if (v) v->u = uint64_t(n); return v; }
inline yyjson_mut_val* yyjson_mut_real(yyjson_mut_doc* d, double r) { auto v = yystub::make(d, yystub::Real); if (v) v->r = r; return v; }
inline yyjson_mut_val* yyjson_mut_strn(yyjson_mut_doc* d, const char* s, size_t n) { auto v = s ? yystub::make(d, yystub::Str) : nullptr; if (v) { v->p = s; v->n = n; } return v; }
inline yyjson_mut_val* yyjson_mut_str(yyjson_mut_doc* d, const char* s) { return s ? yyjson_mut_strn(d, s, std::strlen(s)) : nullptr; }
inline yyjson_mut_val* yyjson_mut_strncpy(yyjson_mut_doc* d, const char* s, size_t n) { auto v = s ? yystub::make(d, yystub::Str) : nullptr; if (v) { v->own.assign(s, n); v->p = v->own.c_str(); v->n = n; } return v; }
inline yyjson_mut_val* yyjson_mut_strcpy(yyjson_mut_doc* d, const char* s) { return s ? yyjson_mut_strncpy(d, s, std::strlen(s)) : nullptr; }
inline yyjson_mut_val* yyjson_mut_arr(yyjson_mut_doc* d) { return yystub::make(d, yystub::Arr); }
inline yyjson_mut_val* yyjson_mut_obj(yyjson_mut_doc* d) { return yystub::make(d, yystub::Obj); }
inline bool yyjson_mut_arr_add_val(yyjson_mut_val* a, yyjson_mut_val* v) { if (!a || !v || a->k != yystub::Arr) return false; a->c.push_back(v); return true; }
inline bool yyjson_mut_arr_append(yyjson_mut_val* a, yyjson_mut_val* v) { return yyjson_mut_arr_add_val(a, v); }
inline bool yyjson_mut_obj_add(yyjson_mut_val* o, yyjson_mut_val* k, yyjson_mut_val* v) { if (!o || !k || !v || o->k != yystub::Obj || k->k != yystub::Str) return false; o->c.push_back(k); o->c.push_back(v); return true; }
