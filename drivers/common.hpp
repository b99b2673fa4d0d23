// Shared by all conformance drivers: a deterministic random source, the drivers' own value
// model (independent of zerialize), JSON trace output, and a runner that survives crashes.
#pragma once
#include <algorithm>
#include <array>
#include <bit>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>
#include <vector>

#include <zerialize/zerialize.hpp>
#include <zerialize/errors.hpp>

namespace drv {

// ------------------------------------------------------------------ random source
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed, uint64_t stream = 0) : s(seed * 0x9E3779B97F4A7C15ull + stream * 0xBF58476D1CE4E5B9ull + 12345) { next(); next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    size_t below(size_t n) { return n ? size_t(next() % n) : 0; }
    bool chance(int pct) { return int(below(100)) < pct; }
    template <class C> const auto& pick(const C& c) { return c[below(std::size(c))]; }
};

// ------------------------------------------------------------------ value model
struct V {
    char t = 'n'; // n b i u d s x a m ; R = array 0..n-1, Q = map "k<i>" -> i
    bool b = false;
    int64_t i = 0;
    uint64_t u = 0;
    uint64_t d = 0; // bits of a double
    std::string s;
    std::vector<V> a;
    std::vector<std::pair<std::string, V>> m;
    static V null() { return V{}; }
    static V boolean(bool v) { V r; r.t = 'b'; r.b = v; return r; }
    static V sint(int64_t v) { V r; r.t = 'i'; r.i = v; return r; }
    static V uint(uint64_t v) { V r; r.t = 'u'; r.u = v; return r; }
    static V dbl(double v) { V r; r.t = 'd'; std::memcpy(&r.d, &v, 8); return r; }
    static V bits(uint64_t v) { V r; r.t = 'd'; r.d = v; return r; }
    static V str(std::string v) { V r; r.t = 's'; r.s = std::move(v); return r; }
    static V blob(std::string v) { V r; r.t = 'x'; r.s = std::move(v); return r; }
    static V arr(std::vector<V> v) { V r; r.t = 'a'; r.a = std::move(v); return r; }
    static V map(std::vector<std::pair<std::string, V>> v) { V r; r.t = 'm'; r.m = std::move(v); return r; }
    double d_() const { double x; std::memcpy(&x, &d, 8); return x; }
};

inline std::span<const std::byte> as_bytes(const std::string& s) {
    return {reinterpret_cast<const std::byte*>(s.data()), s.size()};
}

// Writers get strings, keys and blobs in allocations of exactly that size which are gone (and
// overwritten) when the call returns.
inline thread_local size_t lent_count = 0; // empty ones come with and without an address
template <class F> void lent(std::string_view s, F&& f) {
    if (s.empty() && lent_count++ % 2) { f(static_cast<const char*>(nullptr), size_t(0)); return; }
    char* p = static_cast<char*>(::operator new(s.size()));
    if (!s.empty()) std::memcpy(p, s.data(), s.size());
    struct G { char* p; size_t n; ~G() { std::memset(p, 0xA5, n); ::operator delete(p); } } guard{p, s.size()};
    f(p, s.size());
}
// Drive any Writer with a value.
template <class W> void emit(const V& v, W& w) {
    switch (v.t) {
    case 'n': w.null(); break;
    case 'b': w.boolean(v.b); break;
    case 'i': w.int64(v.i); break;
    case 'u': w.uint64(v.u); break;
    case 'd': w.double_(v.d_()); break;
    case 's': lent(v.s, [&](const char* p, size_t n) { w.string(std::string_view(p, n)); }); break;
    case 'x': lent(v.s, [&](const char* p, size_t n) { w.binary(std::span<const std::byte>(reinterpret_cast<const std::byte*>(p), n)); }); break;
    case 'a': w.begin_array(v.a.size()); for (auto& c : v.a) emit(c, w); w.end_array(); break;
    case 'm': w.begin_map(v.m.size()); for (auto& [k, c] : v.m) { lent(k, [&](const char* p, size_t n) { w.key(std::string_view(p, n)); }); emit(c, w); } w.end_map(); break;
    case 'R': w.begin_array(v.u); for (uint64_t i = 0; i < v.u; ++i) w.uint64(i); w.end_array(); break;
    case 'Q': w.begin_map(v.u); for (uint64_t i = 0; i < v.u; ++i) { w.key("k" + std::to_string(i)); w.uint64(i); } w.end_map(); break;
    }
}

// ------------------------------------------------------------------ JSON
inline uint64_t fnv(std::string_view s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
}
constexpr size_t ByteLimit = 48;
inline void j_hash(std::string& o, uint64_t h) { // three limbs below 2^22
    o += std::to_string(h & 0x3fffff); o += ','; o += std::to_string((h >> 22) & 0x3fffff); o += ','; o += std::to_string(h >> 44);
}
// Byte strings: the list of bytes, or [-9, length, hash limbs] when long (and full is false).
inline void j_bytes(std::string& o, std::string_view s, bool full = false) {
    o += '[';
    if (full || s.size() <= ByteLimit) {
        for (size_t i = 0; i < s.size(); ++i) { if (i) o += ','; o += std::to_string((unsigned char)s[i]); }
    } else {
        o += "-9,"; o += std::to_string(s.size()); o += ','; j_hash(o, fnv(s));
    }
    o += ']';
}
inline void j_le(std::string& o, uint64_t v, int n = 8) {
    o += '[';
    for (int i = 0; i < n; ++i) { if (i) o += ','; o += std::to_string((v >> (8 * i)) & 255); }
    o += ']';
}
inline std::string j_str(std::string_view s) {
    std::string o = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c < 32 || c > 126) o += '?'; else o += char(c); }
    return o + "\"";
}

// Canonical text of a logical value (integers by numeric value), for hashing large containers.
inline void canon_int(std::string& o, bool neg, uint64_t bits) { o += neg ? "-" : "+"; o += std::to_string(bits); }
inline void canon_bytes(std::string& o, char tag, std::string_view s) { o += tag; o += std::to_string(s.size()); o += ':'; o += s; }
// In huge containers only some positions are read one by one (lookups are linear).
inline bool sampled(size_t n, size_t i) { return n <= 3000 || i < 40 || i + 40 >= n || i % (n / 300) == 0; }
inline bool sampled_key(size_t n, std::string_view k) { return n <= 3000 || fnv(k) % (n / 300) == 0; }
inline void canon(std::string& o, const V& v) {
    switch (v.t) {
    case 'n': o += 'n'; break;
    case 'b': o += v.b ? "T" : "F"; break;
    case 'i': canon_int(o, v.i < 0, uint64_t(v.i)); break;
    case 'u': canon_int(o, false, v.u); break;
    case 'd': o += 'd'; o += std::to_string(v.d); break;
    case 's': canon_bytes(o, 's', v.s); break;
    case 'x': canon_bytes(o, 'x', v.s); break;
    case 'a': o += '['; o += std::to_string(v.a.size()); for (size_t i = 0; i < v.a.size(); ++i) if (sampled(v.a.size(), i)) { canon(o, v.a[i]); o += ','; } o += ']'; break;
    case 'm': {
        std::vector<std::string> es;
        for (auto& [k, c] : v.m) { std::string e; canon_bytes(e, 'k', k); if (sampled_key(v.m.size(), k)) canon(e, c); es.push_back(std::move(e)); }
        std::sort(es.begin(), es.end());
        o += '{'; for (auto& e : es) { o += e; o += ','; } o += '}';
    }
    }
}
inline int depth_of(const V& v) { int d = 0; for (auto& c : v.a) d = std::max(d, depth_of(c)); for (auto& c : v.m) d = std::max(d, depth_of(c.second)); return d + 1; }
inline size_t ContainerLimit = 600; // larger containers are compared by digest; 0 for values nested too deep to list

// The value as the specification sees it.
inline void j_value(std::string& o, const V& v, bool full = false) {
    switch (v.t) {
    case 'n': o += "[\"n\"]"; break;
    case 'b': o += v.b ? "[\"b\",true]" : "[\"b\",false]"; break;
    case 'i': o += "[\"i\","; j_le(o, uint64_t(v.i)); o += ']'; break;
    case 'u': o += "[\"u\","; j_le(o, v.u); o += ']'; break;
    case 'd': o += "[\"d\","; j_le(o, v.d); o += ']'; break;
    case 's': o += "[\"s\","; j_bytes(o, v.s, full); o += ']'; break;
    case 'x': o += "[\"x\","; j_bytes(o, v.s, full); o += ']'; break;
    case 'R': o += "[\"R\"," + std::to_string(v.u) + "]"; break;
    case 'Q': o += "[\"Q\"," + std::to_string(v.u) + "]"; break;
    case 'a':
        if (!full && v.a.size() > ContainerLimit) {
            std::string c; canon(c, v);
            o += "[\"A\",["; o += std::to_string(v.a.size()); o += ','; j_hash(o, fnv(c)); o += "]]";
        } else {
            o += "[\"a\",["; for (size_t i = 0; i < v.a.size(); ++i) { if (i) o += ','; j_value(o, v.a[i], full); } o += "]]";
        }
        break;
    case 'm':
        if (!full && v.m.size() > ContainerLimit) {
            std::string c; canon(c, v);
            o += "[\"M\",["; o += std::to_string(v.m.size()); o += ','; j_hash(o, fnv(c)); o += "]]";
        } else {
            o += "[\"m\",["; for (size_t i = 0; i < v.m.size(); ++i) { if (i) o += ','; o += '['; j_bytes(o, v.m[i].first, full); o += ','; j_value(o, v.m[i].second, full); o += ']'; } o += "]]";
        }
        break;
    }
}

// What limits a protocol's ability to represent the value.
inline void key_facts(const V& v, size_t& maxkey, bool& nul) {
    for (auto& c : v.a) key_facts(c, maxkey, nul);
    for (auto& [k, c] : v.m) {
        maxkey = std::max(maxkey, k.size());
        nul |= k.find('\0') != std::string::npos;
        key_facts(c, maxkey, nul);
    }
}
inline std::string j_facts(const V& v) {
    size_t mk = 0; bool nul = false; key_facts(v, mk, nul);
    return "\"mk\":" + std::to_string(mk) + ",\"nk\":" + (nul ? "true" : "false");
}

// ------------------------------------------------------------------ outcomes
// Run f (which appends its result); a DeserializationError gives D, anything else X.
template <class F> void outcome(std::string& o, const char* D, const char* X, F&& f) {
    const size_t mark = o.size();
    try { f(); }
    catch (const zerialize::DeserializationError&) { o.resize(mark); o += D; }
    catch (const std::exception&) { o.resize(mark); o += X; }
    catch (...) { o.resize(mark); o += X; }
}
template <class F> void code(std::string& o, F&& f) { outcome(o, "[-1]", "[-2]", std::forward<F>(f)); }

// ------------------------------------------------------------------ observing a reader
// node = [predicates, value]; value as in j_value except
//   integers: ["I", asInt64 outcome, asUInt64 outcome], errors ["E", which].
template <class R> void j_preds(std::string& o, const R& r) {
    o += '[';
    bool first = true;
    auto p = [&](bool b, const char* n) { if (b) { if (!first) o += ','; first = false; o += '"'; o += n; o += '"'; } };
    p(r.isNull(), "n"); p(r.isBool(), "b"); p(r.isInt(), "i"); p(r.isUInt(), "u"); p(r.isFloat(), "d");
    p(r.isString(), "s"); p(r.isBlob(), "x"); p(r.isArray(), "a"); p(r.isMap(), "m");
    o += ']';
}
inline std::string blob_to_string(const auto& b) { return std::string(reinterpret_cast<const char*>(std::data(b)), std::size(b)); }

// canonical text of what the reader shows (must follow canon()).
template <class R> void canon_read(std::string& o, const R& r) {
    if (r.isNull()) { o += 'n'; return; }
    if (r.isBool()) { o += r.asBool() ? "T" : "F"; return; }
    if (r.isInt()) { auto v = r.asInt64(); canon_int(o, v < 0, uint64_t(v)); return; }
    if (r.isUInt()) { canon_int(o, false, r.asUInt64()); return; }
    if (r.isFloat()) { double x = r.asDouble(); uint64_t b; std::memcpy(&b, &x, 8); o += 'd'; o += std::to_string(b); return; }
    if (r.isString()) { canon_bytes(o, 's', r.asStringView()); return; }
    if (r.isBlob()) { auto b = r.asBlob(); canon_bytes(o, 'x', blob_to_string(b)); return; }
    if (r.isArray()) { o += '['; size_t n = r.arraySize(); o += std::to_string(n); for (size_t i = 0; i < n; ++i) if (sampled(n, i)) { canon_read(o, r[i]); o += ','; } o += ']'; return; }
    if (r.isMap()) {
        std::vector<std::string> es; size_t n = 0;
        { auto ks = r.mapKeys(); for (std::string_view k : ks) { (void)k; ++n; } }
        { auto ks = r.mapKeys(); for (std::string_view k : ks) { std::string e; canon_bytes(e, 'k', k); if (sampled_key(n, k)) canon_read(e, r[k]); es.push_back(std::move(e)); } }
        std::sort(es.begin(), es.end());
        o += '{'; for (auto& e : es) { o += e; o += ','; } o += '}'; return;
    }
    o += '?';
}

template <class R> void j_node(std::string& o, const R& r, bool full = false) {
    outcome(o, "[[],[\"E\",\"D\"]]", "[[],[\"E\",\"X\"]]", [&] {
        o += '['; j_preds(o, r); o += ',';
        if (r.isNull()) o += "[\"n\"]";
        else if (r.isBool()) o += r.asBool() ? "[\"b\",true]" : "[\"b\",false]";
        else if (r.isInt() || r.isUInt()) {
            o += "[\"I\",";
            code(o, [&] { j_le(o, uint64_t(r.asInt64())); });
            o += ',';
            code(o, [&] { j_le(o, r.asUInt64()); });
            o += ']';
        }
        else if (r.isFloat()) { double x = r.asDouble(); uint64_t b; std::memcpy(&b, &x, 8); o += "[\"d\","; j_le(o, b); o += ']'; }
        else if (r.isString()) {
            std::string_view sv = r.asStringView(); std::string s = r.asString();
            if (s != sv) o += "[\"E\",\"asString differs from asStringView\"]";
            else { o += "[\"s\","; j_bytes(o, s, full); o += ']'; }
        }
        else if (r.isBlob()) { auto b = r.asBlob(); o += "[\"x\","; j_bytes(o, blob_to_string(b), full); o += ']'; }
        else if (r.isArray()) {
            size_t n = r.arraySize();
            if (!full && n > ContainerLimit) {
                std::string c; canon_read(c, r);
                o += "[\"A\",["; o += std::to_string(n); o += ','; j_hash(o, fnv(c)); o += "]]";
            } else {
                o += "[\"a\",["; for (size_t i = 0; i < n; ++i) { if (i) o += ','; j_node(o, r[i], full); } o += "]]";
            }
        }
        else if (r.isMap()) {
            std::vector<std::string> ks; { auto kv = r.mapKeys(); for (std::string_view k : kv) ks.emplace_back(k); }
            if (!full && ks.size() > ContainerLimit) {
                std::string c; canon_read(c, r);
                o += "[\"M\",["; o += std::to_string(ks.size()); o += ','; j_hash(o, fnv(c)); o += "]]";
            } else {
                o += "[\"m\",["; for (size_t i = 0; i < ks.size(); ++i) { if (i) o += ','; o += '['; j_bytes(o, ks[i], full); o += ','; j_node(o, r[std::string_view(ks[i])], full); o += ']'; } o += "]]";
            }
        }
        else o += "[\"E\",\"no kind\"]";
        o += ']';
    });
}

// ------------------------------------------------------------------ exact-size heap copies
// Readers get bytes in an allocation of exactly that size, so that AddressSanitizer sees any
// access outside. `mis` shifts the start from a 16-byte boundary.
struct Heap {
    uint8_t* base = nullptr; uint8_t* p = nullptr; size_t n = 0;
    Heap(std::string_view s, size_t mis = 0) : n(s.size()) {
        base = static_cast<uint8_t*>(::operator new(n + mis, std::align_val_t(16)));
        p = base + mis; if (n) std::memcpy(p, s.data(), n);
    }
    Heap(std::span<const uint8_t> s, size_t mis = 0) : Heap(std::string_view(reinterpret_cast<const char*>(s.data()), s.size()), mis) {}
    Heap(const Heap&) = delete;
    ~Heap() { ::operator delete(base, std::align_val_t(16)); }
    std::span<const uint8_t> span() const { return {p, n}; }
};
// A reader over the caller's bytes, through each of the constructors that make one.
template <class D> D open_view(const Heap& h, size_t which = 0) {
    const uint8_t* p = h.p; const std::byte* q = reinterpret_cast<const std::byte*>(h.p);
    if constexpr (requires { D(p, h.n); }) { if (which % 3 == 1) return D(p, h.n); }
    if constexpr (requires { D(q, h.n); }) { if (which % 3 == 2) return D(q, h.n); }
    return D(h.span());
}

// ------------------------------------------------------------------ generator
inline const std::vector<size_t>& small_lens() { static std::vector<size_t> v{0, 1, 2, 3, 5, 7, 8, 11, 12, 13, 14, 15, 16, 17, 23, 24, 25, 31, 32, 33}; return v; }
inline const std::vector<size_t>& mid_lens() { static std::vector<size_t> v{47, 48, 49, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 1000}; return v; }
inline const std::vector<size_t>& big_lens() { static std::vector<size_t> v{4095, 4096, 4097, 65534, 65535, 65536, 65537, 70000}; return v; }

inline std::vector<V> boundary_ints() {
    std::vector<V> out;
    std::set<int64_t> si; std::set<uint64_t> ui;
    for (int n : {5, 7, 8, 15, 16, 31, 32, 63}) {
        for (int64_t dlt = -2; dlt <= 2; ++dlt) {
            si.insert(int64_t((uint64_t(1) << n) + uint64_t(dlt)));
            si.insert(int64_t(-(uint64_t(1) << n) + uint64_t(dlt)));
            ui.insert((uint64_t(1) << n) + uint64_t(dlt));
        }
    }
    for (int64_t x : {-3, -2, -1, 0, 1, 2, 3, 37, 42, -42, 300, -300, 1234567890}) si.insert(x);
    for (uint64_t x : {uint64_t(0), uint64_t(1), uint64_t(2), uint64_t(37), ~uint64_t(0), ~uint64_t(0) - 1, uint64_t(0x8070605040302010ull), uint64_t(0x0102030405060708ull)}) ui.insert(x);
    si.insert(INT64_MIN); si.insert(INT64_MAX); si.insert(INT64_MIN + 1); si.insert(0x0102030405060708ll); si.insert(-0x0102030405060708ll);
    for (auto x : si) out.push_back(V::sint(x));
    for (auto x : ui) out.push_back(V::uint(x));
    return out;
}
inline std::vector<V> boundary_doubles() {
    std::vector<uint64_t> b{0, 0x8000000000000000ull, 0x3FF0000000000000ull, 0xBFF0000000000000ull, 0x7FF0000000000000ull, 0xFFF0000000000000ull,
        0x7FF8000000000000ull, 0xFFF8000000000001ull, 0x7FF0000000000001ull, 0x7FEFFFFFFFFFFFFFull, 0xFFEFFFFFFFFFFFFFull, 1, 0x000FFFFFFFFFFFFFull, 0x0010000000000000ull,
        0x3FB999999999999Aull, 0x400921FB54442D18ull, 0x40091EB851EB851Full, 0x47EFFFFFE0000000ull, 0x47EFFFFFE0000001ull, 0x47EFFFFFF0000000ull, 0x47F0000000000000ull,
        0x3810000000000000ull, 0x380FFFFFE0000000ull, 0x36A0000000000000ull, 0x3690000000000000ull, 0x3690000000000001ull, 0x36B8000000000000ull,
        0x3FF0000010000000ull, 0x3FF0000030000000ull, 0x3FF0000010000001ull, 0x3FF000000FFFFFFFull, 0x3FFFFFFFF0000000ull, 0x4330000000000000ull, 0x4340000000000001ull, 0x4059000000000000ull, 0xC059000000000000ull,
        0x41E0000000000000ull, 0x41DFFFFFFFC00000ull, 0x3FE0000000000000ull, 0x3FD5555555555555ull, 0x0123456789ABCDEFull, 0xFEDCBA9876543210ull};
    std::vector<V> out; for (auto x : b) out.push_back(V::bits(x)); return out;
}
inline std::string gen_bytes(Rng& g, size_t n) {
    std::string s(n, 0);
    switch (g.below(4)) {
    case 0: for (auto& c : s) c = char('a' + g.below(26)); break;
    case 1: for (auto& c : s) c = char(g.below(256)); break;
    case 2: for (auto& c : s) c = char(g.chance(50) ? 0xff : 0x00); break;
    default: { static const char* u = "\xC3\xA9\xE6\x97\xA5\xF0\x9F\x98\x80-"; for (size_t i = 0; i < n; ++i) s[i] = u[i % 10]; }
    }
    return s;
}
struct GenOpt { int maxdepth = 3; size_t maxfan = 6; int midpct = 10; int bigpct = 0; bool nulkeys = true; };
inline size_t gen_len(Rng& g, const GenOpt& o) {
    if (g.chance(o.bigpct)) return g.pick(big_lens());
    if (g.chance(o.midpct)) return g.pick(mid_lens());
    return g.chance(70) ? g.pick(small_lens()) : g.below(40);
}
// Strings, blobs and keys of the value being made, to be used again in other roles.
inline thread_local std::vector<std::string> gen_words;
inline std::string gen_word(Rng& g, const GenOpt& o) {
    if (!gen_words.empty() && g.chance(15)) return g.pick(gen_words);
    std::string s = gen_bytes(g, gen_len(g, o)); if (s.size() < 300 && gen_words.size() < 30) gen_words.push_back(s); return s;
}
inline V gen_scalar(Rng& g, const GenOpt& o) {
    static const auto bi = boundary_ints(); static const auto bd = boundary_doubles();
    switch (g.below(10)) {
    case 9: return V::dbl(double(std::bit_cast<float>(uint32_t(g.next())))); // exact in single precision
    case 0: return V::null();
    case 1: return V::boolean(g.chance(50));
    case 2: return g.pick(bi);
    case 3: return V::sint(int64_t(g.next()) >> g.below(64));
    case 4: return V::uint(g.next() >> g.below(64));
    case 5: return g.pick(bd);
    case 6: return V::bits(g.next());
    case 7: return V::str(gen_word(g, o));
    default: return V::blob(gen_word(g, o));
    }
}
inline std::string gen_key(Rng& g, const GenOpt& o) {
    std::string k;
    if (!gen_words.empty() && g.chance(12)) k = g.pick(gen_words);
    else if (g.chance(60)) { k = gen_bytes(g, g.below(4)); }
    else k = gen_bytes(g, gen_len(g, o));
    if (!o.nulkeys || k.size() > ByteLimit || !g.chance(8)) for (auto& c : k) if (!c) c = 'z';
    if (k.size() < 300 && gen_words.size() < 30 && g.chance(60)) gen_words.push_back(k);
    return k;
}
inline V gen_value(Rng& g, const GenOpt& o, int depth = 0) {
    if (depth == 0) gen_words.clear();
    if (depth >= o.maxdepth || g.chance(depth == 0 ? 25 : 50)) return gen_scalar(g, o);
    size_t n = g.below(o.maxfan + 1);
    if (g.chance(8)) n = 14 + g.below(4);
    if (g.chance(2)) { depth = o.maxdepth; n = 18 + g.below(120); }
    if (g.chance(50)) {
        V v; v.t = 'a';
        for (size_t i = 0; i < n; ++i) v.a.push_back(gen_value(g, o, depth + 1));
        return v;
    }
    V v; v.t = 'm'; std::set<std::string> seen;
    for (size_t i = 0; i < n; ++i) { auto k = gen_key(g, o); if (!seen.insert(k).second) continue; v.m.emplace_back(k, gen_value(g, o, depth + 1)); }
    return v;
}

// ------------------------------------------------------------------ runner
// f(i) returns the trace line of case i. Cases run in forked children, several lanes in
// parallel; a crash or a hang becomes a line {"id":i,"crash":...} and the rest still run.
inline int run_cases(int argc, char** argv, size_t n, const std::function<std::string(size_t)>& f) {
    const char* path = argv[argc - 1];
    const char* only = std::getenv("DRV_ONLY"); // comma separated ids
    int per_case = 30; if (const char* t = std::getenv("DRV_CASE_S")) per_case = std::atoi(t);
    std::vector<size_t> ids;
    if (only) { for (const char* p = only; *p;) { char* e; ids.push_back(std::strtoull(p, &e, 10)); p = *e ? e + 1 : e; } }
    else { ids.resize(n); for (size_t i = 0; i < n; ++i) ids[i] = i; }
    const size_t lanes = only ? 1 : 8;
    auto* cur = static_cast<volatile size_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    if (fd < 0) { perror("open"); return 3; }
    auto lane_main = [&](size_t lane) -> int {
        size_t start = lane; // index into ids
        std::string errp = std::string(path) + ".err" + std::to_string(lane);
        int crashes = 0;
        while (start < ids.size()) {
            cur[lane] = start;
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); return 3; }
            if (pid == 0) {
                int e = open(errp.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (e >= 0) dup2(e, 2);
                for (size_t i = start; i < ids.size(); i += lanes) {
                    cur[lane] = i; alarm(per_case); lent_count = ids[i] / 7;
                    std::string line = f(ids[i]);
                    line += '\n';
                    const char* p = line.data(); size_t left = line.size();
                    while (left) { ssize_t w = write(fd, p, left); if (w <= 0) _exit(3); p += w; left -= size_t(w); }
                }
                alarm(0);
                cur[lane] = size_t(-1);
                _exit(0);
            }
            int st = 0; waitpid(pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && cur[lane] == size_t(-1)) break;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
            std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "timeout" : "signal " + std::to_string(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st));
            if (FILE* ef = fopen(errp.c_str(), "r")) {
                char line[400];
                while (fgets(line, sizeof line, ef)) { if (strstr(line, "SUMMARY:") || strstr(line, "ERROR: AddressSanitizer") || strstr(line, "what():")) { why += " | "; why += line; while (!why.empty() && why.back() == '\n') why.pop_back(); } }
                fclose(ef);
            }
            std::string line = "{\"id\":" + std::to_string(ids[cur[lane]]) + ",\"crash\":" + j_str(why.substr(0, 600)) + "}\n";
            if (write(fd, line.data(), line.size()) < 0) return 3;
            start = cur[lane] + lanes;
            if (++crashes >= 6) {  // enough evidence: account for the rest of this lane
                for (size_t i = start; i < ids.size(); i += lanes) { std::string l2 = "{\"id\":" + std::to_string(ids[i]) + ",\"skipped\":true}\n"; if (write(fd, l2.data(), l2.size()) < 0) return 3; }
                break;
            }
        }
        unlink(errp.c_str());
        return 0;
    };
    std::vector<pid_t> ps;
    for (size_t lane = 0; lane < lanes; ++lane) {
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 3; }
        if (p == 0) _exit(lane_main(lane));
        ps.push_back(p);
    }
    int rc = 0;
    for (auto p : ps) { int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 3; }
    close(fd);
    return rc;
}

inline uint64_t seed() { const char* s = std::getenv("VERIF_SEED"); return s ? std::strtoull(s, nullptr, 10) : 1; }
inline bool thorough() { const char* s = std::getenv("VERIF_TIER"); return s && std::string_view(s) == "thorough"; }
inline size_t scale(size_t quick, size_t deep) {
    size_t n = thorough() ? deep : quick;
    if (const char* m = std::getenv("DRV_SCALE")) n = size_t(double(n) * atof(m)) + 1;
    return n;
}

} // namespace drv
