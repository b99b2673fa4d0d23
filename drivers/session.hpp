// A recorded reading session on one reader: a random walk over handles that performs the
// Reader operations and logs each outcome. The handle returned by an operation is only
// known to the specification by the order in which handles were opened.
#pragma once
#include "common.hpp"
#include <algorithm>
#include <iterator>
namespace drv {

inline void j_num(std::string& o, uint64_t n) { o += std::to_string(n >= (1u << 29) ? (1u << 29) : n); }
inline void j_ok_bytes(std::string& o, std::string_view s) {
    o += "[1"; for (unsigned char c : s) { o += ','; o += std::to_string(c); } o += ']';
}
template <class T> void j_ok_le(std::string& o, T v, int n) { uint64_t u = uint64_t(int64_t(v)); if constexpr (std::is_unsigned_v<T>) u = uint64_t(v); o += "[1"; for (int i = 0; i < n; ++i) { o += ','; o += std::to_string((u >> (8 * i)) & 255); } o += ']'; }

template <class Root> struct Session {
    using Sub = std::remove_cvref_t<decltype(std::declval<const Root&>()[size_t(0)])>;
    const Root& root;
    std::vector<Sub> subs;
    std::string o;
    bool first = true;
    size_t nops = 0;
    std::vector<std::string> seen_keys;
    explicit Session(const Root& r) : root(r) { subs.reserve(512); }
    void keep(Sub&& s) { if constexpr (std::is_copy_constructible_v<Sub>) subs.push_back(s); else subs.push_back(std::move(s)); }
    size_t handles() const { return subs.size() + 1; }
    template <class F> auto with(size_t h, F&& f) { if (h == 0) return f(root); return f(subs[h - 1]); }

    void begin(const char* op, size_t h) { o += first ? "[\"" : ",[\""; first = false; o += op; o += "\","; o += std::to_string(h + 1); o += ','; ++nops; }
    void end() { o += ']'; }
    template <class F> void op(const char* name, size_t h, F&& f) {
        begin(name, h);
        code(o, [&] { with(h, [&](auto& r) { f(r); }); });
        end();
    }
    void kinds(size_t h) {
        begin("kind", h); o += '[';
        auto one = [&](auto&& f, bool last = false) { code(o, [&] { bool b = with(h, f); o += b ? "[1,1]" : "[1,0]"; }); if (!last) o += ','; };
        one([](auto& r) { return r.isNull(); }); one([](auto& r) { return r.isBool(); }); one([](auto& r) { return r.isInt(); });
        one([](auto& r) { return r.isUInt(); }); one([](auto& r) { return r.isFloat(); }); one([](auto& r) { return r.isString(); });
        one([](auto& r) { return r.isBlob(); }); one([](auto& r) { return r.isArray(); }); one([](auto& r) { return r.isMap(); }, true);
        o += ']'; end();
    }
    void scalar(int which, size_t h) {
        switch (which) {
        case 0: op("i8", h, [&](auto& r) { j_ok_le(o, r.asInt8(), 8); }); break;
        case 1: op("i16", h, [&](auto& r) { j_ok_le(o, r.asInt16(), 8); }); break;
        case 2: op("i32", h, [&](auto& r) { j_ok_le(o, r.asInt32(), 8); }); break;
        case 3: op("i64", h, [&](auto& r) { j_ok_le(o, r.asInt64(), 8); }); break;
        case 4: op("u8", h, [&](auto& r) { j_ok_le(o, r.asUInt8(), 8); }); break;
        case 5: op("u16", h, [&](auto& r) { j_ok_le(o, r.asUInt16(), 8); }); break;
        case 6: op("u32", h, [&](auto& r) { j_ok_le(o, r.asUInt32(), 8); }); break;
        case 7: op("u64", h, [&](auto& r) { j_ok_le(o, r.asUInt64(), 8); }); break;
        case 8: op("f32", h, [&](auto& r) { float f = r.asFloat(); uint32_t b; std::memcpy(&b, &f, 4); j_ok_le(o, b, 4); }); break;
        case 9: op("f64", h, [&](auto& r) { double f = r.asDouble(); uint64_t b; std::memcpy(&b, &f, 8); j_ok_le(o, b, 8); }); break;
        case 10: op("bool", h, [&](auto& r) { o += r.asBool() ? "[1,1]" : "[1,0]"; }); break;
        case 11: op("str", h, [&](auto& r) { j_ok_bytes(o, r.asString()); }); break;
        case 12: op("view", h, [&](auto& r) { j_ok_bytes(o, r.asStringView()); }); break;
        case 13: op("blob", h, [&](auto& r) { auto b = r.asBlob(); j_ok_bytes(o, blob_to_string(b)); }); break;
        case 14: op("size", h, [&](auto& r) { size_t n = r.arraySize(); o += "[1,"; j_num(o, n); o += ']'; }); break;
        }
    }
    void keys(size_t h) {
        std::vector<std::string> ks; bool whole = false; // on failure: the keys seen before it
        op("keys", h, [&](auto& r) {
            auto kv = r.mapKeys(); for (std::string_view k : kv) { ks.emplace_back(k); if (ks.size() > 100000) break; }
            o += "[1"; for (auto& k : ks) { o += ','; j_bytes(o, k, true); seen_keys.push_back(k); } o += ']'; whole = true;
        });
        if (!whole) { begin("part", h); o += "[1"; for (auto& k : ks) { o += ','; j_bytes(o, k, true); } o += ']'; end(); }
        if (seen_keys.size() > 64) seen_keys.resize(64);
    }
    // Three positions in the keys of one map, moved and compared in every way a forward range offers.
    void cursors(Rng& g, size_t h) {
        using Steps = std::string;
        begin("iter", h); std::string body;
        code(body, [&] { with(h, [&](auto& r) {
            auto kv = r.mapKeys(); const auto& ckv = kv;
            std::vector<std::string> ks; for (std::string_view k : ckv) { ks.emplace_back(k); if (ks.size() > 200) { body += "[0],[]"; return; } }
            using It = std::remove_cvref_t<decltype(ckv.begin())>;
            std::vector<It> it(3, ckv.begin()); const It last = ckv.end(); std::vector<size_t> at(3, 0); const size_t n = ks.size();
            Steps st; bool f = true;
            auto step = [&](const char* op, size_t i, const std::string& arg, const std::string& res) { st += f ? "[\"" : ",[\""; f = false; st += op; st += "\"," + std::to_string(i + 1) + "," + arg + "," + (res.empty() ? "0" : res) + "]"; };
            auto key = [](std::string_view k) { std::string o = "["; j_bytes(o, std::string(k), true); return o + "]"; };
            for (int q = 0; q < 14; ++q) {
                const size_t i = g.below(3), j = g.below(3);
                switch (g.below(11)) {
                case 0: it[i] = ckv.begin(); at[i] = 0; step("begin", i, "0", ""); break;
                case 1: if (g.chance(40)) { it[i] = ckv.end(); at[i] = n; step("end", i, "0", ""); } break;
                case 2: { It c = it[j]; it[i] = c; at[i] = at[j]; step("copy", i, std::to_string(j + 1), ""); break; }
                case 3: case 4: if (at[i] < n) { It& ref = ++it[i]; ++at[i]; step("pre", i, "0", at[i] < n ? key(&ref == &it[i] ? std::string_view(*ref) : std::string_view("not itself")) : ""); } break;
                case 5: if (at[i] < n) { std::string k(*it[i]++); ++at[i]; step("post", i, "0", key(k)); } break;
                case 6: if (at[i] < n) step("deref", i, "0", key(*it[i])); break;
                case 7: step("eq", i, std::to_string(j + 1), std::to_string(it[i] == it[j])); step("ne", i, std::to_string(j + 1), std::to_string(it[i] != it[j])); break;
                case 8: step("left", i, "0", std::to_string(std::distance(it[i], last))); break;
                case 9: { size_t m = g.below(n - at[i] + 1); It c = std::next(it[i], std::ptrdiff_t(m)); it[i] = c; at[i] += m; step("next", i, std::to_string(m), ""); break; }
                default: { std::string k = n && g.chance(80) ? ks[g.below(n)] : std::string("no such key"); std::string_view want(k); it[i] = std::find(ckv.begin(), ckv.end(), want); size_t p = 0; while (p < n && ks[p] != k) ++p; at[i] = p; std::string a; j_bytes(a, k, true); step("find", i, a, ""); }
                }
            }
            body += "[1"; for (auto& k : ks) { body += ','; j_bytes(body, k, true); } body += "],[" + st + "]";
        }); });
        if (body == "[-1]" || body == "[-2]") body += ",[]";
        o += body; end();
    }
    void has(size_t h, const std::string& k) {
        begin("has", h); j_bytes(o, k, true); o += ',';
        code(o, [&] { bool b = with(h, [&](auto& r) { return r.contains(k); }); o += b ? "[1,1]" : "[1,0]"; });
        end();
    }
    bool get(size_t h, const std::string& k) {
        begin("get", h); j_bytes(o, k, true); o += ',';
        bool ok = false;
        code(o, [&] { Sub s = with(h, [&](auto& r) -> Sub { return r[std::string_view(k)]; }); keep(std::move(s)); ok = true; o += "[1]"; });
        end(); return ok;
    }
    bool idx(size_t h, size_t i) {
        begin("idx", h); j_num(o, i); o += ',';
        bool ok = false;
        code(o, [&] { Sub s = with(h, [&](auto& r) -> Sub { return r[i]; }); keep(std::move(s)); ok = true; o += "[1]"; });
        end(); return ok;
    }
    // The debug text must be safe to produce; what it says is not judged.
    void dump() { begin("dump", 0); code(o, [&] { (void)root.to_string(); o += "[1]"; }); end(); }
    // Systematic visit of a handle, then its children, then random repetitions.
    void visit(Rng& g, size_t h, size_t budget, bool all) {
        kinds(h);
        if (all) { for (int w = 0; w < 15; ++w) scalar(w, h); }
        else {
            bool isstr = false, isnum = false, isarr = false, ismap = false;
            try { with(h, [&](auto& r) { isstr = r.isString() || r.isBlob(); isnum = r.isInt() || r.isUInt() || r.isFloat(); isarr = r.isArray(); ismap = r.isMap(); return 0; }); } catch (...) {}
            if (isnum) for (int w = 0; w < 10; ++w) scalar(w, h);
            if (isstr) for (int w = 11; w < 14; ++w) scalar(w, h);
            if (!isnum && !isstr && !isarr && !ismap) scalar(10, h);
            scalar(int(g.below(15)), h);
            if (isarr) scalar(14, h);
        }
        keys(h); if (all || g.chance(25)) cursors(g, h);
        std::vector<std::string> ks = seen_keys;
        ks.push_back("k"); ks.push_back(""); ks.push_back("a");
        size_t n = 0; bool isarr = false, ismap = false;
        try { with(h, [&](auto& r) { isarr = r.isArray(); ismap = r.isMap(); return 0; }); } catch (...) {}
        try { with(h, [&](auto& r) { n = r.arraySize(); return 0; }); } catch (...) { n = 2; }
        std::vector<size_t> children;
        auto opened = [&](bool ok) { if (ok) children.push_back(handles() - 1); };
        if (isarr || all) {
            for (size_t i = 0; i < std::min<size_t>(n, 6) && nops < budget; ++i) opened(idx(h, i));
            if (n > 6) { opened(idx(h, n - 1)); opened(idx(h, g.below(n))); }
            idx(h, n); idx(h, n + 1 + g.below(5)); idx(h, size_t(-1)); idx(h, size_t(1) << 28); idx(h, (size_t(1) << 32)); idx(h, size_t(1) << 60);
        }
        if (ismap || all) {
            for (size_t i = 0; i < std::min<size_t>(ks.size(), 6) && nops < budget; ++i) { has(h, ks[i]); opened(get(h, ks[i])); }
            has(h, "no such key"); get(h, "no such key");
            std::string longk(g.below(40), 'k'); has(h, longk);
        }
        for (auto c : children) if (nops < budget) visit(g, c, budget, false);
    }
    void walk(Rng& g, size_t budget) {
        visit(g, 0, budget, true);
        // repetitions in random order: answers must not depend on history
        for (size_t i = 0; i < 6; ++i) {
            size_t h = g.below(handles());
            switch (g.below(5)) {
            case 0: kinds(h); break;
            case 1: keys(h); cursors(g, h); break;
            case 2: idx(h, g.below(4)); break;
            case 3: get(h, seen_keys.empty() ? "k" : g.pick(seen_keys)); break;
            default: scalar(int(g.below(15)), h);
            }
        }
    }
};
}
