// Foreign JSON: encodes a value with white space, escapes and numerals of any admissible form;
// text generators; and the table of what double each numeral in a text stands for.
#pragma once
#include "common.hpp"
#include <cmath>
#include <zerialize/internals/base64.hpp>
namespace drv {
inline std::string gen_utf8(Rng& g, size_t n) {
    static const char* cs[] = {"a", "k", "z", " ", "0", "\"", "\\", "/", "\b", "\n", "\x1f", "\x7f", "~b", "\xC2\x80", "\xC3\xA9", "\xDF\xBF", "\xE0\xA0\x80", "\xE6\x97\xA5", "\xED\x9F\xBF", "\xEE\x80\x80", "\xEF\xBF\xBF", "\xF0\x90\x80\x80", "\xF0\x9F\x98\x80", "\xF4\x8F\xBF\xBF", "e", "n"};
    std::string s; bool plain = g.chance(40);
    while (s.size() < n) { if (plain) s += char('a' + g.below(26)); else if (g.chance(4)) s += '\0'; else s += g.pick(cs); }
    return s;
}
// The value with everything that JSON cannot hold replaced.
inline void jsonable(Rng& g, V& v) {
    switch (v.t) {
    case 'd': if (!std::isfinite(v.d_())) v = V::dbl(1.5); break;
    case 's': if (g.chance(80)) v.s = gen_utf8(g, v.s.size()); else for (auto& c : v.s) c = char(c & 127); break;
    case 'a': for (auto& c : v.a) jsonable(g, c); break;
    case 'm': { std::set<std::string> seen; for (auto& [k, c] : v.m) { k = gen_utf8(g, k.size()); while (!seen.insert(k).second) k += 'q'; jsonable(g, c); } break; }
    default: break;
    }
}
inline uint32_t code_point(const std::string& s, size_t& i) {
    unsigned char b = (unsigned char)s[i]; size_t n = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4; uint32_t c = n == 1 ? b : b & (0xFFu >> (n + 1));
    for (size_t j = 1; j < n; ++j) c = c << 6 | ((unsigned char)s[i + j] & 63); i += n; return c;
}
inline const char* odd_numbers[] = {"-0", "0", "-0.0", "0e5", "0.0", "-1e-400", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809", "9223372036854775807", "9223372036854775808", "123456789012345678901234567890", "-123456789012345678901234567890",
    "1e308", "0.1", "5e-324", "2.2250738585072014e-308", "1.7976931348623157e308", "1E+2", "1e-0", "3.0", "1.50", "1e00005", "100000000000000000000.5", "2147483648", "-2147483649", "255", "256", "-128", "-129", "65536", "4294967296", "0.30000000000000004", "9007199254740993.0", "1e23"};
inline const char* bad_numbers[] = {"1e309", "-1e400", "01", "-01", "1.", ".5", "+1", "-", "1e", "1e+", "0x10", "Infinity", "NaN", "nan", "--1", "1.e5", "00", "1_0", "-.5", "1.7976931348623159e308", "-a", "1e5.0", "0e", "tru", "nul", "falsee", "True"};
struct JsonForge {
    Rng& g; int wspct, escpct, duppct, oddpct;
    std::string o;
    std::vector<size_t> marks;          // where tokens begin
    JsonForge(Rng& r, int w, int e, int d = 0, int odd = 0) : g(r), wspct(w), escpct(e), duppct(d), oddpct(odd) {}
    void sp() { while (g.chance(wspct)) o += " \t\n\r"[g.below(4)]; marks.push_back(o.size()); }
    void u4(uint32_t c) { char b[8]; std::snprintf(b, 8, g.chance(50) ? "\\u%04x" : "\\u%04X", c); o += b; }
    void text(const std::string& s) {
        o += '"';
        for (size_t i = 0; i < s.size();) {
            size_t at = i; uint32_t c = code_point(s, i);
            bool must = c < 32 || c == '"' || c == '\\';
            static const std::string from = "\"\\/\b\f\n\r\t"; size_t q = c < 128 ? from.find(char(c)) : from.npos;
            if ((must || g.chance(escpct)) && q != from.npos && g.chance(60)) { o += '\\'; o += "\"\\/bfnrt"[q]; }
            else if (must || g.chance(escpct)) { if (c < 0x10000) u4(c); else { c -= 0x10000; u4(0xD800 + (c >> 10)); u4(0xDC00 + (c & 1023)); } }
            else o.append(s, at, i - at);
        }
        o += '"';
    }
    void number(double d) {
        char b[400]; static const char* fm[] = {"%.17g", "%.16e", "%.17G", "%.20e"};
        if (std::fabs(d) < 1e15 && std::fabs(d) > 1e-3 && g.chance(40)) std::snprintf(b, 400, "%.25f", d); else std::snprintf(b, 400, g.pick(fm), d);
        o += b; if (!strpbrk(b, ".eE")) o += g.chance(50) ? ".0" : "e0";
    }
    void val(const V& v) {
        sp();
        if (oddpct && v.t != 'a' && v.t != 'm' && g.chance(oddpct)) { o += g.pick(odd_numbers); sp(); return; }
        switch (v.t) {
        case 'n': o += "null"; break;
        case 'b': o += v.b ? "true" : "false"; break;
        case 'i': o += std::to_string(v.i); break;
        case 'u': o += std::to_string(v.u); break;
        case 'd': number(v.d_()); break;
        case 's': text(v.s); break;
        case 'x': {
            std::string b = zerialize::base64Encode(as_bytes(v.s));
            if (g.chance(oddpct)) switch (g.below(4)) { case 0: while (!b.empty() && b.back() == '=') b.pop_back(); break; case 1: b += "=!x"; break; case 2: b.insert(g.below(b.size() + 1), 1, "-_ \n!"[g.below(5)]); break; default: b.resize(g.below(b.size() + 1)); }
            o += '['; sp(); text(g.chance(oddpct / 3) ? "~c" : "~b"); sp(); o += ','; sp(); text(b); sp(); o += ','; sp(); text(g.chance(oddpct / 3) ? "base65" : "base64"); sp();
            if (g.chance(oddpct / 4)) { o += ",1"; } o += ']'; break;
        }
        case 'a': o += '['; for (size_t i = 0; i < v.a.size(); ++i) { if (i) o += ','; val(v.a[i]); } if (v.a.empty()) sp(); o += ']'; break;
        case 'm': {
            o += '{'; bool first = true;
            auto member = [&](const std::string& k, const V& c) { if (!first) o += ','; first = false; sp(); text(k); sp(); o += ':'; val(c); };
            for (auto& [k, c] : v.m) { member(k, c); if (g.chance(duppct)) member(k, g.chance(50) ? c : V::uint(g.below(9))); }
            if (v.m.empty()) sp(); o += '}'; break;
        }
        }
        sp();
    }
};
// [[numeral, its double or []], ...] for everything in the texts that may be a numeral.
inline std::string number_table(std::initializer_list<std::string_view> texts) {
    std::set<std::string> seen; std::string o = "[";
    auto is = [](char c) { return (c >= '0' && c <= '9') || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E'; };
    for (auto s : texts) for (size_t i = 0; i < s.size();) {
        if (!is(s[i])) { ++i; continue; }
        size_t j = i; while (j < s.size() && is(s[j])) ++j;
        std::string t(s.substr(i, j - i)); i = j;
        if (t[0] != '-' && !(t[0] >= '0' && t[0] <= '9')) continue;
        if (t.find_first_of(".eE") == t.npos && t.size() < 19) continue;   // an integer
        if (!seen.insert(t).second) continue;
        double d = std::strtod(t.c_str(), nullptr); uint64_t w; std::memcpy(&w, &d, 8);
        o += o.size() > 1 ? ",[" : "["; j_bytes(o, t, true); o += ','; if (std::isfinite(d)) j_le(o, w); else o += "[]"; o += ']';
    }
    return o + "]";
}
}
