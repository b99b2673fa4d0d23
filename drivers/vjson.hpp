// Values of the specification, printed by TLC as JSON, back into the drivers' value model.
#pragma once
#include "common.hpp"
namespace drv {
struct VJson {
    const std::string& s; size_t i = 0;
    void eat(char c) { while (i < s.size() && s[i] == ' ') ++i; if (i >= s.size() || s[i] != c) throw std::runtime_error("bad value at " + std::to_string(i) + ": " + s.substr(0, 200)); ++i; }
    bool peek(char c) { while (i < s.size() && s[i] == ' ') ++i; return i < s.size() && s[i] == c; }
    long num() { char* e; long v = std::strtol(s.c_str() + i, &e, 10); i = size_t(e - s.c_str()); return v; }
    std::string bytes() { std::string out; eat('['); while (!peek(']')) { out += char(num()); if (peek(',')) eat(','); } eat(']'); return out; }
    V value() {
        eat('['); eat('"'); char t = s[i++]; eat('"'); V v; v.t = t; if (peek(',')) eat(',');
        switch (t) {
        case 'n': break;
        case 'b': v.b = s[i] == 't'; while (s[i] != ']') ++i; break;
        case 'i': case 'u': case 'd': { auto b = bytes(); uint64_t x; std::memcpy(&x, b.data(), 8); v.i = int64_t(x); v.u = v.d = x; break; }
        case 's': case 'x': v.s = bytes(); break;
        case 'a': eat('['); while (!peek(']')) { v.a.push_back(value()); if (peek(',')) eat(','); } eat(']'); break;
        case 'm': eat('['); while (!peek(']')) { eat('['); auto k = bytes(); eat(','); V c = value(); eat(']'); v.m.emplace_back(k, c); if (peek(',')) eat(','); } eat(']'); break;
        default: throw std::runtime_error("kind");
        }
        eat(']'); return v;
    }
};
inline V parse_value(const std::string& s) { VJson j{s}; return j.value(); }
}
