// Writer histories: strings over v k [ { ] } F.
#pragma once
#include "common.hpp"
namespace drv {
struct Sim { // follows a history: which calls are legal, how many children each begin has
    std::string st; std::vector<bool> pend; bool root = false;
    bool room() const { return st.empty() ? !root : st.back() == 'a' || pend.back(); }
    void put() { if (st.empty()) root = true; else pend.back() = false; }
    bool legal(char c) const {
        switch (c) {
        case 'v': case '[': case '{': return room();
        case 'k': return !st.empty() && st.back() == 'm' && !pend.back();
        case ']': return !st.empty() && st.back() == 'a';
        case '}': return !st.empty() && st.back() == 'm' && !pend.back();
        default: return st.empty();
        }
    }
    void go(char c) {
        switch (c) {
        case 'v': put(); break;
        case 'k': pend.back() = true; break;
        case '[': st += 'a'; pend.push_back(false); break;
        case '{': st += 'm'; pend.push_back(false); break;
        case ']': case '}': st.pop_back(); pend.pop_back(); put(); break;
        }
    }
};
inline std::string random_history(Rng& g) {
    Sim s; std::string h; size_t n = 4 + g.below(60); bool closing = false;
    for (size_t i = 0; i < 400; ++i) {
        if (i >= n) closing = true;
        std::string c;
        for (char x : {'v', 'k', '[', '{', ']', '}'}) if (s.legal(x)) { if (closing && (x == '[' || x == '{')) continue; if (closing && x == 'k' && s.legal('}')) continue; if (closing && x == 'v' && s.legal(']')) continue; c += x; if (x == '[' || x == '{') if (s.st.size() < 8) c += x; }
        if (c.empty()) break; // root complete
        if (!closing && g.chance(2) ) { std::string bad; for (char x : {'v', 'k', '[', '{', ']', '}', 'F'}) if (!s.legal(x)) bad += x; h += g.pick(bad); if (h.back() != '[' && h.back() != '{') return h; char b = h.back(); size_t m = g.below(3); for (size_t j = 0; j < m; ++j) h += b == '[' ? "v" : "kv"; h += g.chance(50) ? 'F' : b == '[' ? ']' : '}'; return h; }
        if (s.st.size() == 1 && !closing && (s.legal(']') || s.legal('}')) && g.chance(90)) { std::string c2; for (char x : c) if (x != ']' && x != '}') c2 += x; if (!c2.empty()) c = c2; }
        char x = g.pick(c); h += x; s.go(x);
        if (s.st.empty()) break;
    }
    if (g.chance(10)) { const char* t[] = {"[F", "{F", "[vF", "{kvF", "{kF", "[[]F", "[{}vF", "{k[]F"}; h += g.pick(t); } // begun after the root
    else if (g.chance(15)) h += g.chance(50) ? "v" : g.chance(50) ? "[]" : "{}"; // second root
    else h += 'F';
    return h;
}
}
