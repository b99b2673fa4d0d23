// C09: replay writer histories enumerated by TLC (and longer random ones) on each writer.
#include "common.hpp"
#include "protocols.hpp"
#include "histories.hpp"
#include <fstream>
using namespace drv;

// A history is a string over v k [ { ] } F.
static std::vector<std::string> load(const char* path) {
    std::vector<std::string> out; std::ifstream in(path); std::string ln;
    while (std::getline(in, ln)) { std::string h; for (char c : ln) if (strchr("vk{}F", c)) h += c; else (void)0;
        // brackets of the JSON list itself are not quoted; symbols are
        h.clear(); for (size_t i = 0; i + 2 < ln.size(); ++i) if (ln[i] == '"' && ln[i + 2] == '"') { h += ln[i + 1]; i += 2; }
        out.push_back(h); }
    return out;
}
static std::vector<size_t> child_counts(const std::string& h) {
    std::vector<size_t> cnt(h.size(), 0), open;
    for (size_t i = 0; i < h.size(); ++i) {
        if (strchr("v[{", h[i]) && !open.empty()) ++cnt[open.back()];
        if (h[i] == '[' || h[i] == '{') open.push_back(i);
        if ((h[i] == ']' || h[i] == '}') && !open.empty()) open.pop_back();
    }
    return cnt;
}
// MsgPack accepts anything, so only well-formed complete histories apply to it. Flex promises
// to refuse mismatched ends only; other misuse is outside its contract.
static bool applies(int p, const std::string& h) {
    if (p == 0) return true;
    Sim s; size_t i = 0;
    for (; i < h.size(); ++i) { if (!s.legal(h[i])) break; s.go(h[i]); }
    if (i == h.size()) return p == 2 ? h.back() == 'F' : h.back() == 'F' && s.root;
    char c = h[i];
    return p == 2 && i + 1 == h.size() && ((c == ']' && (s.st.empty() || s.st.back() != 'a')) || (c == '}' && (s.st.empty() || s.st.back() != 'm')));
}
template <class P> static void replay(std::string& o, Rng& g, const std::string& h) {
    auto cnt = child_counts(h);
    GenOpt go; go.midpct = 2; go.nulkeys = false;
    std::set<std::string> used;
    auto rs = std::make_unique<typename P::RootSerializer>(); typename P::Serializer w{*rs};
    o += "\"p\":\"" + std::string(pcode<P>) + "\",\"calls\":[";
    std::string nodes; bool dead = false;
    for (size_t i = 0; i < h.size() && !dead; ++i) {
        if (i) o += ',';
        o += "[\""; o += h[i]; o += "\",";
        std::string res = "ok";
        auto run = [&](auto&& f) { try { f(); } catch (const zerialize::SerializationError&) { res = "S"; dead = true; } catch (...) { res = "X"; dead = true; } };
        size_t hint = cnt[i];
        if (!std::is_same_v<P, zerialize::MsgPack>) { static const size_t hs[] = {0, 1, 2, 7, 100, 5000}; if (g.chance(60)) hint = g.pick(hs); }
        switch (h[i]) {
        case 'v': { V v = gen_scalar(g, go); j_value(o, v); o += ','; run([&] { emit(v, w); }); break; }
        case 'k': { std::string k = "k" + std::to_string(i); if (g.chance(30)) k = gen_key(g, go); while (!used.insert(k).second) k += 'x'; j_bytes(o, k); o += ','; run([&] { lent(k, [&](const char* p, size_t n) { w.key(std::string_view(p, n)); }); }); break; }
        case '[': run([&] { w.begin_array(hint); }); break;
        case '{': run([&] { w.begin_map(hint); }); break;
        case ']': run([&] { w.end_array(); }); break;
        case '}': run([&] { w.end_map(); }); break;
        case 'F': run([&] {
            zerialize::ZBuffer b = rs->finish();
            rs.reset();
            Heap hp(b.buf());
            try { typename P::Deserializer d(hp.span()); j_node(nodes, d); } catch (...) { nodes = "[[],[\"E\",\"X\"]]"; }
        }); break;
        }
        o += "\"" + res + "\"]";
    }
    o += "],\"nodes\":[" + nodes + "]";
}
int main(int argc, char** argv) {
    static auto scripts = load(argv[1]);
    struct Case { size_t i; int p; };
    static std::vector<std::pair<std::string, int>> cases;
    for (auto& h : scripts) for (int p : {0, 1, 2}) if (applies(p, h)) cases.push_back({h, p});
    // deep and wide ones: d containers in each other, w values or pairs in one
    for (size_t d : {10, 20, 33, 40}) for (int k = 0; k < 4; ++k) {
        std::string h, e; for (size_t i = 0; i < d; ++i) { bool m = k == 1 || (k == 2 && i % 2) || (k == 3 && i % 7 == 3); if (m) { h += "{kvk"; e = "}" + e; } else { h += k == 0 && i % 3 ? "[v" : "["; e = (k == 0 ? "v]" : "]") + e; } }
        h += "v" + e + "F"; for (int p : {0, 1, 2}) if (applies(p, h)) cases.push_back({h, p});
    }
    for (size_t w : {15, 16, 17, 31, 32, 255, 256, 300}) for (int k = 0; k < 2; ++k) { std::string h = k ? "{" : "["; for (size_t i = 0; i < w; ++i) h += k ? "kv" : "v"; h += k ? "}F" : "]F"; for (int p : {0, 1, 2}) if (applies(p, h)) cases.push_back({h, p}); }
    const size_t nr = scale(6000, 40000);
    for (size_t i = 0; i < nr; ++i) { Rng g(seed(), 9000000 + i); auto h = random_history(g); for (int p : {0, 1, 2}) if (applies(p, h)) cases.push_back({h, p}); }
    return run_cases(argc, argv, cases.size(), [&](size_t id) {
        std::string o = "{\"id\":" + std::to_string(id) + ",";
        Rng g(seed(), id);
        with_proto(cases[id].second, [&]<class P>(P) { replay<P>(o, g, cases[id].first); });
        return o + "}";
    });
}
