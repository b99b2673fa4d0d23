// C06: open arbitrary bytes as Zera and read them in every way.
#include "session.hpp"
#include "protocols.hpp"
#include "zera_gen.hpp"
using namespace drv;
using D = zerialize::Zera::Deserializer;

static std::string make(Rng& g, size_t id) {
    GenOpt o; o.maxdepth = 1 + int(g.below(3)); o.maxfan = 3; o.midpct = 2;
    std::string b; std::vector<size_t> f;
    if (id % 16 == 0) { b = gen_bytes(g, g.below(80)); if (g.chance(70) && b.size() > 20) { b.replace(0, 8, std::string("ZENV\1\0\1\0", 8)); set32(b, 8, g.below(8)); set32(b, 12, b.size() > 40 ? 12 + g.below(30) : 20); set32(b, 16, 16 * g.below(6)); } return b; }
    V v = gen_value(g, o);
    if (g.chance(50)) { ZeraForge z(g); b = z.message(v); for (auto x : z.fields32) f.push_back(20 + x); }
    else { std::string out = write_value_bytes<zerialize::Zera>(v, b); if (out != "ok") { write_value_bytes<zerialize::Zera>(V::arr({V::str("fallback")}), b); } zera_fields(b, get32(b, 8), f); }
    switch (id % 8) {
    case 1: return b;                                                        // conforming
    case 2: b.resize(g.below(b.size() + 1)); return b;                       // truncated
    case 3: b[g.below(20)] = char(g.chance(50) ? g.below(256) : g.below(4)); return b; // header
    case 4: set32(b, 8 + 4 * g.below(3), interesting32(g, b)); return b;     // header offsets
    case 5: case 6: { size_t k = 1 + g.below(2); for (size_t i = 0; i < k && !f.empty(); ++i) set32(b, g.pick(f), interesting32(g, b)); return b; }
    case 7: { size_t k = 1 + g.below(3); for (size_t i = 0; i < k && !f.empty(); ++i) { size_t at = g.pick(f) + g.below(4); if (at < b.size()) b[at] = char(g.chance(50) ? g.below(10) : g.below(256)); } if (g.chance(30)) b.resize(b.size() - std::min<size_t>(b.size(), g.below(20))); return b; }
    default: { size_t k = 1 + g.below(4); for (size_t i = 0; i < k; ++i) b[g.below(b.size())] = char(g.chance(40) ? g.below(10) : g.below(256)); return b; }
    }
}

// One reference of every tag, flag and length, with room behind it or not.
static const int Tags[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 255}, Flags[] = {0, 1, 2, 3, 128, 255}, Auxs[] = {0, 1, 2, 3, 4, 11, 12, 13, 14, 15, 16, 17, 255, 256, 65535};
constexpr size_t Refs = std::size(Tags) * std::size(Flags) * std::size(Auxs);
static std::string one_ref(Rng& g, size_t k) {
    std::string r; r += char(Tags[k / std::size(Flags) / std::size(Auxs)]); r += char(Flags[k / std::size(Auxs) % std::size(Flags)]); put16(r, Auxs[k % std::size(Auxs)]);
    const bool inner = g.chance(40); std::string env;
    // operands: something readable for every tag: an array of one null at 0, a map of one null at 24, a shape at 48
    put32(env, 1); env += std::string(16, '\0'); env.resize(24, 0); put32(env, 1); put16(env, 1); put16(env, 0); env += 'k'; env += std::string(16, '\0'); env.resize(52, 0); put32(env, 1); put64(env, 4);
    uint32_t a = g.chance(20) ? uint32_t(g.below(70)) : r[0] == 5 ? 0 : r[0] == 6 ? 24 : 0, c = g.chance(15) ? 8 : 4, d = r[0] == 7 && g.chance(90) ? 52 : uint32_t(g.next() % (g.chance(50) ? 1 : 64));
    if (g.chance(25)) { r += gen_bytes(g, 12); } else { put32(r, a); put32(r, c); put32(r, d); }
    size_t root;
    if (inner) { size_t at = env.size(); put32(env, 1); if (g.chance(50)) { env += r; root = env.size(); env += std::string("\5\0\0\0", 4); } else { put16(env, 1); put16(env, 0); env += 'k'; env += r; root = env.size(); env += std::string("\6\0\0\0", 4); } put32(env, at); env += std::string(8, '\0'); }
    else { root = env.size(); env += r; }
    if (g.chance(30)) env += std::string(g.below(20), 'e');
    std::string b("ZENV\1\0\1\0", 8); put32(b, root); put32(b, env.size()); size_t ar = 20 + env.size(); while (ar % 16) ++ar; put32(b, ar); b += env; b.resize(ar, 0); b += std::string("arenabytes").substr(0, g.below(11)); return b;
}
int main(int argc, char** argv) {
    const size_t n0 = scale(16000, 120000), n = n0 + Refs * (thorough() ? 6 : 2);
    return run_cases(argc, argv, n, [&](size_t id) {
        Rng g(seed(), id);
        std::string b = id < n0 ? make(g, id) : one_ref(g, (id - n0) % Refs);
        std::string o = "{\"id\":" + std::to_string(id) + ",\"b\":"; j_bytes(o, b, true);
        Heap h(b, g.below(16));
        std::string open = "ok", ops;
        try {
            auto run = [&](const D& d) { Session<D> s(d); s.walk(g, 60); ops = std::move(s.o); };
            switch (id % 3) {
            case 0: { D d = open_view<D>(h, g.below(3)); run(d); break; }
            case 1: { D d(h.p, h.n); run(d); break; }
            default: { std::vector<uint8_t> v(b.begin(), b.end()); v.shrink_to_fit(); D d(v); run(d); }
            }
        } catch (const zerialize::DeserializationError&) { open = "D"; } catch (...) { open = "X"; }
        o += ",\"open\":\"" + open + "\",\"ops\":[" + ops + "]}";
        return o;
    });
}
