// C05: bytes the Zera writer produces, for every inline threshold.
#include "common.hpp"
#include "protocols.hpp"
using namespace drv;

static std::string write_zera(const V& v, size_t limit, std::string& bytes) {
    try {
        zerialize::Zera::RootSerializer rs{}; zerialize::Zera::Serializer w{rs};
        if (limit <= 12) rs.set_inline_string_threshold(uint32_t(limit));
        emit(v, w); auto b = rs.finish();
        bytes.assign(reinterpret_cast<const char*>(b.data()), b.size()); return "ok";
    } catch (const zerialize::SerializationError&) { return "S"; } catch (...) { return "X"; }
}
static std::vector<V> fixed() {
    std::vector<V> c{V::null(), V::boolean(true), V::boolean(false), V::arr({}), V::map({})};
    for (auto& v : boundary_ints()) c.push_back(v);
    for (auto& v : boundary_doubles()) c.push_back(v);
    Rng g(3);
    for (size_t n = 0; n <= 40; ++n) {
        c.push_back(V::str(gen_bytes(g, n))); c.push_back(V::blob(gen_bytes(g, n)));
        std::string k(n, 'k');
        c.push_back(V::map({{k, V::str(gen_bytes(g, n))}, {"x" + k, V::blob(gen_bytes(g, n))}}));
        c.push_back(V::arr({V::str(gen_bytes(g, n)), V::blob(gen_bytes(g, n)), V::str(gen_bytes(g, 13 + n)), V::blob(gen_bytes(g, n + 1)), V::blob("")}));
        V a; a.t = 'a'; for (size_t i = 0; i < n; ++i) a.a.push_back(i % 2 ? V::str(std::string(i, 'z')) : V::blob(std::string(i, '\x09'))); c.push_back(a);
    }
    for (size_t n : {255, 256, 300, 4096, 65535, 65536, 70000}) { c.push_back(V::str(std::string(n, 'q'))); c.push_back(V::blob(std::string(n, '\xee'))); c.push_back(V::map({{std::string(n > 65535 ? n - 65530 : n, 'k'), V::sint(1)}, {"b", V::blob("xyz")}})); }
    // offsets beyond 16 bits in the envelope and in the arena
    { V a; a.t = 'a'; for (int i = 0; i < 4200; ++i) a.a.push_back(V::sint(i)); c.push_back(V::arr({a, V::blob("tail"), V::arr({V::str("inline"), V::str("not an inline string")}), V::map({{"k", V::arr({})}})})); }
    c.push_back(V::arr({V::blob(std::string(40001, '\x81')), V::str(std::string(30007, 's')), V::blob("last"), V::str("after sixty-five thousand bytes")}));
    { V a; a.t = 'a'; for (int i = 0; i < 300; ++i) a.a.push_back(V::sint(i)); c.push_back(a); V m; m.t = 'm'; for (int i = 0; i < 300; ++i) m.m.emplace_back("k" + std::to_string(i), V::uint(i)); c.push_back(m); }
    return c;
}
int main(int argc, char** argv) {
    static auto fx = fixed();
    const size_t n = scale(6000, 60000);
    return run_cases(argc, argv, fx.size() * 2 + n, [&](size_t id) {
        Rng g(seed(), id);
        GenOpt o; o.midpct = 4; o.maxfan = 4;
        V v = id < 2 * fx.size() ? fx[id / 2] : gen_value(g, o);
        static const size_t lims[] = {0, 1, 2, 4, 5, 8, 11, 12, 99};
        size_t limit = id < 2 * fx.size() ? (id % 2 ? 12 : g.below(13)) : lims[g.below(9)];
        std::string b1, b2;
        std::string out = write_zera(v, limit, b1), out2 = write_zera(v, limit, b2);
        std::string s = "{\"id\":" + std::to_string(id) + ",\"limit\":" + std::to_string(limit) + ",\"out\":\"" + out + "\",\"same\":" + (out == out2 && b1 == b2 ? "true" : "false") + ",\"v\":";
        j_value(s, v, true); s += ",\"bytes\":"; j_bytes(s, b1, true); s += "}";
        return s;
    });
}
