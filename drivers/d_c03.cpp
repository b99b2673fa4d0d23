// C03: every accessor and predicate on every kind of stored value, at the root and nested.
#include "session.hpp"
#include "protocols.hpp"
using namespace drv;

static std::vector<V> stored() {
    std::vector<V> c{V::null(), V::boolean(true), V::boolean(false)};
    for (auto& v : boundary_ints()) c.push_back(v);
    for (auto& v : boundary_doubles()) c.push_back(v);
    for (const char* s : {"", "a", "true", "null", "0", "42", "-1", "3.5", "NaN", "inline twelve", "this one is long enough for the arena"}) { c.push_back(V::str(s)); c.push_back(V::blob(s)); }
    c.push_back(V::arr({})); c.push_back(V::map({})); c.push_back(V::arr({V::sint(1)})); c.push_back(V::arr({V::str("k"), V::str("v")}));
    c.push_back(V::map({{"k", V::sint(-1)}})); c.push_back(V::map({{"0", V::str("zero")}, {"1", V::null()}}));
    c.push_back(V::arr({V::uint(5), V::uint(6), V::uint(7)})); c.push_back(V::arr({V::dbl(1), V::dbl(2)}));
    return c;
}
template <class R> static void everything(Session<R>& s, size_t h) {
    s.kinds(h);
    for (int w = 0; w < 15; ++w) s.scalar(w, h);
    s.keys(h);
    for (size_t i : {size_t(0), size_t(1), size_t(3), size_t(-1)}) s.idx(h, i);
    for (const char* k : {"k", "0", "", "nope"}) { s.has(h, k); s.get(h, k); }
}
int main(int argc, char** argv) {
    static auto fixed = stored();
    const size_t nrand = scale(3000, 20000);
    return run_cases(argc, argv, (fixed.size() * 3 + nrand) * 3, [&](size_t id) {
        size_t i = id / 3; int nest = 0; V v;
        Rng g(seed(), i);
        if (i < fixed.size() * 3) { v = fixed[i / 3]; nest = int(i % 3); }
        else { GenOpt o; o.maxdepth = 1; o.midpct = 0; o.nulkeys = false; v = g.chance(80) ? gen_scalar(g, o) : gen_value(g, o); nest = int(g.below(3)); }
        V w = nest == 0 ? v : nest == 1 ? V::arr({V::null(), v}) : V::map({{"it", v}, {"z", V::boolean(true)}});
        std::string o = "{\"id\":" + std::to_string(id) + ",";
        with_proto(int(id % 3), [&]<class P>(P) {
            using D = typename P::Deserializer;
            o += "\"p\":\"" + std::string(pcode<P>) + "\",\"v\":"; j_value(o, w, true);
            std::string b, ops, open = write_value_bytes<P>(w, b);
            bool same = true;
            if (open == "ok") {
                Heap h(b);
                try {
                    D d(h.span()); Session<D> s(d); size_t at = 0;
                    if (nest == 1) { if (s.idx(0, 1)) at = 1; } else if (nest == 2) { if (s.get(0, "it")) at = 1; }
                    everything(s, at); s.dump(); ops = std::move(s.o);
                } catch (...) { open = "X"; }
                same = std::memcmp(h.p, b.data(), b.size()) == 0;
            }
            o += ",\"open\":\"" + open + "\",\"same\":" + (same ? "true" : "false") + ",\"ops\":[" + ops + "]}";
        });
        return o;
    });
}
