// C22: what the JSON writer produces ("w"), how texts are shown ("r": whole, through every
// constructor; "b": any bytes, in a session), writer histories ("h"), and translations between
// JSON and the other protocols ("t" from a text, "u" from a MessagePack message).
#include "session.hpp"
#include "protocols.hpp"
#include "histories.hpp"
#include "json_gen.hpp"
#include <zerialize/translate.hpp>
#include <zerialize/protocols/cbor.hpp>
#include <zerialize/protocols/json.hpp>
using namespace drv;
using namespace zerialize;
namespace drv {
template <> inline constexpr const char* pcode<zerialize::CBOR> = "C";
template <> inline constexpr const char* pcode<zerialize::JSON> = "J";
}
using D = JSON::Deserializer;
template <class F> void with_any(int i, F&& f) { if (i >= 4) f(JSON{}); else if (i == 3) f(CBOR{}); else with_proto(i, f); }

static std::vector<V> fixed_cases() {
    std::vector<V> c{V::null(), V::boolean(true), V::boolean(false), V::arr({}), V::map({})};
    for (auto& v : boundary_ints()) c.push_back(v);
    for (auto& v : boundary_doubles()) c.push_back(v);
    for (double d : {1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 123456.0, 0.001, 1e-5, 1e-7, 4503599627370496.5, 9007199254740992.0, 1e300, 3e-310}) { c.push_back(V::dbl(d)); c.push_back(V::dbl(-d)); }
    for (int i = 0; i < 256; ++i) c.push_back(V::str(std::string(1, char(i))));
    for (const char* s : {"\xC0\x80", "\xC1\xBF", "\xE0\x9F\xBF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF0\x8F\xBF\xBF", "\xF4\x90\x80\x80", "\xF5\x80\x80\x80", "\xC3", "\xE6\x97", "\xF0\x9F\x98", "\xC3\xC3\xA9", "\x80", "a\xE6\x97z", "\xC2\x80", "\xDF\xBF", "\xE0\xA0\x80", "\xED\x9F\xBF", "\xEE\x80\x80", "\xEF\xBF\xBD", "\xF0\x90\x80\x80", "\xF4\x8F\xBF\xBF"}) {
        c.push_back(V::str(s)); c.push_back(V::map({{s, V::uint(1)}, {"k", V::str(s)}}));
    }
    Rng g(11);
    for (size_t n : {0, 1, 2, 3, 5, 7, 15, 16, 22, 23, 31, 32, 63, 127, 200}) {
        c.push_back(V::str(gen_utf8(g, n))); c.push_back(V::blob(gen_bytes(g, n))); c.push_back(V::str(std::string(n, '\0')));
        c.push_back(V::map({{gen_utf8(g, n), V::blob(gen_bytes(g, n / 3))}, {"second key that is here", V::str("x")}}));
        c.push_back(V::map({{std::string(n, '\0'), V::uint(n)}, {"z", V::null()}}));
        V a; a.t = 'a'; for (size_t i = 0; i < n; ++i) a.a.push_back(V::uint(i)); c.push_back(a);
        V m; m.t = 'm'; for (size_t i = 0; i < n; ++i) m.m.emplace_back("k" + std::to_string(i), V::sint(-int64_t(i))); c.push_back(m);
    }
    c.push_back(V::map({{std::string("a\0b", 3), V::sint(1)}, {"a", V::arr({V::sint(2)})}, {"", V::map({{"", V::arr({})}})}}));
    c.push_back(V::arr({V::blob(""), V::arr({V::str("~b"), V::str("QUJD"), V::str("base6")}), V::arr({V::str("~b"), V::str("QUJD")}), V::arr({V::blob("x"), V::blob("yz")})}));
    return c;
}
static std::string full(const V& v) { std::string s; j_value(s, v, true); return s; }
static std::string bytes_of(const std::string& b) { std::string s; j_bytes(s, b, true); return s; }
template <class R> std::string shown(const R& r) { std::string n; try { j_node(n, r, true); } catch (...) { n = "[[],[\"E\",\"X\"]]"; } return n; }
template <class R> void hop(std::string& o, Rng& g, const R& r, size_t hops) {
    if (hops == 0) return;
    with_any(int(g.below(7)), [&]<class P>(P) {
        using E = typename P::Deserializer;
        o += std::string(o.back() == '[' ? "" : ",") + "[\"" + pcode<P> + "\",";
        const size_t mark = o.size(); bool entered = false;
        auto seen = [&](const E& e) { entered = true; o += "\"ok\"," + shown(e) + "]"; hop(o, g, e, hops - 1); };
        try {
            if (g.chance(40)) {
                typename P::RootSerializer rs{}; typename P::Serializer w{rs}; write_value(r, w); ZBuffer b = rs.finish();
                Heap h(b.buf()); E e = open_view<E>(h, g.below(3)); seen(e);
            } else { E e = translate<P>(r); seen(e); }
        } catch (const SerializationError&) { if (entered) throw; o.resize(mark); o += "\"S\",[]]"; }
        catch (...) { if (entered) throw; o.resize(mark); o += "\"X\",[]]"; }
    });
}
static std::string gen_text(Rng& g, size_t i) {
    if (i < 256) return std::string(1, char(i));
    if (i < 256 + std::size(odd_numbers) * 2) { i -= 256; std::string t = odd_numbers[i / 2]; return i % 2 ? "[" + t + "]" : t; }
    i -= 256 + std::size(odd_numbers) * 2;
    if (i < std::size(bad_numbers) * 2) { std::string t = bad_numbers[i / 2]; return i % 2 ? "[" + t + "]" : t; }
    std::string b;
    if (i % 6 == 0) { // tokens in any order
        static const char* ts[] = {"[", "]", "{", "}", ",", ":", "\"k\"", "\"\"", "\"a\\", "\\u00e9", "\"\\ud83d\\ude00\"", "\"\\ud83d\"", "\"\\ude00\"", "1", "-", "2.5", "1e5", "true", "false", "null", " ", "\n", "\"~b\"", "\"base64\"", "\"QUJD\"", "\x01", "\xC3\xA9", "\xff", "\xEF\xBB\xBF", "/**/", "'a'", "[1,]", "{\"k\":1,}", "{,}", "[,1]", "\"\t\"", "\f"};
        size_t n = 1 + g.below(14); for (size_t k = 0; k < n; ++k) b += g.chance(4) ? g.pick(bad_numbers) : g.chance(10) ? g.pick(odd_numbers) : g.pick(ts); return b;
    }
    GenOpt o; o.maxdepth = 1 + int(g.below(3)); o.maxfan = 4; o.midpct = 1;
    V v = gen_value(g, o); jsonable(g, v);
    JsonForge f(g, g.chance(50) ? 30 : 0, g.chance(50) ? 30 : 0, g.chance(40) ? 20 : 0, g.chance(60) ? 30 : 0); f.val(v); b = f.o;
    switch (i % 6) {
    case 1: case 2: return b;
    case 3: b.resize(g.below(b.size() + 1)); return b;
    case 4: { static const char cs[] = "[]{},:\"\\u01-.eE tfn\x00\x1f\x80\xc3\xff"; size_t k = 1 + g.below(2); for (size_t j = 0; j < k; ++j) { size_t p = g.chance(60) && !f.marks.empty() ? std::min(g.pick(f.marks), b.size() - 1) : g.below(b.size()); char c = cs[g.below(sizeof cs - 1)]; switch (g.below(3)) { case 0: b[p] = c; break; case 1: b.insert(p, 1, c); break; default: b.erase(p, 1); if (b.empty()) b = "0"; } } return b; }
    default: b += g.chance(50) ? gen_bytes(g, 1 + g.below(4)) : g.chance(50) ? " 1" : "]"; return b;
    }
}
static std::string history(Rng& g) {
    GenOpt go; go.midpct = 1; std::string h = random_history(g), o = "\"dir\":\"h\",\"calls\":[", text;
    std::set<std::string> used; bool dead = false;
    auto rs = std::make_unique<JSON::RootSerializer>(); JSON::Serializer w{*rs};
    for (size_t i = 0; i < h.size() && !dead; ++i) {
        if (i) o += ',';
        o += "[\""; o += h[i]; o += "\",";
        std::string res = "ok";
        auto run = [&](auto&& f) { try { f(); } catch (const SerializationError&) { res = "S"; dead = true; } catch (...) { res = "X"; dead = true; } };
        switch (h[i]) {
        case 'v': { V v = gen_scalar(g, go); if (!g.chance(2)) jsonable(g, v); j_value(o, v, true); o += ','; run([&] { emit(v, w); }); break; }
        case 'k': { std::string k = g.chance(50) ? "k" + std::to_string(i) : gen_utf8(g, g.below(12)); while (!used.insert(k).second) k += 'x'; j_bytes(o, k, true); o += ','; run([&] { lent(k, [&](const char* p, size_t n) { w.key(std::string_view(p, n)); }); }); break; }
        case '[': run([&] { w.begin_array(g.below(3)); }); break;
        case '{': run([&] { w.begin_map(g.below(3)); }); break;
        case ']': run([&] { w.end_array(); }); break;
        case '}': run([&] { w.end_map(); }); break;
        case 'F': run([&] { ZBuffer b = rs->finish(); rs.reset(); text.assign(reinterpret_cast<const char*>(b.data()), b.size()); }); break;
        }
        o += "\"" + res + "\"]";
    }
    return o + "],\"b\":" + bytes_of(text) + ",\"tab\":" + number_table({text}) + "}";
}

int main(int argc, char** argv) {
    static auto fixed = fixed_cases();
    const size_t nrand = scale(2500, 30000), nv = fixed.size() + nrand, ntext = scale(9000, 80000), nh = scale(3000, 30000);
    return run_cases(argc, argv, 4 * nv + ntext + nh, [&](size_t id) {
        std::string o = "{\"id\":" + std::to_string(id) + ",";
        Rng g(seed(), id);
        if (id >= 4 * nv + ntext) return o + history(g);
        if (id >= 4 * nv) {
            std::string b = gen_text(g, id - 4 * nv);
            Heap h(b, g.below(16)); std::string open = "ok", ops;
            o += "\"dir\":\"b\",\"b\":" + bytes_of(b) + ",\"tab\":" + number_table({b});
            try {
                auto run = [&](const D& d) { Session<D> s(d); s.walk(g, 60); s.dump(); ops = std::move(s.o); };
                if (id % 3 == 0) { D d = open_view<D>(h, id / 3); run(d); }
                else if (id % 3 == 1) { D c(std::string_view(reinterpret_cast<const char*>(h.p), h.n)); D d = std::move(c); c = D(); run(d); }
                else { auto t = std::make_unique<Heap>(b); D d(t->span()); std::memset(t->p, 'x', t->n); t.reset(); run(d); }
            } catch (const DeserializationError&) { open = "D"; } catch (...) { open = "X"; }
            return o + ",\"open\":\"" + open + "\",\"ops\":[" + ops + "]}";
        }
        size_t i = id / 4; int dir = int(id % 4);
        V v;
        if (i < fixed.size()) v = fixed[i];
        else { Rng gv(seed(), 100000000 + i); GenOpt go; go.maxdepth = 1 + int(i % 3); go.midpct = 2; v = gen_value(gv, go); if (dir == 1 || dir == 2 || gv.chance(70)) jsonable(gv, v); }
        if (dir == 0) {
            std::string b; std::string out = write_value_bytes<JSON>(v, b);
            return o + "\"dir\":\"w\",\"v\":" + full(v) + ",\"out\":\"" + out + "\",\"b\":" + bytes_of(b) + ",\"tab\":" + number_table({b}) + "}";
        }
        if (dir == 3) { // from MessagePack, whatever it holds
            MsgPack::RootSerializer rs; MsgPack::Serializer w{rs}; emit(v, w); ZBuffer b = rs.finish();
            std::string st = "["; try { MsgPack::Deserializer d(b.buf()); hop(st, g, d, 1 + g.below(3)); } catch (...) { st += ",[\"X\",\"X\",[]]"; }
            return o + "\"dir\":\"u\",\"v\":" + full(v) + ",\"steps\":[" + st.substr(1) + "]}";
        }
        jsonable(g, v);
        JsonForge f(g, i % 2 ? 25 : 0, i % 3 ? 25 : 0, dir == 1 && i % 5 == 0 ? 20 : 0, i >= fixed.size() && i % 7 == 0 ? 20 : 0); f.val(v);
        Heap h(f.o, g.below(16));
        o += std::string("\"dir\":\"") + (dir == 1 ? "r" : "t") + "\",\"b\":" + bytes_of(f.o);
        if (dir == 1) {
            std::string nodes, first, compact, pretty;
            auto add = [&](auto&& mk) { std::string n; outcome(n, "[[],[\"E\",\"D\"]]", "[[],[\"E\",\"X\"]]", [&] { auto&& r = mk(); j_node(n, r, true); compact = r.to_string(false); pretty = r.to_string(); }); if (n != first) { if (!first.empty()) nodes += ','; nodes += n; if (first.empty()) first = n; } };
            for (size_t w = 0; w < 2; ++w) add([&] { return open_view<D>(h, w); });
            add([&] { std::vector<uint8_t> t(f.o.begin(), f.o.end()); return D(t); });
            add([&] { std::string t = f.o; D d{std::string_view(t)}; D e; e = std::move(d); return e; });
            return o + ",\"tab\":" + number_table({f.o, compact, pretty}) + ",\"nodes\":[" + nodes + "],\"texts\":[" + bytes_of(compact) + "," + bytes_of(pretty) + "]}";
        }
        std::string st = "["; try { D d = open_view<D>(h); hop(st, g, d, 1 + g.below(4)); } catch (...) { st += ",[\"X\",\"X\",[]]"; }
        return o + ",\"tab\":" + number_table({f.o}) + ",\"steps\":[" + st.substr(1) + "]}";
    });
}
