// C07: what the MsgPack writer produces, and how the reader reads foreign well-formed messages.
#include "common.hpp"
#include "protocols.hpp"
#include "mp_gen.hpp"
using namespace drv;
using P = zerialize::MsgPack;
using D = P::Deserializer;

static std::vector<V> fixed_cases() {
    std::vector<V> c{V::null(), V::boolean(true), V::boolean(false)};
    for (auto& v : boundary_ints()) c.push_back(v);
    for (auto& v : boundary_doubles()) c.push_back(v);
    Rng g(11);
    for (size_t n : {0, 1, 5, 15, 16, 17, 31, 32, 33, 127, 128, 255, 256, 257, 400}) {
        c.push_back(V::str(gen_bytes(g, n))); c.push_back(V::blob(gen_bytes(g, n)));
        c.push_back(V::map({{gen_bytes(g, n), V::blob(gen_bytes(g, n / 3))}, {"second key that is here", V::str("x")}}));
        V a; a.t = 'a'; for (size_t i = 0; i < n; ++i) a.a.push_back(V::uint(i)); c.push_back(a);
        V m; m.t = 'm'; for (size_t i = 0; i < n && i < 300; ++i) m.m.emplace_back("k" + std::to_string(i), V::sint(-int64_t(i))); c.push_back(m);
    }
    return c;
}
static const size_t Bigs[] = {65534, 65535, 65536, 65537, 100000};

static std::string big_case(size_t k) {
    // kinds s x a m; sizes; k/20 = 0: writer, 1..: reader with each head form
    char kind = "sxam"[k % 4]; size_t n = Bigs[(k / 4) % 5]; size_t form = k / 20;
    V v; std::string body;
    Rng g(5);
    if (kind == 's') { v = V::str(gen_bytes(g, n)); body = v.s; }
    else if (kind == 'x') { v = V::blob(gen_bytes(g, n)); body = v.s; }
    else if (kind == 'a') { v.t = 'a'; v.a.assign(n, V::null()); body.assign(n, char(0xc0)); }
    else { v.t = 'm'; for (size_t i = 0; i < n; ++i) { char b[16]; std::snprintf(b, sizeof b, "k%06zu", i); v.m.emplace_back(b, V::null()); body += char(0xa7); body += b; body += char(0xc0); } }
    std::string o = "\"dir\":\"" + std::string(form == 0 ? "bigw" : "bigr") + "\",\"k\":\"" + kind + "\",\"n\":" + std::to_string(n) + ",\"body\":" + std::to_string(body.size());
    std::string bytes;
    if (form == 0) {
        std::string out = write_value_bytes<P>(v, bytes);
        o += ",\"out\":\"" + out + "\"";
        bool tail = bytes.size() >= body.size() && bytes.compare(bytes.size() - body.size(), body.size(), body) == 0;
        o += std::string(",\"tail\":") + (tail ? "true" : "false");
    } else {
        std::string h; size_t f = form; // 1: 16-bit head, 2: 32-bit head
        if (n > 65535) f = 2;
        static const int m16[] = {0xda, 0xc5, 0xdc, 0xde}, m32[] = {0xdb, 0xc6, 0xdd, 0xdf};
        h += char(f == 1 ? m16[k % 4] : m32[k % 4]); be(h, n, f == 1 ? 2 : 4);
        bytes = h + body;
        Heap hp(bytes);
        o += ",\"out\":";
        code(o, [&] {
            D d(hp.span()); bool same = true; size_t cnt = 0;
            if (kind == 's') { cnt = d.asStringView().size(); same = d.isString() && d.asStringView() == body; }
            else if (kind == 'x') { auto b = d.asBlob(); cnt = b.size(); same = d.isBlob() && blob_to_string(b) == body; }
            else if (kind == 'a') { cnt = d.arraySize(); same = d.isArray() && d[0].isNull() && d[n - 1].isNull() && d[n / 2].isNull(); try { d[n]; same = false; } catch (const zerialize::DeserializationError&) {} }
            else { for (std::string_view kk : d.mapKeys()) { char b[16]; std::snprintf(b, sizeof b, "k%06zu", cnt); same &= kk == b; ++cnt; } char b[16]; std::snprintf(b, sizeof b, "k%06zu", n - 1); same &= d.contains(b) && d[std::string_view(b)].isNull() && d[std::string_view("k000000")].isNull() && !d.contains("k9") && d.isMap(); }
            o += "[1," + std::to_string(cnt) + "," + (same ? "1" : "0") + "]";
        });
    }
    o += ",\"len\":" + std::to_string(bytes.size()) + ",\"pre\":"; j_bytes(o, bytes.substr(0, 6), true);
    return o;
}

int main(int argc, char** argv) {
    static auto fixed = fixed_cases();
    const size_t nbig = 60, nrand = scale(7000, 60000);
    return run_cases(argc, argv, nbig + 2 * (fixed.size() * 4 + nrand), [&](size_t id) {
        std::string o = "{\"id\":" + std::to_string(id) + ",";
        if (id < nbig) return o + big_case(id) + "}";
        size_t i = (id - nbig) / 2; bool w = (id - nbig) % 2 == 0;
        Rng g(seed(), id);
        V v;
        if (i < fixed.size() * 4) v = fixed[i / 4];
        else { Rng gv(seed(), 100000000 + i); GenOpt go; go.maxdepth = 1 + int(i % 3); go.midpct = 4; v = gen_value(gv, go); }
        if (w) {
            std::string b; std::string out = write_value_bytes<P>(v, b);
            o += "\"dir\":\"w\",\"v\":"; j_value(o, v, true); o += ",\"out\":\"" + out + "\",\"b\":"; j_bytes(o, b, true);
        } else {
            MpForge f(g, i % 3 == 0 ? 100 : i % 3 == 1 ? 50 : 15); f.val(v);
            o += "\"dir\":\"r\",\"b\":"; j_bytes(o, f.o, true);
            o += ",\"nodes\":[";
            Heap h(f.o, g.below(16)); std::string first;
            auto add = [&](auto&& mk) { std::string n; outcome(n, "[[],[\"E\",\"D\"]]", "[[],[\"E\",\"X\"]]", [&] { auto&& r = mk(); j_node(n, r, true); }); if (n != first) { if (!first.empty()) o += ','; o += n; if (first.empty()) first = n; } };
            add([&] { return D(h.span()); });
            add([&] { std::vector<uint8_t> t(f.o.begin(), f.o.end()); return D(t); });
            o += "]";
        }
        return o + "}";
    });
}
