// C11: well-formed, malformed and corrupted tensor messages read as tensors in many ways.
#include "tensors.hpp"
#include "vjson.hpp"
#include <fstream>
using namespace drv;
namespace z = zerialize;

template <class R> static void all_requests(std::string& o, const R& r) { // as Reqs in TraceC11.tla
    constexpr int Dn = Eigen::Dynamic, Col = Eigen::ColMajor, Row = Eigen::RowMajor; using cd = std::complex<double>;
    auto c = [&] { o += ','; };
    read_x<std::int8_t, -1>(o, r); c(); read_x<std::int8_t, 2>(o, r); c(); read_x<float, -1>(o, r); c(); read_x<float, 2>(o, r); c();
    read_x<float, 1>(o, r); c(); read_x<double, -1>(o, r); c(); read_x<double, 3>(o, r); c(); read_x<double, 0>(o, r); c();
    read_x<cd, -1>(o, r); c(); read_x<cd, 2>(o, r); c(); read_x<std::int32_t, -1>(o, r); c(); read_x<xtl::half_float, -1>(o, r); c();
    read_e<std::int8_t, Dn, Dn, Col>(o, r); c(); read_e<float, Dn, Dn, Col>(o, r); c(); read_e<float, 2, 3, Col>(o, r); c(); read_e<double, Dn, Dn, Row>(o, r); c();
    read_e<double, 2, Dn, Col>(o, r); c(); read_e<double, Dn, 3, Col>(o, r); c(); read_e<cd, Dn, Dn, Col>(o, r); c(); read_e<std::int8_t, 3, 2, Row>(o, r);
}
// the requests of a tensor given as a map, as MapReqs in TraceC11.tla
template <class R> static void map_requests(std::string& o, const R& r) {
    constexpr int Dn = Eigen::Dynamic, Col = Eigen::ColMajor, Row = Eigen::RowMajor; using cd = std::complex<double>;
    auto c = [&] { o += ','; };
    read_x<std::int8_t, -1, true>(o, r); c(); read_x<float, -1, true>(o, r); c(); read_x<float, 2, true>(o, r); c(); read_x<double, -1, true>(o, r); c(); read_x<double, 1, true>(o, r); c(); read_x<cd, -1, true>(o, r); c();
    read_e<std::int8_t, Dn, Dn, Col, true>(o, r); c(); read_e<float, Dn, Dn, Col, true>(o, r); c(); read_e<float, 2, 3, Col, true>(o, r); c(); read_e<double, Dn, Dn, Row, true>(o, r); c(); read_e<cd, Dn, Dn, Col, true>(o, r);
}
template <class R> static void map_is(std::string& o, const R& r) {
    is_tensor<std::int8_t, true>(o, r); o += ','; is_tensor<float, true>(o, r); o += ','; is_tensor<double, true>(o, r); o += ','; is_tensor<std::complex<double>, true>(o, r); o += ','; is_tensor<std::int32_t, true>(o, r); o += ','; is_tensor<std::uint64_t, true>(o, r);
}
// The parts of a tensor message as a map, in some order, sometimes with more entries, one missing or one misnamed.
static V as_map(Rng& g, const V& v) {
    if (v.t != 'a' || v.a.size() > 3 || g.chance(2)) return v;
    static const char* names[] = {"dtype", "shape", "data"}; static const char* wrong[] = {"Dtype", "shap", "data ", "", "type", "dims", "datas", "shape2"};
    V m; m.t = 'm';
    for (size_t i = 0; i < v.a.size(); ++i) if (!g.chance(3)) m.m.emplace_back(g.chance(3) ? g.pick(wrong) : names[i], v.a[i]);
    for (size_t k = g.below(3); k--;) { std::string key = g.chance(30) ? std::string(g.pick(wrong)) : "extra" + std::to_string(k) + std::string(g.below(100), 'e'); bool dup = false; for (auto& e : m.m) dup |= e.first == key; if (!dup) m.m.emplace_back(key, g.chance(50) ? V::null() : V::str("x")); }
    for (size_t i = m.m.size(); i > 1; --i) std::swap(m.m[i - 1], m.m[g.below(i)]);
    for (size_t i = 0; i < m.m.size(); ++i) for (size_t j = 0; j < i; ++j) if (m.m[i].first == m.m[j].first) m.m[i].first += std::to_string(i);
    return m;
}
template <class R> static void all_is(std::string& o, const R& r) { // as IsCodes in TraceC11.tla
    is_tensor<std::int8_t>(o, r); o += ','; is_tensor<float>(o, r); o += ','; is_tensor<double>(o, r); o += ','; is_tensor<std::complex<double>>(o, r); o += ','; is_tensor<std::int32_t>(o, r); o += ','; is_tensor<std::uint64_t>(o, r);
}
// what the plain reader shows, to the depth that matters here
template <class R> static void shown(std::string& o, const R& r, int depth) {
    outcome(o, "[\"E\"]", "[\"E\"]", [&] {
        if (r.isInt()) { std::string w; j_le(w, uint64_t(r.asInt64())); o += "[\"i\"," + w + "]"; }
        else if (r.isUInt()) { std::string w; j_le(w, r.asUInt64()); o += "[\"u\"," + w + "]"; }
        else if (r.isBlob()) { auto b = r.asBlob(); o += "[\"x\","; j_bytes(o, blob_to_string(b), true); o += ']'; }
        else if (r.isArray()) {
            size_t n = r.arraySize();
            if (depth >= 2 || (depth == 1 && n > 20)) { o += "[\"A\"]"; return; }
            if (depth == 0 && n > 4) n = 4;
            o += "[\"a\",["; for (size_t i = 0; i < n; ++i) { if (i) o += ','; size_t mark = o.size(); outcome(o, "[\"E\"]", "[\"E\"]", [&] { shown(o, r[i], depth + 1); }); (void)mark; } o += "]]";
        }
        else o += r.isString() ? "[\"s\",[]]" : r.isMap() ? "[\"m\",[]]" : "[\"n\"]";
    });
}
static std::vector<std::string> load(const char* path) { std::vector<std::string> v; std::ifstream in(path); std::string ln; while (std::getline(in, ln)) v.push_back(ln); return v; }
static V random_tensor(Rng& g) {
    static const int codes[] = {0, 10, 11, 13, 2, 14}; int code = g.pick(codes); std::vector<V> dims; size_t n = 1, rank = g.below(4);
    for (size_t i = 0; i < rank; ++i) { size_t d = g.chance(10) ? 0 : 1 + g.below(3); n *= d; dims.push_back(g.chance(80) ? V::uint(d) : V::sint(int64_t(d))); }
    V b = V::blob(gen_bytes(g, n * size_of(code))); if (g.chance(10)) b.s += 'z'; if (g.chance(10) && !b.s.empty()) b.s.pop_back();
    std::vector<V> a{V::sint(code), V::arr(dims), b}; if (g.chance(10)) a.push_back(V::null()); if (g.chance(5)) std::swap(a[0], a[2]);
    return V::arr(a);
}
int main(int argc, char** argv) {
    static auto scripts = load(argv[1]);
    const size_t ns = scripts.size(), nr = scale(2000, 8000), nc = PROTO == 2 ? 0 : scale(8000, 40000), nv = scale(1000,4000), nm = ns + scale(4000, 12000);
    return run_cases(argc, argv, ns + nr + nc + nv + nm, [&](size_t id) {
        Rng g(seed(), id * 3 + PROTO); std::string o = "{\"id\":" + std::to_string(id) + ",\"v\":";
        if (id >= ns + nr + nc + nv) { // tensors as maps
            size_t k = id - (ns + nr + nc + nv); V v = as_map(g, k < ns ? parse_value(scripts[k]) : random_tensor(g));
            std::string b; if (write_value_bytes<TP>(v, b) != "ok") return "{\"id\":" + std::to_string(id) + ",\"crash\":\"cannot write\"}";
            Heap h(b, PROTO == 2 ? 0 : g.below(16)); typename TP::Deserializer d(h.span());
            j_value(o, v, true); o += ",\"map\":1,\"out\":["; map_requests(o, d); o += "],\"is\":["; map_is(o, d);
            if (k % 4 == 0 && PROTO != 2) { // damaged: an outcome or a report, nothing else
                std::string e = b; for (size_t n = 1 + g.below(3); n--;) { if (e.empty()) break; e[g.below(e.size())] = char(g.below(256)); } if (g.chance(20)) e.resize(g.below(e.size() + 1));
                Heap h2(e, g.below(16)); std::string w; try { typename TP::Deserializer d2(h2.span()); map_requests(w, d2); } catch (const z::DeserializationError&) {} if (w.find("[\"X\"") != std::string::npos) o += "],\"stray\":[1"; }
            return o + "]}";
        }
        V v = id < ns ? parse_value(scripts[id]) : id < ns + nr + nc ? random_tensor(g) : gen_value(g, [] { GenOpt g; g.nulkeys = false; g.midpct = 0; return g; }());
        std::string b; if (write_value_bytes<TP>(v, b) != "ok") return "{\"id\":" + std::to_string(id) + ",\"crash\":\"cannot write\"}";
        if (id >= ns + nr && id < ns + nr + nc) { // corrupt a few bytes or cut the end off
            if (g.chance(15)) b.resize(g.below(b.size() + 1));
            else for (size_t k = 1 + g.below(3); k--;) { static const int vals[] = {0, 1, 2, 3, 7, 8, 16, 0x7f, 0x80, 0xff, 0x93, 0xdc, 0xdd, 0xc4, 0xc6}; if (b.empty()) break; size_t at = g.below(b.size()); if (g.chance(60)) b[at] = char(g.pick(vals)); else b[at] = char(b[at] + (g.chance(50) ? 1 : -1)); }
            Heap h(b, g.below(16)); std::string w;
            try {
                typename TP::Deserializer d(h.span());
                shown(o, d, 0); o += ",\"raw\":1,\"out\":["; all_requests(o, d); o += "],\"is\":["; all_is(o, d); return o + "]}";
            } catch (const z::DeserializationError&) { return "{\"id\":" + std::to_string(id) + ",\"skipped\":true}"; }
        }
        j_value(o, v, true); o += ",\"out\":[";
        Heap h(b, PROTO == 2 ? 0 : g.below(16)); typename TP::Deserializer d(h.span()); all_requests(o, d); o += "],\"is\":["; all_is(o, d);
        return o + "]}";
    });
}
