// C18: threads that read the same messages and serialize the same values, watched by
// ThreadSanitizer; and serialization after arbitrary other work.
#include "common.hpp"
#include "protocols.hpp"
#include "tensors.hpp"
#include <barrier>
#include <thread>
#include <zerialize/dynamic.hpp>
#include <zerialize/translate.hpp>
#include <zerialize/zbuilders.hpp>
#include <zerialize/internals/base64.hpp>
using namespace drv;
namespace z = zerialize;

static z::dyn::Value to_dyn(const V& v) {
    using D = z::dyn::Value;
    switch (v.t) {
    case 'n': return D(); case 'b': return D(v.b); case 'i': return D(static_cast<long long>(v.i)); case 'u': return D(static_cast<unsigned long long>(v.u)); case 'd': return D(v.d_());
    case 's': return D(v.s); case 'x': return D::blob(as_bytes(v.s));
    case 'a': { D::Array a; for (auto& c : v.a) a.push_back(to_dyn(c)); return D::array(a); }
    default: { D::Map m; for (auto& [k, c] : v.m) m.emplace_back(k, to_dyn(c)); return D::map(m); }
    }
}
static std::string dig(std::string_view s) { char b[40]; snprintf(b, sizeof b, "\"%zu:%016llx\"", s.size(), (unsigned long long)fnv(s)); return b; }
static std::string bytes_of(const z::ZBuffer& b) { return std::string(reinterpret_cast<const char*>(b.data()), b.size()); }
// the driver's own Base64
static std::string b64(const std::string& s) {
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
    for (size_t i = 0; i < s.size(); i += 3) { uint32_t w = (unsigned char)s[i] << 16; if (i + 1 < s.size()) w |= (unsigned char)s[i + 1] << 8; if (i + 2 < s.size()) w |= (unsigned char)s[i + 2]; o += A[w >> 18]; o += A[w >> 12 & 63]; o += i + 1 < s.size() ? A[w >> 6 & 63] : '='; o += i + 2 < s.size() ? A[w & 63] : '='; }
    return o;
}
// memory that will be handed out again, full of something
static void litter(Rng& g) { std::vector<std::unique_ptr<char[]>> k; for (int i = 0; i < 12; ++i) { size_t n = 8 + g.below(2000); k.emplace_back(new char[n]); std::memset(k.back().get(), int(g.next()), n); } }

template <class P> struct Work {
    using D = typename P::Deserializer; using Sub = std::remove_cvref_t<decltype(std::declval<const D&>()[size_t(0)])>;
    const std::vector<V>& vs; const std::vector<z::dyn::Value>& dyns; const D& shared; const std::vector<Sub>& subs; const D& tensor; std::string blob; 
    std::string put(int q, size_t k, int how) const {
        std::string out;
        with_proto(q, [&]<class Q>(Q) {
            try {
                if (how == 0) { std::string b; out = write_value_bytes<Q>(vs[k], b); if (out == "ok") out = dig(b); else out = "\"" + out + "\""; }
                else if (how == 1) out = dig(bytes_of(z::serialize<Q>(dyns[k])));
                else { typename Q::RootSerializer rs{}; typename Q::Serializer w{rs}; using z::serialize; serialize(dyns[k], w); out = dig(bytes_of(rs.finish())); }
            } catch (const z::SerializationError&) { out = "\"S\""; }
        });
        return out;
    }
    void step(Rng& g, std::string& o) const {
        auto add = [&](const std::string& s) { if (!o.empty()) o += ','; o += s; };
        int q = int(g.below(3)); size_t k = g.below(vs.size());
        switch (g.below(11)) {
        case 0: case 1: case 2: { int how = int(g.below(3)); add("[\"w\",\"" + std::to_string(q) + "/" + std::to_string(k) + "\"," + put(q, k, how) + "]"); break; }
        case 3: { std::string n; j_node(n, shared); add("[\"r\"," + n + "]"); break; }
        case 4: { D copy = shared; D other = copy; std::string n; j_node(n, g.chance(50) ? copy : other); add("[\"r\"," + n + "]"); break; }
        case 5: if (subs.empty()) break; { size_t i = g.below(subs.size()); std::string n; j_node(n, subs[i]); add("[\"s\"," + std::to_string(i + 1) + "," + n + "]"); break; }
        case 6: with_proto(q, [&]<class Q>(Q) { std::string n, st = "ok"; try { auto t = z::translate<Q>(shared); n = ","; j_node(n, t); } catch (const z::SerializationError&) { st = "S"; } catch (...) { st = "X"; } add("[\"t\",\"" + std::string(pcode<Q>) + "\",\"" + st + "\"" + n + "]"); }); break;
        case 7: { std::string t; try { t = dig(shared.to_string()); } catch (const z::DeserializationError&) { t = "\"D\""; } add("[\"w\",\"text\"," + t + "]"); break; }
        case 8: { std::string e = z::base64Encode(as_bytes(blob)); auto d = z::base64Decode(e); add("[\"w\",\"b64\"," + dig(e + "|" + std::string(reinterpret_cast<const char*>(d.data()), d.size())) + "]"); break; }
        case 9: { auto a = z::xtensor::asXTensor<double, 2>(tensor[size_t(0)]); auto v = z::xtensor::asXTensorView<double, 2>(tensor[size_t(0)]); add("[\"w\",\"xt\"," + dig(x_bytes(a)) + "],[\"w\",\"xt\"," + dig(x_bytes(v.tensor())) + "]"); break; }
        default: { auto m = z::eigen::asEigenMatrix<float, 2, 3>(tensor[size_t(1)]); auto v = z::eigen::asEigenMatrixView<float, 2, 3>(tensor[size_t(1)]); add("[\"w\",\"ei\"," + dig(e_bytes(m)) + "],[\"w\",\"ei\"," + dig(e_bytes(v.map())) + "]"); }
        }
        if (g.chance(30)) std::this_thread::yield();
    }
};

int main(int argc, char** argv) {
    return run_cases(argc, argv, scale(10000, 30000), [&](size_t id) {
        Rng g(seed(), id);
        GenOpt go; go.maxdepth = 3; go.midpct = 4; go.nulkeys = id % 10 == 9; go.maxfan = 6;
        std::vector<V> vs; for (int i = 0; i < 3; ++i) vs.push_back(gen_value(g, go));
        if (id % 3 != 2 || !go.nulkeys) {} else for (auto& v : vs) { GenOpt h = go; h.nulkeys = false; v = gen_value(g, h); }
        for (int tries = 0; tries < 20 && vs[0].t != 'a' && vs[0].t != 'm'; ++tries) { GenOpt h = go; if (id % 3 == 2) h.nulkeys = false; vs[0] = gen_value(g, h); }
        std::vector<z::dyn::Value> dyns; for (auto& v : vs) dyns.push_back(to_dyn(v));
        std::string o = "{\"id\":" + std::to_string(id) + ",";
        with_proto(int(id % 3), [&]<class P>(P) {
            using W = Work<P>; using D = typename P::Deserializer;
            std::string b; std::string open = write_value_bytes<P>(vs[0], b);
            Heap h(b); std::vector<uint8_t> vec(b.begin(), b.end());
            xt::xtensor<double, 2> xt_({2, 3}); for (auto& e : xt_) e = double(g.below(1000)) / 8; Eigen::Matrix<float, 2, 3> em; for (int i = 0; i < 6; ++i) em.data()[i] = float(g.below(1000)) / 4;
            std::string tb = bytes_of(z::serialize<P>(z::zvec(xt_, em))); Heap th(tb, g.below(2) * 8);
            std::string xtb = x_bytes(xt_), emb = e_bytes(em); std::string blob = gen_bytes(g, g.below(40));
            o += "\"p\":\"" + std::string(pcode<P>) + "\",\"open\":\"" + open + "\",\"v\":"; j_value(o, vs[0]); o += "," + j_facts(vs[0]) + ",\"subs\":[";
            if (open != "ok") { o += "],\"know\":[],\"threads\":[]}"; return; }
            D shared = id % 2 ? D(vec) : D(h.span()); D tensor(th.span());
            std::vector<typename W::Sub> subs; 
            { bool first = true; if (vs[0].t == 'a') for (size_t i = 0; i < std::min<size_t>(3, vs[0].a.size()); ++i) { subs.push_back(shared[i]); if (!first) o += ','; first = false; j_value(o, vs[0].a[i]); }
              if (vs[0].t == 'm') for (size_t i = 0; i < std::min<size_t>(3, vs[0].m.size()); ++i) { subs.push_back(shared[std::string_view(vs[0].m[i].first)]); if (!first) o += ','; first = false; j_value(o, vs[0].m[i].second); } }
            W w{vs, dyns, shared, subs, tensor, blob};
            // what is known before: from the driver itself, and from the same work done alone
            std::string alone; const bool solo = id % 4 != 3;
            if (solo) { Rng ga(seed(), 900000000 + id); for (int i = 0; i < 8; ++i) { litter(ga); w.step(ga, alone); } }
            o += "],\"know\":[[\"w\",\"b64\"," + dig(b64(blob) + "|" + blob) + "],[\"w\",\"xt\"," + dig(xtb) + "],[\"w\",\"ei\"," + dig(emb) + "]],\"threads\":[[" + alone + "]";
            const int T = solo && id % 4 == 2 ? 0 : 3; std::vector<std::string> outs(3); std::vector<std::thread> ts; std::barrier sync(T ? T : 1);
            for (int t = 0; t < T; ++t) ts.emplace_back([&, t] { Rng gt(seed(), 1000000000 + id * 8 + t); std::string r; sync.arrive_and_wait(); for (int i = 0; i < 10; ++i) { try { w.step(gt, r); } catch (...) { r += std::string(r.empty() ? "" : ",") + "[\"x\"]"; } } outs[t] = std::move(r); });
            for (auto& t : ts) t.join();
            for (int t = 0; t < T; ++t) o += ",[" + outs[t] + "]";
            if (!T) { Rng gz(seed(), 800000000 + id); std::string r; for (int i = 0; i < 14; ++i) { litter(gz); // work that fails half way, then again
                try { typename P::RootSerializer rs{}; typename P::Serializer s{rs}; s.begin_map(3); s.key("left open"); s.begin_array(1); s.string(gen_bytes(gz, gz.below(60))); if (gz.chance(50)) { s.end_map(); } } catch (...) {}
                try { z::serialize<z::Zera>(z::dyn::map({{std::string(70000, 'k'), 1}})); } catch (const z::SerializationError&) {}
                w.step(gz, r); } o += ",[" + r + "]"; }
            o += "]}";
        });
        return o;
    });
}
