// C12: where the strings, keys, blobs and tensor data obtained from a non-owning reader lie.
#include "tensors.hpp"
using namespace drv;
namespace z = zerialize;

struct Where { const uint8_t* lo; size_t n; long of(const void* p, size_t len) const { auto q = static_cast<const uint8_t*>(p); return q && q >= lo && q + len <= lo + n ? long(q - lo) : -1; } };
static void piece(std::string& o, const char* kind, const Where& w, const void* p, size_t n) {
    if (o.back() != '[') o += ','; o += "[\""; o += kind; o += "\"," + std::to_string(w.of(p, n)) + ","; j_bytes(o, std::string_view(static_cast<const char*>(p), n), true); o += ']';
}
// every string, key and blob in the order of the value
template <class R> static void pieces(std::string& o, const Where& w, const V& v, const R& r) {
    switch (v.t) {
    case 's': { std::string_view s = r.asStringView(); piece(o, "s", w, s.data(), s.size()); break; }
    case 'x': { auto b = r.asBlob(); piece(o, "x", w, b.data(), b.size()); break; }
    case 'a': for (size_t i = 0; i < v.a.size(); ++i) pieces(o, w, v.a[i], r[i]); break;
    case 'm': {
        std::map<std::string, std::string_view> ks; { auto kv = r.mapKeys(); for (std::string_view k : kv) ks.emplace(std::string(k), k); }
        for (auto& [k, c] : v.m) { auto it = ks.find(k); if (it == ks.end()) { o += (o.back() != '[' ? std::string(",") : std::string()) + "[\"missing key\",-1,[]]"; continue; } piece(o, "k", w, it->second.data(), it->second.size()); pieces(o, w, c, r[std::string_view(k)]); }
        break;
    }
    default: break;
    }
}
static std::string strings_case(Rng& g, size_t base) {
    GenOpt go; go.nulkeys = false; go.midpct = 6; go.maxfan = 4; V v;
    do v = gen_value(g, go); while (v.t != 'a' && v.t != 'm' && v.t != 's' && v.t != 'x');
    std::string b; if (write_value_bytes<TP>(v, b) != "ok") return "\"skip\":1";
    std::string o = "\"v\":"; j_value(o, v, true); o += ",\"bytes\":"; j_bytes(o, b, true); o += ",\"views\":[";
    Heap h(b, base); auto d = open_view<typename TP::Deserializer>(h, g.below(3)); pieces(o, {h.p, h.n}, v, d);
    return o + "]";
}
struct Tn { int code; std::vector<size_t> shape; std::string data; };
// message holding the tensor after other data that shifts it about
static V around(Rng& g, const V& t, std::vector<std::string>& path) {
    V out = t; size_t deep = g.below(3);
    auto filler = [&]() -> V { switch (g.below(4)) { case 0: return V::str(gen_bytes(g, g.below(30))); case 1: return V::blob(gen_bytes(g, g.below(40))); case 2: return V::sint(int64_t(g.next())); default: return V::null(); } };
    for (size_t i = 0; i < deep; ++i) {
        if (g.chance(50)) { V a = V::arr({}); size_t n = g.below(3); for (size_t k = 0; k < n; ++k) a.a.push_back(filler()); a.a.push_back(out); if (g.chance(40)) a.a.push_back(filler()); out = a; path.insert(path.begin(), "#" + std::to_string(n)); }
        else { V m = V::map({}); size_t n = g.below(3); for (size_t k = 0; k < n; ++k) m.m.emplace_back(std::string(1 + g.below(5), char('a' + k)), filler()); m.m.emplace_back("tensor", out); out = m; path.insert(path.begin(), "tensor"); }
    }
    return out;
}
template <class R, class F> static void follow(const R& r, const std::vector<std::string>& path, size_t i, F&& f) {
    if (i == path.size()) { f(r); return; }
    if (path[i][0] == '#') follow(r[size_t(std::stoul(path[i].substr(1)))], path, i + 1, f); else follow(r[std::string_view(path[i])], path, i + 1, f);
}
static void info(std::string& o, const Where& w, const z::tensor::TensorViewInfo& i, size_t want) {
    o += ",\"zc\":"; o += i.zero_copy ? "true" : "false"; o += ",\"reason\":\""; o += i.reason == z::tensor::TensorViewReason::Ok ? "ok" : i.reason == z::tensor::TensorViewReason::Misaligned ? "misaligned" : "not span"; o += "\"";
    o += ",\"req\":" + std::to_string(i.required_alignment) + ",\"addr\":" + std::to_string(w.of(reinterpret_cast<const void*>(i.address), want)) + ",\"amod\":" + std::to_string(i.address % 16) + ",\"size\":" + std::to_string(i.byte_size);
}
static std::string tensor_case(Rng& g, size_t base, int code) {
    return with_type(code, [&]<class T>(Ty<T>) {
        bool eig = false; if constexpr (for_eigen<T>) eig = g.chance(40);
        std::vector<size_t> shape; size_t rank = eig ? 2 : g.below(4); for (size_t i = 0; i < rank; ++i) shape.push_back(g.chance(7) ? 0 : 1 + g.below(3));
        std::string data = gen_bytes(g, count_of(shape) * sizeof(T)); std::vector<V> dims; for (auto d : shape) dims.push_back(V::uint(d));
        std::vector<std::string> path; V v = around(g, V::arr({V::sint(code), V::arr(dims), V::blob(data)}), path);
        std::string b; write_value_bytes<TP>(v, b);
        auto h = std::make_unique<Heap>(b, base); auto d = open_view<typename TP::Deserializer>(*h, g.below(3)); Where w{h->p, h->n};
        std::string o = "\"code\":" + std::to_string(code) + ",\"lib\":\"" + (eig ? "e" : "x") + "\",\"shape\":"; j_shape(o, shape); o += ",\"data\":"; j_bytes(o, data, true);
        auto show = [&](auto& view, auto access, auto bytes) { // bytes of the blob, where the elements are, and again after copies and moves and the buffer's end
            using VT = std::remove_cvref_t<decltype(view)>;
            follow(d, path, 0, [&](const auto& r) { auto bl = r[size_t(2)].asBlob(); o += ",\"off\":" + std::to_string(w.of(bl.data(), bl.size())) + ",\"bmod\":" + std::to_string(reinterpret_cast<uintptr_t>(bl.data()) % 16); });
            info(o, w, view.viewInfo(), data.size());
            auto place = [&](const VT& x) { o += '['; const void* p = access(x); o += std::to_string(w.of(p, data.size())) + "," + std::to_string(reinterpret_cast<uintptr_t>(p) % alignof(T)) + ","; j_bytes(o, bytes(x), true); o += ']'; };
            bool zc = view.viewInfo().zero_copy; o += ",\"places\":["; place(view);
            { auto c = std::make_unique<VT>(view); auto m = std::make_unique<VT>(std::move(*c)); c.reset(); o += ','; place(*m); }
            if (!zc) { h.reset(); o += ','; place(view); } // owns its copy
            o += ']';
        };
        if constexpr (for_eigen<T>) if (eig) {
            std::optional<z::eigen::EigenMatrixView<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>> view;
            follow(d, path, 0, [&](const auto& r) { view.emplace(z::eigen::asEigenMatrixView<T, Eigen::Dynamic, Eigen::Dynamic, false, Eigen::RowMajor>(r)); });
            show(*view, [](const auto& x) -> const void* { return x.map().data(); }, [](const auto& x) { return e_bytes(x.map()); }); return o;
        }
        std::optional<z::xtensor::XTensorView<T>> view;
        follow(d, path, 0, [&](const auto& r) { view.emplace(z::xtensor::asXTensorView<T>(r)); });
        show(*view, [](const auto& x) -> const void* { return x.tensor().data(); }, [](const auto& x) { return x_bytes(x.tensor()); }); return o;
    });
}
int main(int argc, char** argv) {
    const size_t ns = scale(5000, 20000), nt = scale(13312, 60000);
    return run_cases(argc, argv, ns + nt, [&](size_t id) {
        Rng g(seed(), id * 3 + PROTO); size_t base = id % 16; std::string head = "{\"id\":" + std::to_string(id) + ",\"p\":\"" + pcode<TP> + "\",\"base\":" + std::to_string(base) + ",";
        if (id < ns) return head + "\"what\":\"strings\"," + strings_case(g, base) + "}";
        return head + "\"what\":\"tensor\"," + tensor_case(g, base, dtype_codes()[id / 16 % 13]) + "}";
    });
}
