// C10: tensors written, translated, read back.
#include "tensors.hpp"
#include <zerialize/dynamic.hpp>
#include <zerialize/translate.hpp>
#include <zerialize/zbuilders.hpp>
using namespace drv;
namespace z = zerialize;

// Some element types get every kind of source, the others the containers only (compile time).
template <class T> inline constexpr bool rich = std::is_same_v<T, std::int16_t> || std::is_same_v<T, double> || std::is_same_v<T, std::complex<float>>;
static std::string raw(const z::ZBuffer& b) { return std::string(b.buf().begin(), b.buf().end()); }
// Writing: alone or inside other data.
template <class P> static std::string write_dyn(const z::dyn::Value& x, int where) {
    switch (where) {
    case 0: return raw(z::serialize<P>(x));
    case 1: return raw(z::serialize<P>(z::dyn::array({"before", x, 7})));
    case 2: return raw(z::serialize<P>(z::dyn::map({{"a", "pad ding"}, {"t", x}})));
    case 3: return raw(z::serialize<P>(z::dyn::map({{"o", z::dyn::array({x, x})}})));
    default: return raw(z::serialize<P>(z::dyn::map({{"k", z::dyn::array({1, x, "tail"})}})));
    }
}
template <class P, class X> static std::string write_direct(const X& x, int where) {
    switch (where) {
    case 0: return raw(z::serialize<P>(x));
    case 1: return raw(z::serialize<P>(z::zvec(std::string("before"), x, 7)));
    case 2: return raw(z::serialize<P>(z::zmap<"a", "t">(std::string("pad ding"), x)));
    case 3: return raw(z::serialize<P>(z::zmap<"o">(z::zvec(x, x))));
    default: return raw(z::serialize<P>(z::zmap<"k">(z::zvec(1, x, "tail"))));
    }
}
template <class R, class F> static void at_place(const R& r, int where, F&& f) {
    switch (where) {
    case 0: f(r); break;
    case 1: f(r[size_t(1)]); break;
    case 2: f(r["t"]); break;
    case 3: f(r["o"][size_t(1)]); break;
    default: f(r["k"][size_t(1)]); break;
    }
}
template <class A, class B> static std::string tr(const std::string& b) {
    if constexpr (std::is_same_v<A, B>) return b;
    else { Heap h(b); typename A::Deserializer d(h.span()); typename B::RootSerializer rs; typename B::Serializer w{rs}; z::write_value(d, w); return raw(rs.finish()); }
}
template <class X> inline constexpr bool direct_too = std::is_same_v<X, xt::xarray<double>> || std::is_same_v<X, xt::xarray<std::int32_t>> || std::is_same_v<X, Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>>;
struct Case { int code; std::vector<size_t> shape; std::string data, order = "row", lib; };
template <class X> static std::string go(Rng& g, const X& x, const Case& c, auto&& readers) {
    int where = int(g.below(5)); std::string b; int first = g.chance(50) ? PROTO : int(g.below(3));
    z::dyn::Value dv = z::dyn::serializable(x);
    with_proto(first, [&]<class A>(A) {
        bool direct = false; if constexpr (direct_too<X>) if (g.chance(60)) { direct = true; b = write_direct<A>(x, where); }
        if (!direct) b = write_dyn<A>(dv, where);
        if (g.chance(25)) { b = tr<A, z::Flex>(b); b = tr<z::Flex, TP>(b); } else if (g.chance(25)) { b = tr<A, z::MsgPack>(b); b = tr<z::MsgPack, TP>(b); } else b = tr<A, TP>(b); });
    Heap h(b, PROTO == 2 ? 0 : g.below(3) ? 0 : g.below(16)); typename TP::Deserializer d(h.span());
    std::string o = "\"code\":" + std::to_string(c.code) + ",\"lib\":\"" + c.lib + "\",\"shape\":"; j_shape(o, c.shape);
    o += ",\"order\":\"" + c.order + "\",\"data\":"; j_bytes(o, c.data, true); o += ",\"node\":";
    at_place(d, where, [&](const auto& r) { j_node(o, r, true); o += ",\"reads\":["; readers(o, r); o += ']'; });
    return o;
}
// ---- xtensor sources: the driver lays out the elements itself
template <class T> static std::string x_case(Rng& g, int code) {
    static const size_t dims[] = {0, 1, 2, 3, 4, 5};
    size_t kind = rich<T> ? g.below(14) : g.below(4) < 2 ? 0 : g.chance(50) ? 2 : 5, rank = g.below(5); if (g.chance(10)) rank = 5 + g.below(8);
    Case c{code, {}, "", "row", "x" + std::to_string(kind)};
    auto dim = [&] { return g.chance(6) ? size_t(0) : g.pick(dims); };
    for (size_t i = 0; i < rank; ++i) c.shape.push_back(rank > 4 ? 1 + size_t(g.chance(rank > 8 ? 30 : 50)) : dim());
    if (g.chance(3)) c.shape = {1 + g.below(40), 1 + g.below(3)};
    if (g.chance(2)) { static const std::vector<std::vector<size_t>> wide{{127}, {128}, {255}, {256}, {257}, {1, 300}, {300, 1}, {0, 70000}, {70000, 0}, {2, 0, 65536}, {0, 100000000u}}; c.shape = g.pick(wide); }
    if (sizeof(T) == 1 && g.chance(2)) { static const std::vector<std::vector<size_t>> wide{{32768}, {65535}, {65536}, {65537, 1}, {1, 66000}}; c.shape = g.pick(wide); kind = 0; }
    auto rnd = [&](size_t n) { std::string s(n * sizeof(T), 0); for (auto& ch : s) ch = char(g.next()); return s; };
    // fill a container by logical index from row-major bytes
    auto fill = [&](auto& a, const std::string& d) { std::vector<size_t> shape(a.shape().begin(), a.shape().end()); std::vector<size_t> idx(shape.size(), 0); for (size_t k = 0; k < count_of(shape); ++k) { a.element(idx.begin(), idx.end()) = elem_from<T>(std::string_view(d).substr(k * sizeof(T), sizeof(T))); for (size_t q = shape.size(); q-- > 0;) { if (++idx[q] < shape[q]) break; idx[q] = 0; } } };
    // logical bytes of a view: element(idx) = base element(map(idx))
    auto pick_bytes = [&](const std::vector<size_t>& base, const std::string& d, auto map) { std::string out; std::vector<size_t> idx(c.shape.size(), 0); for (size_t k = 0; k < count_of(c.shape); ++k) { std::vector<size_t> bi = map(idx); size_t f = 0; for (size_t q = 0; q < base.size(); ++q) f = f * base[q] + bi[q]; out += d.substr(f * sizeof(T), sizeof(T)); for (size_t q = c.shape.size(); q-- > 0;) { if (++idx[q] < c.shape[q]) break; idx[q] = 0; } } return out; };
    auto readers = [&](std::string& o, const auto& r) {
        read_x<T, -1>(o, r);
        if constexpr (rich<T> || std::is_same_v<T, std::uint8_t>) switch (c.shape.size()) { case 0: o += ','; read_x<T, 0>(o, r); break; case 1: o += ','; read_x<T, 1>(o, r); break; case 2: o += ','; read_x<T, 2>(o, r); break; case 3: o += ','; read_x<T, 3>(o, r); break; default: break; }
    };
    auto base = [&](std::vector<size_t> s, std::string& d) { auto a = xt::xarray<T>::from_shape(s); d = rnd(count_of(s)); fill(a, d); return a; };
    std::string d;
    switch (kind) {
    case 0: case 1: { auto a = base(c.shape, c.data); return go(g, a, c, readers); }
    case 2: { auto a = xt::xarray<T, xt::layout_type::column_major>::from_shape(c.shape); c.data = rnd(count_of(c.shape)); fill(a, c.data); return go(g, a, c, readers); }
    case 5: { c.data = rnd(count_of(c.shape)); std::vector<T> mem(count_of(c.shape) + 1); if (!c.data.empty()) std::memcpy(static_cast<void*>(mem.data()), c.data.data(), c.data.size()); auto a = xt::adapt(mem.data(), count_of(c.shape), xt::no_ownership(), c.shape); return go(g, a, c, readers); }
    default: break;
    }
    if constexpr (rich<T>) switch (kind) {
    case 3: { c.shape = {dim(), dim()}; xt::xtensor<T, 2> a(std::array<size_t, 2>{c.shape[0], c.shape[1]}); c.data = rnd(count_of(c.shape)); fill(a, c.data); return go(g, a, c, readers); }
    case 4: { c.shape = {dim(), dim(), dim()}; xt::xtensor<T, 3, xt::layout_type::column_major> a(std::array<size_t, 3>{c.shape[0], c.shape[1], c.shape[2]}); c.data = rnd(count_of(c.shape)); fill(a, c.data); return go(g, a, c, readers); }
    case 6: { size_t lo = g.below(3), hi = g.below(2); c.shape = {dim(), dim()}; std::vector<size_t> b{c.shape[0] + lo + hi, c.shape[1]}; auto a = base(b, d); auto v = xt::view(a, xt::range(lo, lo + c.shape[0]), xt::all()); c.data = pick_bytes(b, d, [&](auto i) { return std::vector<size_t>{i[0] + lo, i[1]}; }); return go(g, v, c, readers); }
    case 7: { size_t lo = g.below(3), hi = g.below(2); c.shape = {dim(), dim()}; std::vector<size_t> b{c.shape[0], c.shape[1] + lo + hi}; auto a = base(b, d); auto v = xt::view(a, xt::all(), xt::range(lo, lo + c.shape[1])); c.data = pick_bytes(b, d, [&](auto i) { return std::vector<size_t>{i[0], i[1] + lo}; }); return go(g, v, c, readers); }
    case 8: { size_t n = 1 + g.below(4); c.shape = {n, 2}; std::vector<size_t> b{2 * n + g.below(2) , 4}; b[0] = 2 * n - g.below(2); auto a = base(b, d); auto v = xt::view(a, xt::range(0, b[0], 2), xt::range(1, 4, 2)); c.data = pick_bytes(b, d, [&](auto i) { return std::vector<size_t>{2 * i[0], 1 + 2 * i[1]}; }); return go(g, v, c, readers); }
    case 9: { c.shape = {1 + g.below(4), 1 + g.below(4)}; std::vector<size_t> b{c.shape[1], c.shape[0]}; auto a = base(b, d); auto v = xt::transpose(a); c.data = pick_bytes(b, d, [&](auto i) { return std::vector<size_t>{i[1], i[0]}; }); return go(g, v, c, readers); }
    case 10: { size_t row = g.below(3); c.shape = {1 + g.below(5)}; std::vector<size_t> b{3, c.shape[0]}; auto a = base(b, d); auto v = xt::view(a, row, xt::all()); c.data = pick_bytes(b, d, [&](auto i) { return std::vector<size_t>{row, i[0]}; }); return go(g, v, c, readers); }
    case 11: { size_t col = g.below(3); c.shape = {1 + g.below(5)}; std::vector<size_t> b{c.shape[0], 3}; auto a = base(b, d); auto v = xt::view(a, xt::all(), col); c.data = pick_bytes(b, d, [&](auto i) { return std::vector<size_t>{i[0], col}; }); return go(g, v, c, readers); }
    case 12: { c.shape = {1 + g.below(3), 1 + g.below(4)}; std::vector<size_t> b{c.shape[0], 2, c.shape[1]}; auto a = base(b, d); auto v = xt::strided_view(a, {xt::all(), 1, xt::all()}); c.data = pick_bytes(b, d, [&](auto i) { return std::vector<size_t>{i[0], 1, i[1]}; }); return go(g, v, c, readers); }
    default: { c.shape = {2 + g.below(3), 1 + g.below(3)}; auto a = base(c.shape, d); auto v = xt::view(a, xt::range(int(c.shape[0]) - 1, xt::placeholders::_, -1), xt::all()); c.data = pick_bytes(c.shape, d, [&](auto i) { return std::vector<size_t>{c.shape[0] - 1 - i[0], i[1]}; }); return go(g, v, c, readers); }
    }
    return "";
}
template <class T> static std::string e_case(Rng& g, int code) {
    size_t kind = rich<T> ? g.below(8) : g.chance(60) ? 0 : 2; Case c{code, {}, "", "col", "e" + std::to_string(kind)};
    size_t r = g.below(5), q = g.below(5);
    auto rnd = [&](size_t n) { std::string s(n * sizeof(T), 0); for (auto& ch : s) ch = char(g.next()); return s; };
    auto fill = [&](auto& m) { c.shape = {size_t(m.rows()), size_t(m.cols())}; c.data = rnd(count_of(c.shape)); size_t k = 0; for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j, ++k) m(i, j) = elem_from<T>(std::string_view(c.data).substr(k * sizeof(T), sizeof(T))); };
    constexpr int Dn = Eigen::Dynamic;
    switch (kind) {
    case 0: case 1: { Eigen::Matrix<T, Dn, Dn> m(r, q); fill(m); return go(g, m, c, [&](std::string& o, const auto& x) { read_e<T, Dn, Dn, Eigen::ColMajor>(o, x); }); }
    case 2: { Eigen::Matrix<T, Dn, Dn, Eigen::RowMajor> m(r, q); c.order = "row"; fill(m); return go(g, m, c, [&](std::string& o, const auto& x) { read_e<T, Dn, Dn, Eigen::RowMajor>(o, x); o += ','; read_x<T, 2>(o, x); }); }
    default: break;
    }
    if constexpr (rich<T>) switch (kind) {
    case 3: { Eigen::Matrix<T, 2, 3> m; fill(m); return go(g, m, c, [&](std::string& o, const auto& x) { read_e<T, 2, 3, Eigen::ColMajor>(o, x); o += ','; read_e<T, Dn, Dn, Eigen::ColMajor>(o, x); }); }
    case 4: { Eigen::Matrix<T, 3, 2, Eigen::RowMajor> m; c.order = "row"; fill(m); return go(g, m, c, [&](std::string& o, const auto& x) { read_e<T, 3, 2, Eigen::RowMajor>(o, x); }); }
    case 5: { Eigen::Matrix<T, Dn, 1> m(r); fill(m); return go(g, m, c, [&](std::string& o, const auto& x) { read_e<T, Dn, 1, Eigen::ColMajor>(o, x); o += ','; read_e<T, Dn, Dn, Eigen::ColMajor>(o, x); }); }
    case 6: { Eigen::Matrix<T, 1, Dn, Eigen::RowMajor> m(q); c.order = "row"; fill(m); return go(g, m, c, [&](std::string& o, const auto& x) { read_e<T, 1, Dn, Eigen::RowMajor>(o, x); }); }
    default: { Eigen::Matrix<T, 4, Dn> m(4, q); fill(m); return go(g, m, c, [&](std::string& o, const auto& x) { read_e<T, 4, Dn, Eigen::ColMajor>(o, x); }); }
    }
    return "";
}
int main(int argc, char** argv) {
    return run_cases(argc, argv, scale(20000, 80000), [&](size_t id) {
        Rng g(seed(), id * 3 + PROTO); int code = dtype_codes()[id % 13]; std::string body;
        with_type(code, [&]<class T>(Ty<T>) { if constexpr (for_eigen<T>) if (id / 13 % 3 == 0) { body = e_case<T>(g, code); return; } body = x_case<T>(g, code); });
        return "{\"id\":" + std::to_string(id) + "," + body + "}";
    });
}
