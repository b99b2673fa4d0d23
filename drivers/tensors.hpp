// Shared by the tensor drivers: element types by code, bytes of elements in index order.
#pragma once
#include "common.hpp"
#include "protocols.hpp"
#include <complex>
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
#include <xtensor/xview.hpp>
#include <xtensor/xstrided_view.hpp>
#include <xtensor/xmanipulation.hpp>
namespace drv {
#ifndef PROTO
#define PROTO 0
#endif
using TP = std::conditional_t<PROTO == 0, zerialize::Zera, std::conditional_t<PROTO == 1, zerialize::MsgPack, zerialize::Flex>>;
inline const std::vector<int>& dtype_codes() { static std::vector<int> v{0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14}; return v; }
template <class T> struct Ty { using type = T; };
template <class F> auto with_type(int code, F&& f) {
    switch (code) {
    case 0: return f(Ty<std::int8_t>{}); case 1: return f(Ty<std::int16_t>{}); case 2: return f(Ty<std::int32_t>{}); case 3: return f(Ty<std::int64_t>{});
    case 4: return f(Ty<std::uint8_t>{}); case 5: return f(Ty<std::uint16_t>{}); case 6: return f(Ty<std::uint32_t>{}); case 7: return f(Ty<std::uint64_t>{});
    case 10: return f(Ty<float>{}); case 11: return f(Ty<double>{}); case 12: return f(Ty<std::complex<float>>{}); case 13: return f(Ty<std::complex<double>>{});
    default: return f(Ty<xtl::half_float>{});
    }
}
template <class T> inline constexpr bool for_eigen = !std::is_same_v<T, xtl::half_float>;
inline size_t size_of(int code) { return with_type(code, []<class T>(Ty<T>) { return sizeof(T); }); }
template <class T> std::string elem_bytes(const T& x) { return std::string(reinterpret_cast<const char*>(&x), sizeof(T)); }
template <class T> T elem_from(std::string_view b) { T x; std::memcpy(static_cast<void*>(&x), b.data(), sizeof(T)); return x; }
inline size_t count_of(const std::vector<size_t>& s) { size_t n = 1; for (auto d : s) n *= d; return n; }
inline void j_shape(std::string& o, const auto& s) { o += '['; bool f = true; for (auto d : s) { if (!f) o += ','; f = false; unsigned long long x = d; o += std::to_string(x > (1ull << 29) ? (1ull << 29) : x); } o += ']'; }
// bytes of an xtensor expression in row-major index order, by explicit indexing
template <class X> std::string x_bytes(const X& x) {
    using T = std::remove_cvref_t<typename X::value_type>;
    std::vector<size_t> shape(x.shape().begin(), x.shape().end()); std::string out; size_t n = count_of(shape); if (n > 100000) return "too many";
    std::vector<size_t> idx(shape.size(), 0);
    for (size_t k = 0; k < n; ++k) { T v = x.element(idx.begin(), idx.end()); out += elem_bytes(v); for (size_t d = shape.size(); d-- > 0;) { if (++idx[d] < shape[d]) break; idx[d] = 0; } }
    return out;
}
template <class M> std::string e_bytes(const M& m) {
    std::string out; if (m.rows() == 0 || m.cols() == 0) return out; if (m.rows() > 100000 || m.cols() > 100000) return "too many";
    for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) { typename M::Scalar v = m(i, j); out += elem_bytes(v); } return out;
}
inline void j_read(std::string& o, const auto& shape, const std::string& bytes) { o += "[\"ok\","; j_shape(o, shape); o += ','; j_bytes(o, bytes, true); o += ']'; }
template <class F> void attempt(std::string& o, F&& f) { outcome(o, "[\"D\"]", "[\"X\"]", std::forward<F>(f)); }
// both xtensor forms
template <class T, int D, bool AsMap = false, class R> void read_x(std::string& o, const R& r) {
    attempt(o, [&] { auto a = zerialize::xtensor::asXTensor<T, D, AsMap>(r); std::vector<size_t> s(a.shape().begin(), a.shape().end()); j_read(o, s, x_bytes(a)); });
    o += ',';
    attempt(o, [&] {
        auto v = zerialize::xtensor::asXTensorView<T, D, AsMap>(r); auto t = v.tensor(); auto a = v.array();
        std::vector<size_t> s(t.shape().begin(), t.shape().end()), s2(v.shape().begin(), v.shape().end()), s3(a.shape().begin(), a.shape().end());
        std::string b = x_bytes(t); auto moved = std::move(v); auto copy = moved;
        bool same = s == s2 && s == s3 && x_bytes(a) == b && moved.rank() == s.size() && x_bytes(moved.tensor()) == b && x_bytes(copy.tensor()) == b;
        if (same) j_read(o, s, b); else o += "[\"views disagree\"]";
    });
}
template <class T, int NR, int NC, int Opt, bool AsMap = false, class R> void read_e(std::string& o, const R& r) {
    attempt(o, [&] { auto m = zerialize::eigen::asEigenMatrix<T, NR, NC, AsMap, Opt>(r); j_read(o, std::array<size_t, 2>{size_t(m.rows()), size_t(m.cols())}, e_bytes(m)); });
    o += ',';
    attempt(o, [&] {
        auto v = zerialize::eigen::asEigenMatrixView<T, NR, NC, AsMap, Opt>(r); auto m = v.map(); std::string b = e_bytes(m); auto moved = std::move(v); auto copy = moved; auto own = copy.matrix();
        bool same = v.rows() == size_t(m.rows()) && v.cols() == size_t(m.cols()) && e_bytes(moved.map()) == b && e_bytes(copy.map()) == b && e_bytes(own) == b;
        if (same) j_read(o, std::array<size_t, 2>{size_t(m.rows()), size_t(m.cols())}, b); else o += "[\"views disagree\"]";
    });
}
// what isTensor says: 1, 0 or -1 (an error)
template <class T, bool AsMap = false, class R> void is_tensor(std::string& o, const R& r) { outcome(o, "-1", "-2", [&] { o += zerialize::isTensor<T, AsMap>(r) ? "1" : "0"; }); }
}
