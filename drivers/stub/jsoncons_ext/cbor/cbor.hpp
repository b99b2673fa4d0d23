// Stand-in for jsoncons's CBOR encoder, written from RFC 8949: definite lengths, the smallest
// head that fits, doubles as binary32 when nothing is lost (as jsoncons does). It checks
// nothing about the order of calls. The reader in protocols/cbor.hpp does not use jsoncons.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string_view>
#include <vector>
namespace jsoncons::cbor {
class cbor_bytes_encoder {
    std::vector<uint8_t>& o;
    void be(uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o.push_back(uint8_t(v >> (8 * i))); }
    void head(int major, uint64_t n) {
        const uint8_t m = uint8_t(major << 5);
        if (n < 24) o.push_back(uint8_t(m | n));
        else if (n < 0x100) { o.push_back(m | 24); be(n, 1); }
        else if (n < 0x10000) { o.push_back(m | 25); be(n, 2); }
        else if (n < 0x100000000ull) { o.push_back(m | 26); be(n, 4); }
        else { o.push_back(m | 27); be(n, 8); }
    }
public:
    explicit cbor_bytes_encoder(std::vector<uint8_t>& out) : o(out) {}
    void null_value() { o.push_back(0xf6); }
    void bool_value(bool v) { o.push_back(v ? 0xf5 : 0xf4); }
    void int64_value(int64_t v) { if (v < 0) head(1, ~uint64_t(v)); else head(0, uint64_t(v)); }
    void uint64_value(uint64_t v) { head(0, v); }
    void double_value(double v) {
        const float f = static_cast<float>(v);
        if (static_cast<double>(f) == v) { uint32_t w; std::memcpy(&w, &f, 4); o.push_back(0xfa); be(w, 4); }
        else { uint64_t w; std::memcpy(&w, &v, 8); o.push_back(0xfb); be(w, 8); }
    }
    void string_value(std::string_view s) { head(3, s.size()); o.insert(o.end(), s.begin(), s.end()); }
    void byte_string_value(const std::vector<uint8_t>& b) { head(2, b.size()); o.insert(o.end(), b.begin(), b.end()); }
    void begin_array(std::size_t n) { head(4, n); }
    void end_array() {}
    void begin_object(std::size_t n) { head(5, n); }
    void end_object() {}
    void key(std::string_view k) { string_value(k); }
};
}
