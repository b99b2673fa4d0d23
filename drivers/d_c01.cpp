// C01: write a value with each protocol, read it back through every kind of source buffer.
#include "common.hpp"
#include "protocols.hpp"
using namespace drv;

static std::vector<V> fixed_cases() {
    std::vector<V> c;
    c.push_back(V::null()); c.push_back(V::boolean(true)); c.push_back(V::boolean(false));
    for (auto& v : boundary_ints()) c.push_back(v);
    for (auto& v : boundary_doubles()) c.push_back(v);
    Rng g(7);
    std::vector<size_t> lens; for (size_t i = 0; i <= 40; ++i) lens.push_back(i);
    for (auto l : mid_lens()) lens.push_back(l);
    for (auto l : big_lens()) lens.push_back(l);
    for (auto n : lens) {
        c.push_back(V::str(gen_bytes(g, n)));
        c.push_back(V::blob(gen_bytes(g, n)));
        std::string k = gen_bytes(g, n); for (auto& ch : k) if (!ch) ch = 'q';
        c.push_back(V::map({{k, V::sint(int64_t(n))}}));
        c.push_back(V::map({{"a", V::null()}, {k, V::str(k)}, {"zz", V::blob(k)}}));
        c.push_back(V::arr({V::str(gen_bytes(g, n)), V::blob(gen_bytes(g, n)), V::str(gen_bytes(g, n)), V::dbl(1.5), V::blob(gen_bytes(g, n))}));
    }
    for (size_t n : {0, 1, 2, 3, 14, 15, 16, 17, 31, 32, 33, 255, 256, 257, 599, 700, 65535, 65536, 66000}) {
        V a; a.t = 'a'; for (size_t i = 0; i < n; ++i) a.a.push_back(i % 3 == 0 ? V::sint(int64_t(i) - 5) : i % 3 == 1 ? V::uint(i) : V::str(std::to_string(i)));
        c.push_back(a);
        V m; m.t = 'm'; for (size_t i = 0; i < n; ++i) m.m.emplace_back("k" + std::to_string(i * 7919 % 100003), V::uint(i));
        c.push_back(m);
        if (n <= 300) {
            V same; same.t = 'a'; for (size_t i = 0; i < n; ++i) same.a.push_back(V::sint(int64_t(i) * 40 - 100)); c.push_back(same);
            V nest; nest.t = 'a'; for (size_t i = 0; i < n; ++i) nest.a.push_back(V::map({{"x", V::sint(int64_t(i))}, {"y", V::arr({})}})); c.push_back(nest);
        }
    }
    for (int depth : {1, 2, 3, 8, 16, 33, 60}) {
        V a = V::uint(5), m = V::str("leaf"), x = V::boolean(true);
        for (int i = 0; i < depth; ++i) { a = V::arr({a}); m = V::map({{"d" + std::to_string(i), m}}); x = i % 2 ? V::arr({V::null(), x, V::blob("ab")}) : V::map({{"p", V::sint(-i)}, {"q", x}}); }
        c.push_back(a); c.push_back(m); c.push_back(x);
    }
    c.push_back(V::str("deep and huge values follow"));
    for (int depth : {100, 300, 1000, 3000}) {
        V a = V::uint(5), m = V::str("leaf"), x = V::boolean(true);
        for (int i = 0; i < depth; ++i) { V b = V::arr({}); b.a.push_back(std::move(a)); a = std::move(b); V n = V::map({}); n.m.emplace_back("d" + std::to_string(i), std::move(m)); m = std::move(n);
            V y = i % 2 ? V::arr({V::null()}) : V::map({{"p", V::sint(-i)}}); if (i % 2) { y.a.push_back(std::move(x)); y.a.push_back(V::blob("ab")); } else y.m.emplace_back("q", std::move(x)); x = std::move(y); }
        c.push_back(std::move(a)); c.push_back(std::move(m)); c.push_back(std::move(x));
    }
    // offsets beyond 24 bits
    c.push_back(V::arr({V::blob(std::string((1 << 24) + 5, '\x31')), V::str("a string after sixteen megabytes"), V::blob("blob"), V::arr({V::str(std::string(13, 'e'))}), V::uint(7)}));
    c.push_back(V::arr({V::str(std::string((1 << 24) + 3, 's')), V::map({{"k", V::blob("behind")}}), V::str("a string after sixteen megabytes")}));
    { V m; m.t = 'm'; for (int i = 0; i < 290; ++i) m.m.emplace_back(std::to_string(100 + i) + std::string(60000, char('a' + i % 26)), V::sint(i)); c.push_back(V::arr({m, V::map({{"x", V::arr({V::sint(1), V::str("tail")})}}), V::blob("end")})); }
    // empty containers and empty strings in every position
    c.push_back(V::arr({V::arr({}), V::map({}), V::str(""), V::blob(""), V::null()}));
    c.push_back(V::map({{"", V::str("")}, {"a", V::map({})}, {"b", V::arr({})}, {"c", V::blob("")}}));
    // keys that differ only late, in case, in length, or by sign of the byte
    c.push_back(V::map({{"a", V::sint(1)}, {"aa", V::sint(2)}, {"ab", V::sint(3)}, {"b", V::sint(4)}, {"", V::sint(5)}, {"A", V::sint(6)}, {"\xff", V::sint(7)}, {"\x80", V::sint(8)}, {"\x7f", V::sint(9)}}));
    c.push_back(V::map({{std::string("a\0b", 3), V::sint(1)}, {"a", V::sint(2)}}));
    c.push_back(V::map({{std::string(1, '\0'), V::sint(1)}}));
    c.push_back(V::arr({V::map({{std::string("\0x", 2), V::arr({})}}), V::sint(4)}));
    c.push_back(V::map({{"shared", V::arr({V::str("dup"), V::str("dup")})}, {"dup", V::str("shared")}}));
    // blobs of every length packed after odd strings (alignment of what follows)
    for (size_t n = 0; n <= 20; ++n) c.push_back(V::arr({V::str(std::string(n, 's')), V::blob(std::string(n, '\x01')), V::str(std::string(13 + n, 't')), V::dbl(0.1), V::blob(std::string(n * 3, '\x02')), V::uint(~0ull)}));
    return c;
}

int main(int argc, char** argv) {
    static auto fixed = fixed_cases();
    const size_t nrand = scale(8000, 60000);
    auto value_of = [&](size_t i) -> V {
        if (i < fixed.size()) return fixed[i];
        Rng g(seed(), i);
        GenOpt o; o.bigpct = i % 50 == 0 ? 5 : 0; o.maxdepth = 2 + int(i % 4);
        return gen_value(g, o);
    };
    return run_cases(argc, argv, (fixed.size() + nrand) * 3, [&](size_t id) {
        V v = value_of(id / 3); ContainerLimit = depth_of(v) > 60 ? 0 : 600;
        std::string o = "{\"id\":" + std::to_string(id) + ",";
        with_proto(int(id % 3), [&]<class P>(P) {
            o += "\"p\":\"" + std::string(pcode<P>) + "\",\"v\":"; j_value(o, v); o += "," + j_facts(v) + ",";
            std::string bytes;
            std::string out = write_value_bytes<P>(v, bytes);
            o += "\"out\":\"" + out + "\",\"nodes\":[";
            if (out == "ok") {
                std::string first;
                auto add = [&](auto&& mk) { std::string n; outcome(n, "[[],[\"E\",\"D\"]]", "[[],[\"E\",\"X\"]]", [&] { auto&& r = mk(); j_node(n, r); }); if (n != first) { if (!first.empty()) o += ','; o += n; if (first.empty()) first = n; } };
                std::vector<uint8_t> vec(bytes.begin(), bytes.end());
                add([&] { return typename P::Deserializer(vec); });
                Heap h(bytes, 0), hm(bytes, 1 + (id / 3) % 15);
                add([&] { return open_view<typename P::Deserializer>(h, id); });
                if constexpr (!std::is_same_v<P, zerialize::Flex>) add([&] { return typename P::Deserializer(hm.span()); });
                if (id % 7 == 0) add([&] { std::vector<uint8_t> tmp = vec; return typename P::Deserializer(std::move(tmp)); });
            }
            o += "]}";
        });
        return o;
    });
}
