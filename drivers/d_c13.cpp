// C13: ownership histories of ZBuffer, enumerated by TLC and random.
#include "common.hpp"
#include "protocols.hpp"
#include <zerialize/zbuffer.hpp>
#include <zerialize/zbuilders.hpp>
#include <fstream>
#include <new>
#include <optional>
#include <sanitizer/asan_interface.h>

// every operator new minus every operator delete
static long g_live = 0, g_arrays = 0; // g_arrays: new[] minus delete[], each form released by its own
static void* counted(size_t n, long a = 0) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; g_arrays += a; return p; }
static void uncount(void* p, long a = 0) { if (p) { --g_live; g_arrays -= a; std::free(p); } }
void* operator new(size_t n) { return counted(n); }
void* operator new[](size_t n) { return counted(n, 1); }
void operator delete(void* p) noexcept { uncount(p); }
void operator delete[](void* p) noexcept { uncount(p, 1); }
void operator delete(void* p, size_t) noexcept { uncount(p); }
void operator delete[](void* p, size_t) noexcept { uncount(p, 1); }

using namespace drv;
namespace z = zerialize;
using Op = std::vector<int>; // code, a, b
enum { MAKE, BAD, MC, MA, SW, DEL };
static const char* names[] = {"make", "bad", "mc", "ma", "sw", "del"};

static std::vector<std::vector<Op>> load(const char* path) {
    std::vector<std::vector<Op>> out; std::ifstream in(path); std::string ln;
    while (std::getline(in, ln)) {
        std::vector<Op> h;
        for (size_t p = ln.find("[\""); p != std::string::npos; p = ln.find("[\"", p + 1)) {
            std::string name = ln.substr(p + 2, ln.find('"', p + 2) - p - 2); Op op{0};
            for (int i = 0; i < 6; ++i) if (name == names[i]) op[0] = i;
            size_t e = ln.find(']', p), c = ln.find(',', p);
            while (c != std::string::npos && c < e) { op.push_back(std::atoi(ln.c_str() + c + 1)); c = ln.find(',', c + 1); }
            h.push_back(op);
        }
        out.push_back(h);
    }
    return out;
}
static std::vector<Op> random_history(Rng& g, int n) {
    std::vector<int> sl(n + 1, -1); std::vector<Op> h; int next = 1; size_t len = 5 + g.below(40);
    auto pick = [&](auto f) { std::vector<int> c; for (int i = 1; i <= n; ++i) if (f(sl[i])) c.push_back(i); return c.empty() ? 0 : g.pick(c); };
    while (h.size() < len) {
        int fr = pick([](int x) { return x < 0; }), a = pick([](int x) { return x >= 0; }), b = pick([](int x) { return x >= 0; });
        switch (g.below(9)) {
        case 0: case 1: if (fr) { int r = g.chance(10) ? 0 : next++; h.push_back({MAKE, fr, r}); sl[fr] = r; } break;
        case 2: if (fr) h.push_back({BAD, fr}); break;
        case 3: if (fr && a) { h.push_back({MC, fr, a}); sl[fr] = sl[a]; sl[a] = 0; } break;
        case 4: case 5: case 6: if (a && b && a != b) { h.push_back({MA, a, b}); sl[a] = sl[b]; sl[b] = 0; } break;
        case 7: if (a && b && a != b) { h.push_back({SW, a, b}); std::swap(sl[a], sl[b]); } break;
        default: if (a && g.chance(60)) { h.push_back({DEL, a}); sl[a] = -1; }
        }
    }
    return h;
}
struct Res { std::string kind, bytes; void* ptr = nullptr; bool watch = false, gone = false; };

static std::string replay(size_t id, const std::vector<Op>& h, int n, bool large = false) {
    std::string out, res; out.reserve(1 << 20); res.reserve(1 << 16);
    long live0 = g_live, arrays0 = g_arrays, left = 0;
    {
        std::vector<Res> rs(1); rs.reserve(128);
        std::vector<int> called; called.reserve(1024); // deleter calls, in order
        std::vector<void*> seen;
        Rng g(seed(), id);
        std::vector<std::unique_ptr<z::ZBuffer>> slot(n + 1);
        auto deleter = [&](int r, int how) { // also owns a little memory of its own
            return [&rs, &called, r, how, extra = std::make_shared<std::array<char, 64>>()](auto* p) {
                called.push_back(static_cast<const void*>(p) == rs[size_t(r)].ptr ? r : -r);
                if (how == 0) std::free(const_cast<void*>(static_cast<const void*>(p))); else if (how == 1) delete[] reinterpret_cast<unsigned char*>(p);
            };
        };
        auto make = [&](int r) -> std::unique_ptr<z::ZBuffer> {
            static const size_t lens[] = {0, 1, 2, 3, 5, 8, 16, 40};
            static const size_t large_lens[] = {49, 4096, 65535, 65536, 65537, 70001, 1 << 20, (1 << 20) + 1, (1 << 20) + 4097, 3 << 20, (5 << 20) + 17};
            Res x; x.bytes = large ? gen_bytes(g, g.pick(large_lens)) : gen_bytes(g, g.pick(lens)); size_t n = x.bytes.size();
            size_t way = g.below(12); if (large && way == 9) way = 2;
            if (way >= 1 && way <= 9) { bool arr = way == 2 || way == 5 || way == 8; x.ptr = arr ? static_cast<void*>(new unsigned char[n]) : std::malloc(n ? n : 1); if (n) std::memcpy(x.ptr, x.bytes.data(), n); }
            x.kind = "d";
            std::unique_ptr<z::ZBuffer> b;
            switch (way) {
            case 0: case 11: { x.kind = "o"; std::vector<std::uint8_t> v(x.bytes.begin(), x.bytes.end()); if (g.chance(30)) v.reserve(100); rs.push_back(x); return std::make_unique<z::ZBuffer>(std::move(v)); }
            case 1: rs.push_back(x); return std::make_unique<z::ZBuffer>(static_cast<std::uint8_t*>(x.ptr), n, std::function<void(std::uint8_t*)>(deleter(r, 0)));
            case 2: rs.push_back(x); return std::make_unique<z::ZBuffer>(static_cast<std::uint8_t*>(x.ptr), n, deleter(r, 1));
            case 3: x.watch = true; rs.push_back(x); return std::make_unique<z::ZBuffer>(static_cast<std::uint8_t*>(x.ptr), n, z::ZBuffer::Deleters::Free);
            case 4: rs.push_back(x); return std::make_unique<z::ZBuffer>(static_cast<char*>(x.ptr), n, std::function<void(char*)>(deleter(r, 0)));
            case 5: x.watch = true; rs.push_back(x); return std::make_unique<z::ZBuffer>(static_cast<std::uint8_t*>(x.ptr), n, z::ZBuffer::Deleters::DeleteArray);
            case 6: x.watch = true; rs.push_back(x); return std::make_unique<z::ZBuffer>(x.ptr, n, z::ZBuffer::Deleters::Free);
            case 7: rs.push_back(x); return std::make_unique<z::ZBuffer>(x.ptr, n, std::function<void(void*)>(deleter(r, 0)));
            case 8: rs.push_back(x); return std::make_unique<z::ZBuffer>(static_cast<char*>(x.ptr), n, deleter(r, 1));
            case 9: { x.kind = "k"; std::free(x.ptr); static unsigned char keep[64]; for (int i = 0; i < 64; ++i) keep[i] = static_cast<unsigned char>(i * 3); x.ptr = keep; x.bytes.assign(reinterpret_cast<char*>(keep), n); rs.push_back(x); return std::make_unique<z::ZBuffer>(keep, n, z::ZBuffer::Deleters::NoOp); }
            default: { x.kind = "0"; x.bytes.clear(); rs.push_back(x); switch (g.below(3)) { case 0: return std::make_unique<z::ZBuffer>(static_cast<std::uint8_t*>(nullptr), 0, deleter(r, 2)); case 1: return std::make_unique<z::ZBuffer>(static_cast<char*>(nullptr), 0, deleter(r, 2)); default: return std::make_unique<z::ZBuffer>(static_cast<void*>(nullptr), 0, deleter(r, 2)); } }
            }
        };
        auto bad = [&] {
            char* p = static_cast<char*>(std::malloc(8)); std::memset(p, 7, 8); rs[0].ptr = p; // deleter id 0: must not run
            struct F { char* p; ~F() { std::free(p); } } guard{p};
            switch (g.below(9)) {
            case 0: { z::ZBuffer b(static_cast<std::uint8_t*>(nullptr), 1 + g.below(9), deleter(0, 2)); break; }
            case 1: { z::ZBuffer b(static_cast<char*>(nullptr), 1 + g.below(9), deleter(0, 2)); break; }
            case 2: { z::ZBuffer b(static_cast<void*>(nullptr), 1 + g.below(9), deleter(0, 2)); break; }
            case 3: { z::ZBuffer b(reinterpret_cast<std::uint8_t*>(p), 8, std::function<void(std::uint8_t*)>()); break; }
            case 4: { z::ZBuffer b(p, 8, std::function<void(char*)>()); break; }
            case 5: { z::ZBuffer b(static_cast<void*>(p), 8, std::function<void(void*)>()); break; }
            case 6: { z::ZBuffer b(static_cast<std::uint8_t*>(nullptr), 0, std::function<void(std::uint8_t*)>()); break; }
            case 7: { z::ZBuffer b(static_cast<char*>(nullptr), 0, std::function<void(char*)>()); break; }
            default: { z::ZBuffer b(static_cast<void*>(p), 0, std::function<void(void*)>()); break; }
            }
        };
        auto step = [&](const Op& op) {
            size_t c0 = called.size(); std::string outcome = "ok"; Op shown = op;
            try {
                auto &a = slot[op[1]];
                switch (op[0]) {
                case MAKE: a = op[2] ? make(op[2]) : g.chance(50) ? std::make_unique<z::ZBuffer>() : std::make_unique<z::ZBuffer>(std::vector<std::uint8_t>()); break;
                case BAD: bad(); break;
                case MC: a = g.chance(50) ? std::make_unique<z::ZBuffer>(std::move(*slot[op[2]])) : [&] { auto f = [&] { z::ZBuffer t(std::move(*slot[op[2]])); return t; }; return std::make_unique<z::ZBuffer>(f()); }(); break;
                case MA: if (g.chance(30)) { z::ZBuffer t(std::move(*slot[op[2]])); *a = std::move(t); } else *a = std::move(*slot[op[2]]); break;
                case SW: std::swap(*a, *slot[op[2]]); break;
                case DEL: a.reset(); break;
                }
            } catch (const std::invalid_argument&) { outcome = "I"; } catch (...) { outcome = "X"; }
            out += (out.empty() ? "[[\"" : ",[[\"") + std::string(names[op[0]]) + "\"";
            for (size_t i = 1; i < op.size(); ++i) out += "," + std::to_string(op[i]);
            out += "],\"" + outcome + "\",[";
            for (int i = 1; i <= n; ++i) {
                if (i > 1) out += ',';
                out += '['; if (slot[i]) {
                    auto& b = *slot[i]; const size_t sz = b.size();
                    if (b.data() && sz) seen.push_back(const_cast<std::uint8_t*>(b.data()));
                    out += std::to_string(sz > 100000000 ? 100000000 : sz) + ",";
                    if (sz <= (large ? 100000000u : 1000u)) {
                        j_bytes(out, std::string(b.data() ? reinterpret_cast<const char*>(b.data()) : "", b.data() ? sz : 0)); out += ',';
                        j_bytes(out, std::string(b.buf().begin(), b.buf().end())); out += ',';
                        auto v = b.to_vector_copy(); j_bytes(out, std::string(v.begin(), v.end())); out += ','; j_bytes(out, b.to_debug_string());
                        out += b.empty() ? ",true" : ",false";
                    }
                } out += ']';
            }
            out += "],["; bool first = true;
            auto rel = [&](int r) { out += (first ? "" : ",") + std::to_string(r); first = false; };
            for (size_t i = c0; i < called.size(); ++i) rel(called[i]);
            for (size_t r = 1; r < rs.size(); ++r) if (rs[r].watch && !rs[r].gone && __asan_address_is_poisoned(rs[r].ptr)) { bool sized = !rs[r].bytes.empty(); rs[r].gone = true; if (sized) rel(int(r)); }
            out += "]]";
        };
        for (auto& op : h) step(op);
        std::vector<int> order; for (int i = 1; i <= n; ++i) if (slot[i]) order.push_back(i);
        if (g.chance(50)) std::reverse(order.begin(), order.end());
        for (int i : order) step({DEL, i});
        for (size_t r = 1; r < rs.size(); ++r) {
            // zero-length allocations have no byte whose state can be read
            res += std::string(r > 1 ? "," : "") + "[\"" + (rs[r].watch && rs[r].bytes.empty() ? "o" : rs[r].kind) + "\","; j_bytes(res, rs[r].bytes); res += ']';
            if (rs[r].kind == "k") for (auto& p : seen) if (p == rs[r].ptr) p = nullptr;
        }
        for (void* p : seen) if (p && !__asan_address_is_poisoned(p)) ++left; // storage a buffer showed and never freed
    }
    left += std::labs(g_live - live0) + std::labs(g_arrays - arrays0);
    return "\"n\":" + std::to_string(n) + ",\"res\":[" + res + "],\"steps\":[" + out + "],\"left\":" + std::to_string(left);
}
static std::string dump_case(Rng& g, size_t k) {
    static const size_t ws[] = {16, 0, 1, 2, 7, 8, 9, 15, 17, 32, 3, 40};
    size_t w = ws[k % 12], n = k < 60 ? k : g.below(70); std::string b = gen_bytes(g, n);
    if (k % 12 == 4) for (size_t i = 0; i < n; ++i) b[i] = char(k * 3 + i);
    z::ZBuffer zb(std::vector<std::uint8_t>(b.begin(), b.end())); std::string o = "\"bytes\":"; j_bytes(o, b, true);
    bool def = w == 16 && g.chance(50);
    o += ",\"w\":" + std::to_string(w) + ",\"dump\":"; j_bytes(o, def ? zb.hexdump() : zb.hexdump(w), true);
    return o;
}
// Dumps too long to list: the rows around the places where an offset gains a digit.
static std::string rows_case(Rng& g, size_t k) {
    static const size_t ws[] = {16, 32, 255, 256, 1, 5}; size_t w = ws[k % 6]; static const size_t ns[] = {65535, 65536, 65537, 70000, 4097, 100003, 262145, 1048579};
    size_t n = w == 1 ? 70001 : k == 0 ? 70000 : g.chance(70) ? g.pick(ns) : 1 + g.below(140000); if (thorough() && k < 2) n = 16777216 + 99;
    std::string b(n, '\0'); for (auto& c : b) c = char(g.next());
    z::ZBuffer zb(std::vector<std::uint8_t>(b.begin(), b.end())); std::string d = zb.hexdump(w); std::vector<std::pair<size_t, size_t>> line; size_t at = 0;
    while (at < d.size()) { size_t e = d.find('\n', at); if (e == std::string::npos) e = d.size() - 1; line.emplace_back(at, e + 1 - at); at = e + 1; }
    std::string o = "\"rowsof\":" + std::to_string(n) + ",\"w\":" + std::to_string(w) + ",\"lines\":" + std::to_string(line.size()) + ",\"rows\":[";
    std::set<size_t> pick{0, (n - 1) / w}; for (size_t x : {size_t(255), size_t(256), size_t(4095), size_t(4096), size_t(65535), size_t(65536), size_t(1) << 20, size_t(1) << 24}) for (size_t q : {x / w, x / w + 1}) pick.insert(q); for (int i = 0; i < 6; ++i) pick.insert(g.below((n + w - 1) / w));
    bool f = true; for (size_t q : pick) if (q < line.size() && q * w < n) { if (!f) o += ','; f = false; o += "[" + std::to_string(q * w) + ","; j_bytes(o, b.substr(q * w, w), true); o += ","; j_bytes(o, d.substr(line[q].first, line[q].second), true); o += ']'; }
    return o + "]";
}
template <class P> static std::string proto_case(Rng& g) { // buffers the library itself hands out
    std::string out; out.reserve(4096); long live0 = g_live; bool good = true; void* p = nullptr;
    {
        GenOpt go; go.nulkeys = false; V v = gen_value(g, go); std::string bytes;
        auto make = [&] { typename P::RootSerializer rs; typename P::Serializer w{rs}; emit(v, w); return rs.finish(); };
        z::ZBuffer b = make(); bytes = std::string(b.buf().begin(), b.buf().end()); p = const_cast<std::uint8_t*>(b.data());
        z::ZBuffer c; c = std::move(b); good = c.to_debug_string() == bytes && b.empty(); { z::ZBuffer d(std::move(c)); good = good && d.to_debug_string() == bytes && c.empty(); }
    }
    long left = (g_live - live0) + (p && !__asan_address_is_poisoned(p)) + !good;
    return "\"n\":1,\"res\":[],\"steps\":[],\"left\":" + std::to_string(left);
}
int main(int argc, char** argv) {
    static auto scripts = load(argv[1]);
    small_lens(); mid_lens(); big_lens(); { Rng g(1); for (int i = 0; i < 50; ++i) gen_value(g, GenOpt{}); }
    const size_t ns = scripts.size(), nr = scale(8000, 30000), nd = scale(1200, 4000), np = scale(1000, 3000), nl = 18, ng = scale(120, 1000);
    return run_cases(argc, argv, ns + nr + nd + np + nl + ng, [&](size_t id) {
        Rng g(seed(), 77000000 + id); std::string body;
        if (id < ns) { replay(id, scripts[id], 3); body = replay(id, scripts[id], 3); } // the second time: nothing is set up lazily any more
        else if (id < ns + nr) { int n = 2 + int(g.below(4)); body = replay(id, random_history(g, n), n); }
        else if (id < ns + nr + nd) body = dump_case(g, id - ns - nr);
        else if (id >= ns + nr + nd + np + nl) { int n = 2 + int(g.below(2)); auto h = random_history(g, n); if (h.size() > 10) h.resize(10); body = replay(id, h, n, true); }
        else if (id >= ns + nr + nd + np) body = rows_case(g, id - ns - nr - nd - np);
        else with_proto(int(id % 3), [&]<class P>(P) { Rng g1 = g; proto_case<P>(g1); body = proto_case<P>(g); });
        return "{\"id\":" + std::to_string(id) + "," + body + "}";
    });
}
