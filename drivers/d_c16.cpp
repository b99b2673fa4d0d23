// C16: the Base64 codec.
#include "common.hpp"
#include <zerialize/internals/base64.hpp>
using namespace drv;
namespace z = zerialize;

struct Out {
    std::string o; bool first = true;
    void sep() { if (!first) o += ','; first = false; }
    std::string enc(const std::string& b) {
        Heap h(b);
        std::string t = z::base64Encode(std::span<const std::byte>(reinterpret_cast<const std::byte*>(h.p), h.n));
        sep(); o += "[\"e\","; j_bytes(o, b, true); o += ','; j_bytes(o, t, true); o += ']';
        return t;
    }
    void dec(const std::string& t) {
        Heap h(t); std::string r;
        try { r = blob_to_string(z::base64Decode(std::string_view(reinterpret_cast<const char*>(h.p), h.n))); }
        catch (const z::DeserializationError&) { sep(); o += "[\"x\","; j_bytes(o, t, true); o += ']'; return; }
        catch (...) { sep(); o += "[\"?\"]"; return; }
        sep(); o += "[\"d\","; j_bytes(o, t, true); o += ','; j_bytes(o, r, true); o += ']';
    }
};
static const std::string Alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
int main(int argc, char** argv) {
    size_t pairs = scale(0, 256), n = scale(6000, 20000);
    return run_cases(argc, argv, 256 + 64 + pairs + n, [&](size_t id) {
        Rng g(seed(), id); Out w;
        if (id < 256) { // every byte value at every place of a quantum, encoded and as text
            char c = char(id);
            for (size_t len = 1; len <= 4; ++len) for (size_t p = 0; p < len; ++p) { std::string b(len, '\x5a'); b[p] = c; w.dec(w.enc(b)); }
            for (size_t len = 1; len <= 9; ++len) for (size_t p = 0; p < len; ++p) { std::string t; for (size_t i = 0; i < len; ++i) t += Alpha[(i * 7 + 1) % 64]; t[p] = c; w.dec(t); }
            std::string t = "QUJD="; t += c; w.dec(t); t = "QQ=="; t += c; w.dec(t); w.dec(std::string("=") + c);
        } else if (id < 320) { // every pair of sextets
            for (char d : Alpha) { std::string t{Alpha[id - 256], d}; w.dec(t); w.dec("AA" + t); w.dec(t + "=="); w.dec("z" + t + "="); }
        } else if (id < 320 + pairs) {
            for (int d = 0; d < 256; ++d) { std::string b{char(id - 320), char(d)}; w.dec(w.enc(b)); w.dec(w.enc(char(d * 37) + b)); }
        } else {
            size_t k = id - 320 - pairs;
            std::string b = gen_bytes(g, k < 300 ? k : k % 97 == 0 ? 3000 + g.below(3000) : g.below(40));
            std::string t = w.enc(b); w.dec(t);
            for (int m = 0; m < 4; ++m) { // texts near a valid one
                std::string x = t;
                for (size_t e = 1 + g.below(3); e--;) switch (g.below(6)) {
                    case 0: if (!x.empty()) x.erase(g.below(x.size()), 1); break;
                    case 1: x.insert(g.below(x.size() + 1), 1, Alpha[g.below(64)]); break;
                    case 2: x.insert(g.below(x.size() + 1), 1, '='); break;
                    case 3: x.resize(g.below(x.size() + 1)); break;
                    case 4: if (!x.empty()) x[g.below(x.size())] = char(g.next()); break;
                    default: x += "-_ \n\r\t=\0A.~"[g.below(11)]; break;
                }
                w.dec(x);
            }
            w.dec(gen_bytes(g, g.below(8)));
        }
        return "{\"id\":" + std::to_string(id) + ",\"ops\":[" + w.o + "]}";
    });
}
