// C14: histories of deserializers, copies, moves and parts, enumerated by TLC and random.
#include "common.hpp"
#include "protocols.hpp"
#include <fstream>
#include <optional>
using namespace drv;
namespace z = zerialize;

struct Op { std::string name; int a = 0, b = 0; std::string ty; std::vector<int> path; };
static std::vector<std::vector<Op>> load(const char* path) {
    std::vector<std::vector<Op>> out; std::ifstream in(path); std::string ln;
    while (std::getline(in, ln)) {
        std::vector<Op> h;
        for (size_t p = ln.find("[\""); p != std::string::npos; p = ln.find("[\"", p + 1)) {
            Op op; size_t q = ln.find('"', p + 2); op.name = ln.substr(p + 2, q - p - 2);
            op.a = std::atoi(ln.c_str() + q + 2); size_t e = ln.find(']', q), c = ln.find(',', q + 2);
            if (c < e) op.b = std::atoi(ln.c_str() + c + 1);
            if (op.name == "take") { size_t t = ln.find('"', c + 1); op.ty = ln.substr(t + 1, ln.find('"', t + 1) - t - 1); }
            h.push_back(op);
        }
        out.push_back(h);
    }
    return out;
}
// the driver's own bookkeeping of what may be touched
struct Obj { std::string ty = "none"; bool own = false; int tok = 0; const V* v = nullptr; };
static const V* child(const V* v, int i) { return v->t == 'a' ? &v->a[i - 1] : &v->m[i - 1].second; }
static size_t kids(const V* v) { return v->t == 'a' ? v->a.size() : v->t == 'm' ? v->m.size() : 0; }

static V message(Rng& g) { // a map or array holding at least one of everything, or anything
    GenOpt go; go.nulkeys = false; go.midpct = 2; go.maxdepth = 2; go.maxfan = 3;
    if (g.chance(15)) return gen_value(g, go);
    std::vector<V> parts{V::str(gen_bytes(g, 1 + g.below(30))), V::blob(gen_bytes(g, 1 + g.below(40))), V::map({{"k1", V::str(gen_bytes(g, 20))}, {"key two", V::arr({V::sint(-5), V::str("tiny")})}}), V::arr({V::arr({V::map({{"x", V::dbl(0.5)}})}), V::str("s" + gen_bytes(g, g.below(20)))}), gen_value(g, go)};
    if (g.chance(8)) { static const size_t big[] = {4000, 4096, 5000, 20000, 65000, 65536, 70000, 300000}; parts.push_back(g.chance(50) ? V::str(std::string(g.pick(big), 'L')) : V::blob(gen_bytes(g, g.pick(big)))); }
    if (g.chance(3)) { V a; a.t = 'a'; for (size_t i = 0; i < 500; ++i) a.a.push_back(i % 3 ? V::uint(i * i) : V::str(std::to_string(i))); parts.push_back(a); }
    for (size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[g.below(i)]);
    if (g.chance(50)) return V::arr(parts);
    V m; m.t = 'm'; for (size_t i = 0; i < parts.size(); ++i) m.m.emplace_back("p" + std::to_string(i) + std::string(i * 4, 'q'), parts[i]);
    return m;
}
template <class P> struct Play {
    using Root = typename P::Deserializer;
    using Sub = std::remove_cvref_t<decltype(std::declval<const Root&>()[size_t(0)])>;
    using Keys = std::remove_cvref_t<decltype(std::declval<const Sub&>().mapKeys())>;
    using Blob = std::remove_cvref_t<decltype(std::declval<const Sub&>().asBlob())>;
    struct Slot { std::unique_ptr<Root> root; std::unique_ptr<Sub> sub; std::unique_ptr<Keys> keys; std::optional<std::string_view> str; std::unique_ptr<Blob> blob; };
    Rng g; int n; std::vector<Slot> sl; std::vector<Obj> ob; std::set<int> alive; int next = 1;
    std::vector<std::unique_ptr<V>> msgs; std::map<int, std::unique_ptr<Heap>> heaps;
    std::vector<std::string> nodes; std::string steps;
    Play(uint64_t s, int n) : g(seed(), s), n(n), sl(n + 1), ob(n + 1) {}

    bool usable(int i) const { return ob[i].ty != "none" && alive.count(ob[i].tok); }
    bool copyable(int i) const { return ob[i].ty == "root" || ob[i].ty == "sub"; }
    bool can(const Op& c) const {
        if (c.name == "own" || c.name == "view") return ob[c.a].ty == "none";
        if (c.name == "cc" || c.name == "mc" || c.name == "take") return ob[c.a].ty == "none" && usable(c.b) && copyable(c.b);
        if (c.name == "ca") return usable(c.b) && copyable(c.b) && ob[c.a].ty == ob[c.b].ty;
        if (c.name == "ma") return c.a != c.b && usable(c.b) && copyable(c.b) && ob[c.a].ty == ob[c.b].ty;
        if (c.name == "sw") return c.a != c.b && usable(c.a) && usable(c.b) && copyable(c.b) && ob[c.a].ty == ob[c.b].ty;
        if (c.name == "del") return ob[c.a].ty != "none";
        if (c.name == "free") { if (!alive.count(c.a)) return false; for (auto& o : ob) if (o.ty != "none" && o.own && o.tok == c.a) return false; return true; }
        return false;
    }
    void drop(int i) { if (ob[i].ty != "none" && ob[i].own) alive.erase(ob[i].tok); }
    // follow path through temporaries, then hand the value to f
    template <class R, class F> static void follow(const R& r, const V* v, const std::vector<int>& path, size_t at, F&& f) {
        if (at == path.size()) { f(r); return; }
        int i = path[at]; const V* w = child(v, i);
        if (v->t == 'a') follow(r[size_t(i - 1)], w, path, at + 1, f); else follow(r[std::string_view(v->m[i - 1].first)], w, path, at + 1, f);
    }
    template <class F> void from(int i, F&& f) { if (ob[i].ty == "root") f(*sl[i].root); else f(*sl[i].sub); }
    static void fill_stack() { volatile char junk[2048]; for (size_t i = 0; i < sizeof junk; ++i) junk[i] = char(0xA5); }

    bool choose_path(Op& op) { // make a "take" concrete
        const V* v = ob[op.b].v; op.path.clear();
        std::vector<std::vector<int>> want; std::vector<std::pair<const V*, std::vector<int>>> todo{{v, {}}};
        bool leaf = op.ty != "sub"; std::string ty = op.ty;
        std::vector<std::pair<std::vector<int>, std::string>> c;
        while (!todo.empty()) {
            auto [x, p] = todo.back(); todo.pop_back();
            if (!leaf && !p.empty()) c.push_back({p, "sub"});
            if (leaf) { if (x->t == 's') c.push_back({p, "str"}); if (x->t == 'x') c.push_back({p, "blob"}); if (x->t == 'm') c.push_back({p, "keys"}); }
            if (p.size() < 3) for (size_t i = 1; i <= kids(x); ++i) { auto q = p; q.push_back(int(i)); todo.push_back({child(x, int(i)), q}); }
        }
        if (c.empty()) return false;
        auto& pk = g.pick(c); op.path = pk.first; op.ty = pk.second; return true;
    }
    void run(const Op& c) {
        auto& A = sl[c.a];
        if (c.name == "own" || c.name == "view") {
            while (int(msgs.size()) < c.b) msgs.push_back(std::make_unique<V>());
            *msgs[c.b - 1] = message(g); const V* v = msgs[c.b - 1].get();
            std::string b; if (write_value_bytes<P>(*v, b) != "ok") throw std::runtime_error("cannot write");
            int t = next++; alive.insert(t);
            if (c.name == "own") {
                auto src = std::make_unique<std::vector<std::uint8_t>>(b.begin(), b.end());
                switch (g.below(4)) {
                case 3: if constexpr (requires { Root::copy_from(std::span<const std::uint8_t>(*src)); }) { A.root.reset(new Root(Root::copy_from(std::span<const std::uint8_t>(*src)))); break; } [[fallthrough]];
                case 0: A.root = std::make_unique<Root>(std::move(*src)); break;
                case 1: A.root = std::make_unique<Root>(*src); break;
                default: { Root tmp(*src); A.root = std::make_unique<Root>(tmp); }
                }
                std::fill(src->begin(), src->end(), std::uint8_t(0xEE)); // the source changes and goes
            } else {
                auto h = std::make_unique<Heap>(b, std::is_same_v<P, z::Flex> ? 0 : g.below(16));
                A.root.reset(new Root(open_view<Root>(*h, g.below(3))));
                heaps[t] = std::move(h);
            }
            ob[c.a] = {"root", c.name == "own", t, v};
        } else if (c.name == "cc") {
            if (ob[c.b].ty == "root") A.root = std::make_unique<Root>(std::as_const(*sl[c.b].root)); else A.sub = std::make_unique<Sub>(std::as_const(*sl[c.b].sub));
            Obj o = ob[c.b]; if (o.own) { o.tok = next++; alive.insert(o.tok); } ob[c.a] = o;
        } else if (c.name == "ca") {
            if (ob[c.b].ty == "root") { const Root& s = *sl[c.b].root; *A.root = s; } else { const Sub& s = *sl[c.b].sub; *A.sub = s; }
            if (c.a != c.b) { drop(c.a); Obj o = ob[c.b]; if (o.own) { o.tok = next++; alive.insert(o.tok); } ob[c.a] = o; }
        } else if (c.name == "mc" || c.name == "ma") {
            if (c.name == "mc") { if (ob[c.b].ty == "root") A.root = std::make_unique<Root>(std::move(*sl[c.b].root)); else A.sub = std::make_unique<Sub>(std::move(*sl[c.b].sub)); }
            else { if (ob[c.b].ty == "root") *A.root = std::move(*sl[c.b].root); else *A.sub = std::move(*sl[c.b].sub); drop(c.a); }
            ob[c.a] = ob[c.b]; ob[c.b] = {ob[c.b].ty, false, 0, nullptr};
        } else if (c.name == "sw") {
            if (ob[c.a].ty == "root") std::swap(*A.root, *sl[c.b].root); else std::swap(*A.sub, *sl[c.b].sub);
            std::swap(ob[c.a], ob[c.b]);
        } else if (c.name == "take") {
            const V* v = ob[c.b].v; for (int i : c.path) v = child(v, i);
            from(c.b, [&](const auto& r) { follow(r, ob[c.b].v, c.path, 0, [&](const auto& x) {
                if (c.ty == "sub") { if constexpr (std::is_constructible_v<Sub, decltype(x)>) A.sub = std::make_unique<Sub>(x); }
                else if (c.ty == "keys") A.keys = std::make_unique<Keys>(x.mapKeys());
                else if (c.ty == "str") A.str = x.asStringView();
                else A.blob = std::make_unique<Blob>(x.asBlob());
            }); });
            ob[c.a] = {c.ty, false, ob[c.b].tok, v};
        } else if (c.name == "del") { A = Slot{}; drop(c.a); ob[c.a] = Obj{}; }
        else if (c.name == "free") { std::memset(heaps[c.a]->p, 0xEE, heaps[c.a]->n); heaps.erase(c.a); alive.erase(c.a); }
    }
    std::string show(int i) {
        std::string o; auto& S = sl[i];
        if (ob[i].ty == "root") j_node(o, *S.root);
        else if (ob[i].ty == "sub") j_node(o, *S.sub);
        else if (ob[i].ty == "keys") { o += '['; bool first = true; std::vector<std::string> once; for (std::string_view k : *S.keys) once.emplace_back(k); for (std::string_view k : *S.keys) { if (!first) o += ','; first = false; j_bytes(o, k); } o += ']'; }
        else if (ob[i].ty == "str") j_bytes(o, *S.str);
        else j_bytes(o, blob_to_string(*S.blob));
        return o;
    }
    void step(const Op& c) {
        std::string oc = "ok";
        try { run(c); } catch (...) { oc = "X"; }
        fill_stack();
        steps += (steps.empty() ? "[[\"" : ",[[\"") + c.name + "\"," + std::to_string(c.a);
        if (c.name != "del" && c.name != "free") steps += "," + std::to_string(c.b);
        if (c.name == "take") { steps += ",\"" + c.ty + "\",["; for (size_t i = 0; i < c.path.size(); ++i) steps += (i ? "," : "") + std::to_string(c.path[i]); steps += "]"; }
        steps += "],\"" + oc + "\",[";
        for (int i = 1; i <= n; ++i) {
            size_t at = 0;
            if (oc == "ok" && usable(i)) { std::string s = show(i); for (at = 0; at < nodes.size() && nodes[at] != s; ++at) {} if (at == nodes.size()) nodes.push_back(s); ++at; }
            steps += (i > 1 ? "," : "") + std::to_string(at);
        }
        steps += "]]";
    }
    std::string finish() {
        std::string o = "\"p\":\"" + std::string(pcode<P>) + "\",\"n\":" + std::to_string(n) + ",\"msgs\":[";
        for (size_t i = 0; i < msgs.size(); ++i) { if (i) o += ','; j_value(o, *msgs[i]); }
        o += "],\"nodes\":["; for (size_t i = 0; i < nodes.size(); ++i) o += (i ? "," : "") + nodes[i];
        return o + "],\"steps\":[" + steps + "]";
    }
};
template <class P> static std::string replay(size_t id, std::vector<Op> h) {
    Play<P> p(id, 3); int made = 0;
    for (auto& op : h) {
        if (op.name == "own" || op.name == "view") op.b = ++made;
        if (!p.can(op)) continue; // after a part that was not there to take
        if (op.name == "take" && !p.choose_path(op)) continue;
        p.step(op);
    }
    for (int i = 1; i <= p.n; ++i) if (p.ob[i].ty != "none") p.step({"del", i, 0, "", {}});
    return p.finish();
}
template <class P> static std::string random_play(size_t id) {
    Rng g(seed(), 31000000 + id); int n = 3 + int(g.below(4)); Play<P> p(id, n); int made = 0; size_t len = 6 + g.below(25), done = 0;
    static const char* names[] = {"own", "view", "cc", "mc", "ca", "ma", "sw", "take", "take", "take", "del", "free", "cc", "ca", "ma"};
    for (int tries = 0; done < len && tries < 600; ++tries) {
        Op op{names[g.below(15)], 1 + int(g.below(n)), 1 + int(g.below(n)), g.chance(50) ? "sub" : "str", {}};
        if (op.name == "free") op.a = 1 + int(g.below(p.next));
        if (op.name == "own" || op.name == "view") { if (made > 6) continue; op.b = made + 1; }
        if (!p.can(op) || ((op.name == "del" || op.name == "free") && g.chance(50))) continue;
        if (op.name == "take" && !p.choose_path(op)) continue;
        if (op.name == "own" || op.name == "view") ++made;
        p.step(op); ++done;
    }
    return p.finish();
}
int main(int argc, char** argv) {
    static auto scripts = load(argv[1]);
    const size_t ns = scripts.size(), nr = scale(3000, 40000);
    return run_cases(argc, argv, ns + nr, [&](size_t id) {
        std::string body;
        with_proto(int((id + seed()) % 3), [&]<class P>(P) { body = id < ns ? replay<P>(id, scripts[id]) : random_play<P>(id); });
        return "{\"id\":" + std::to_string(id) + "," + body + "}";
    });
}
