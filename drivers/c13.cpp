// C13: memoization. The function answers each evaluation with a new Serie and
// records what it was evaluated on.
#include "common.h"
#include <dataframe/functional/utils/memoize.h>
using namespace vf;
using df::Serie;

struct Eval { std::string in; bool ok; std::string out; };
struct Ctx { std::vector<Eval> ev; Rng r{1}; bool fail = false; };
struct Fun { // state behind a pointer: copies of it count together
    Ctx *c;
    Serie operator()(const Serie &s) const {
        bool ok = !c->fail;
        Serie o = aSerie(c->r, c->r.chance(10) ? 40 : 4);
        c->ev.push_back({encS(s).t, ok, encS(o).t});
        if (!ok) { if (c->r.chance(50)) throw std::runtime_error("no"); throw 3; }
        return o;
    }
};
struct Session {
    Ctx ctx; std::vector<Serie> kept;
    decltype(df::utils::memoize(Fun{nullptr})) memo;
    bool scratch;
    Serie mine; // one input object, rewritten for every call
    explicit Session(uint64_t seed, bool sc) : memo(df::utils::memoize(Fun{&ctx})), scratch(sc) { ctx.r = Rng(seed); emit(O()("op", "begin")); }
    void call(const Serie &given, bool fail) {
        ctx.ev.clear(); ctx.fail = fail;
        if (scratch) mine = given;
        const Serie &s = scratch ? mine : given;
        J in = encS(s), out = list({});
        std::string res = attempt([&] { Serie o = memo(s); out = list({encS(o)}); kept.push_back(o); for (size_t i = 0; i < o.size(); ++i) o.setScalar(uint32_t(i), -77.5); });
        std::vector<J> ev; for (auto &e : ctx.ev) { J i, x; i.t = e.in; x.t = e.out; ev.push_back(O()("in", i)("ok", e.ok)("out", x).j()); }
        emit(O()("op", "call")("in", in)("ev", list(ev))("res", res)("out", out)("after", encS(s)));
        if (scratch) for (size_t i = 0; i < mine.size(); ++i) mine.setScalar(uint32_t(i), -78.5); // must not reach what is remembered
    }
    void clear() { memo.clear_cache(); emit(O()("op", "clear")); }
    void check() { emit(O()("op", "kept")("all", encAll(kept))); }
    ~Session() { check(); }
};

// Inputs that are easily taken for one another.
static std::vector<Serie> family(Rng &r, int want) {
    std::vector<Serie> f;
    int is = r.range(1, 4); uint32_t n = uint32_t(r.chance(10) ? r.range(200, 3000) : r.range(1, 12));
    Serie b = aSerie(r, is, n, 3);
    auto put = [&](const Serie &s) { f.push_back(s); };
    put(b);
    Array a = b.asArray(); size_t N = a.size();
    std::vector<std::function<void()>> ways{
        [&] { put(Serie(is, a, 2)); },
        [&] { for (int k = 1; k <= int(std::min<size_t>(N, 24)); ++k) if (N % size_t(k) == 0 && k != is) { put(Serie(k, a, 3)); break; } },
        [&] { put(Serie(int(N), a, 3)); },
        [&] { put(Serie(1, a, 3)); put(Serie(1, a, 2)); },
        [&] { Array c(a.begin(), a.begin() + long(is * (n - 1))); put(Serie(is, c, 3)); },                      // prefix
        [&] { Array c = a; for (int j = 0; j < is; ++j) c.push_back(0.0); put(Serie(is, c, 3)); },              // one more
        [&] { Array c = a; std::reverse(c.begin(), c.end()); put(Serie(is, c, 3)); },                           // permuted
        [&] { Array c = a; std::rotate(c.begin(), c.begin() + 1, c.end()); put(Serie(is, c, 3)); },
        [&] { Array c = a; c[r.below(uint32_t(N))] = pool().any(r); put(Serie(is, c, 3)); },                    // one value
        [&] { Array c = a; c.back() = std::nextafter(c.back() == c.back() ? c.back() : 1.0, 1e308); put(Serie(is, c, 3)); },
        [&] { Array c = a; c[0] = 0.0; put(Serie(is, c, 3)); c[0] = -0.0; put(Serie(is, c, 3)); },
        [&] { Array c = a; c[r.below(uint32_t(N))] = std::nan(""); put(Serie(is, c, 3)); put(Serie(is, c, 3)); put(Serie(is, c, 2)); },
        [&] { Array c = a; for (auto &x : c) x = -x; put(Serie(is, c, 3)); },
        [&] { put(Serie(1, Array{}, 3)); put(Serie(2, Array{}, 3)); put(Serie(2, Array{}, 2)); put(Serie()); },
        [&] { Array c = a; std::fill(c.begin(), c.end(), 1.0); put(Serie(is, c, 3)); c[N / 2] = 1.0000000000000002; put(Serie(is, c, 3)); },
        [&] { Array c = a; std::swap(c[0], c[N - 1]); put(Serie(is, c, 3)); },
        [&] { Array c = a; if (N > 1) { c[0] = 2; c[1] = 3; put(Serie(is, c, 3)); c[0] = 3; c[1] = 2; put(Serie(is, c, 3)); } },
    };
    while (int(f.size()) < want) ways[r.below(uint32_t(ways.size()))]();
    return f;
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard + 13);
    if (!o.cmds.empty()) {
        uint64_t k = 0;
        for (auto &b : script(o)) {
            auto f = family(r, 4);
            Session s(r.next(), ++k % 2);
            for (auto &c : b) {
                if (c.op() == "call") s.call(f[size_t(c.i(1))], c.i(2) == 1);
                else if (c.op() == "clear") s.clear();
                else { for (auto &x : f) if (x.size() && r.chance(30)) x.setScalar(r.below(uint32_t(x.size())), pool().any(r)); }
            }
        }
        return 0;
    }
    for (int k = 0; k < 60 * o.scale; ++k) {
        auto f = family(r, r.range(2, 30));
        Session s(r.next(), r.chance(50));
        int n = r.range(5, 60), p = r.chance(40) ? 0 : r.range(1, 15), q = r.chance(50) ? 0 : r.range(1, 10);
        for (int i = 0; i < n; ++i) {
            if (r.chance(q)) s.clear();
            else s.call(r.pick(f), r.chance(p));
            if (r.chance(10)) { auto &x = f[r.below(uint32_t(f.size()))]; if (x.size()) x.setScalar(r.below(uint32_t(x.size())), pool().any(r)); }
        }
    }
    // many distinct inputs: nothing may be forgotten
    if (o.shard == 0) {
        Session s(r.next(), true);
        int n = 1100 * (o.scale > 1 ? 2 : 1);
        for (int pass = 0; pass < 2; ++pass)
            for (int i = 0; i < n; ++i) s.call(Serie(1, Array{pool().v[size_t(i % 1200)], pool().v[size_t(i / 1200 + 600)]}, 3), false);
    }
    return 0;
}
