// C27: functions that fail. Each operation is run with functions that never fail,
// then with one that fails at a chosen call, in a chosen way, and again without.
#include "gops.h"
#include <new>
#include <array>
#include <typeinfo>

struct Odd { int id; };
struct Derived : std::runtime_error { int id; Derived(int i) : std::runtime_error("derived"), id(i) {} };
struct Counted { // every copy that was made must also go
    static int &alive() { static int n = 0; return n; }
    int id; Counted(int i) : id(i) { ++alive(); } Counted(const Counted &o) : id(o.id) { ++alive(); } ~Counted() { --alive(); } };
static const int KINDS = 10;
static const char *TEXT = "a text of no type";
[[noreturn]] static void fail(int kind, int id) {
    std::string t = "failure " + std::to_string(id);
    switch (kind) {
    case 0: throw std::runtime_error(t);
    case 1: throw std::invalid_argument(t);
    case 2: throw Derived(id);
    case 3: throw id;
    case 4: throw Odd{id};
    case 5: throw t;
    case 6: throw TEXT;
    case 7: throw std::bad_alloc();
    case 8: throw std::out_of_range(t);
    default: throw Counted(id);
    }
}
static int number(const char *t) { std::string s(t); return s.rfind("failure ", 0) == 0 ? atoi(s.c_str() + 8) : -1; }
// What reached the caller: its kind, and what it carried.
template <class F> static J caught(F &&f) {
    auto r = [](int k, int id) { return O()("kind", k)("id", id).j(); };
    try { f(); return r(-1, 0); }
    catch (const std::bad_alloc &) { return r(7, 0); }
    catch (const Derived &e) { return r(2, e.id); }
    catch (const std::runtime_error &e) { return typeid(e) == typeid(std::runtime_error) ? r(0, number(e.what())) : r(50, 0); }
    catch (const std::invalid_argument &e) { return typeid(e) == typeid(std::invalid_argument) ? r(1, number(e.what())) : r(51, 0); }
    catch (const std::out_of_range &e) { return r(8, number(e.what())); }
    catch (const std::exception &) { return r(52, 0); }
    catch (const Odd &e) { return r(4, e.id); }
    catch (const Counted &e) { return r(9, e.id); }
    catch (const std::string &s) { return r(5, number(s.c_str())); }
    catch (const char *s) { return r(6, s == TEXT ? 0 : 1); }
    catch (int k) { return r(3, k); }
    catch (...) { return r(53, 0); }
}

// Things that are made once and called again and again, also after they failed.
using Handle = std::function<Out(const Serie &)>;
struct KOp { std::string name; bool vec, memo; std::function<Handle(Guard &)> make; };
static std::vector<KOp> ktable() {
    std::vector<KOp> t;
    using A = const Array &; using I = uint32_t; using G = Guard &;
    auto on = [&](const std::string &n, const std::string &kinds, bool memo, std::function<Handle(G)> f) { for (char k : kinds) t.push_back({n, k == 'v', memo, f}); };
    auto wrap = [](auto f) -> Handle { return [f](const Serie &s) { return Out{f(s)}; }; };
    on("memoize", "sv", true, [wrap](G g) { auto m = std::make_shared<decltype(df::utils::memoize(std::function<Serie(const Serie &)>()))>(df::utils::memoize(std::function<Serie(const Serie &)>([&g](const Serie &s) { g.hit(1, s); return df::math::negate(s); }))); return wrap([m](const Serie &s) { return (*m)(s); }); });
    on("memoizeMap", "s", true, [](G g) { auto f = [&g](const Serie &s) { return df::map([&g](double v, I i) { g.hit(1, v, i); return v + i; }, s); };
        auto m = std::make_shared<df::utils::Memoized<decltype(f)>>(df::utils::memoize(f)); return Handle([m](const Serie &s) { return Out{(*m)(s)}; }); });
    on("make_map", "s", false, [wrap](G g) { return wrap(df::make_map([&g](double v, I i) { g.hit(1, v, i); return v * 2; })); });
    on("make_mapA", "v", false, [wrap](G g) { return wrap(df::make_map([&g](A v, I i) { g.hit(1, v, i); return Array(v.rbegin(), v.rend()); })); });
    on("make_filter", "s", false, [wrap](G g) { return wrap(df::make_filter([&g](double v, I i) { g.hit(1, v, i); return v > 0; })); });
    on("make_filterA", "v", false, [wrap](G g) { return wrap(df::make_filter([&g](A v, I i) { g.hit(1, v, i); return v[0] > v[1]; })); });
    on("make_reject", "s", false, [wrap](G g) { return wrap(df::utils::make_reject([&g](double v, I i) { g.hit(1, v, i); return v > 0; })); });
    on("make_cut", "v", false, [wrap](G g) { return wrap(df::utils::make_cut([&g](A v, I i) { g.hit(1, v, i); return v[0] > 0; })); });
    on("make_apply", "s", false, [wrap](G g) { return wrap(df::utils::make_apply([&g](double v, I i) { g.hit(1, v, i); return v - i; })); });
    on("make_check", "v", false, [wrap](G g) { return wrap(df::cond::make_check([&g](A v, I i) { g.hit(1, v, i); return v[1] > 0; })); });
    on("make_sort", "v", false, [wrap](G g) { return wrap(df::utils::make_sort([&g](A v, A w) { g.hit(1, v, w); return v < w; })); });
    on("make_reduce", "s", false, [](G g) { auto f = df::make_reduce([&g](double p, double v, I i) { g.hit(1, p, v, i); return p * 0.5 + v; }, 3.0); return Handle([f](const Serie &s) { return Out{num(f(s))}; }); });
    on("make_forEach", "s", false, [](G g) { auto f = df::make_forEach([&g](double v, I i) { g.hit(1, v, i); }); return Handle([f](const Serie &s) { f(s); return Out{num(1)}; }); });
    on("makeFind", "s", false, [](G g) { auto f = df::makeFind([&g](double v, I i) { g.hit(1, v, i); return v > 60; }); return Handle([f](const Serie &s) { auto r = f(s); return r ? Out{num(r.value), num(r.index)} : Out{num(-1)}; }); });
    on("makeFindAll", "s", false, [wrap](G g) { return wrap(df::makeFindAll([&g](double v, I i) { g.hit(1, v, i); return v > 0; })); });
    on("make_if", "s", false, [wrap](G g) { return wrap(df::cond::make_if_then_else([&g](double v) { g.hit(1, v); return v > 0; }, [&g](double v, I i, const Serie &) { g.hit(2, v, i); return v + 1; }, [&g](double v, I i, const Serie &) { g.hit(3, v, i); return v - 1; })); });
    on("make_pipe", "sv", false, [wrap](G g) { return wrap(df::make_pipe([&g](const Serie &s) { g.hit(1, s); return df::math::negate(s); }, [&g](const Serie &s) { g.hit(2, s); return df::utils::sort(s); })); });
    on("compose", "sv", false, [wrap](G g) { return wrap(df::utils::compose([&g](const Serie &s) { g.hit(1, s); return df::math::negate(s); }, [&g](const Serie &s) { g.hit(2, s); return df::utils::sort(s); })); });
    on("manager", "sv", false, [](G g) { // the frame and its manager stay
        auto cb = [&g](const Dataframe &x) { g.hit(1, x["s"]); return df::math::negate(x["s"]); };
        struct M { Dataframe d; std::unique_ptr<df::Manager> m, n; }; auto m = std::make_shared<M>();
        auto two = [&] { return std::vector<df::Decomposer *>{new df::UserDefinedDecomposer(1, "u", decltype(cb)(cb)), new df::UserDefinedDecomposer(3, "u", decltype(cb)(cb))}; };
        m->m.reset(new df::Manager(m->d, two(), 2)); m->n.reset(new df::Manager(m->d, two(), 3));
        return Handle([m](const Serie &s) { m->d.set("s", s); auto &x = s.dimension() == 2 ? *m->m : *m->n; uint is = s.itemSize(); return Out{names(x.names(is)), x.serie(is, "u"), num(x.contains(is, "u"))}; }); });
    return t;
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    auto ops = gtable();
    auto kops = ktable();
    static Args live;
    int cases = 0, ids = 100;
    std::vector<size_t> lens; // calls made when nothing fails
    auto with = [&](const Args &a) { for (int k = 0; k < 4; ++k) live.s[k] = a.s[k]; live.d = a.d; };
    auto whole = [&](int cas, const GOp &op, const Args &a) {
        with(a); Guard g; Out out; J before = enc(live);
        std::string res = attempt([&] { out = op.f(live, g); });
        J got = encAll(out); for (auto &s : out) for (auto &x : s.asArray()) x = 4321;
        emit(O()("op", "full")("f", op.name)("case", cas)("res", res)("log", list(g.log))("out", got)("before", before)("after", enc(live)));
        return g.calls;
    };
    auto fails = [&](int cas, const GOp &op, const Args &a, size_t k, int kind) { // the k-th call (from 1)
        with(a); Guard g; Out out; J before = enc(live); int id = kind == 6 || kind == 7 ? 0 : ++ids; bool thrown = false;
        g.then = [&](size_t n) { if (n == k) { thrown = true; fail(kind, id); } };
        J c = caught([&] { out = op.f(live, g); });
        emit(O()("op", "fail")("f", op.name)("case", cas)("k", long(k))("thrown", O()("kind", thrown ? kind : -1)("id", thrown ? id : 0).j())("caught", c)("log", list(g.log))("none", out.empty())("left", Counted::alive())("before", before)("after", enc(live)));
    };
    // histories of one thing: a call with one of the Series, failing at its k-th call (0: none)
    auto born = [&](int cas, const KOp &op, const Args &a) { // what it does alone
        for (int j = 0; j < 4; ++j) { Guard g; Handle h = op.make(g); Out out; Serie in = a.s[j]; std::string res = attempt([&] { out = h(in); });
            emit(O()("op", "alone")("f", op.name)("memo", op.memo)("case", cas)("arg", j)("in", encS(a.s[j]))("res", res)("log", list(g.log))("out", encAll(out))("before", 0)("after", 0)); }
    };
    auto keeps = [&](int cas, const KOp &op, const Args &a, const std::vector<std::array<int, 3>> &calls) {
        born(cas, op, a);
        Guard g; Handle h = op.make(g); bool first = true;
        for (auto &c : calls) {
            int j = c[0]; size_t k = size_t(c[1]); int kind = c[2], id = kind == 6 || kind == 7 ? 0 : ++ids; bool thrown = false;
            g.log.clear(); g.calls = 0; g.then = [&](size_t n) { if (n == k) { thrown = true; fail(kind, id); } };
            Out out; Serie in = a.s[j]; J got = caught([&] { out = h(in); });
            J res = encAll(out); for (auto &s : out) for (auto &x : s.asArray()) x = 4321;
            emit(O()("op", "kept")("case", cas)("arg", j)("new", first)("k", long(k))("thrown", O()("kind", thrown ? kind : -1)("id", thrown ? id : 0).j())("caught", got)("log", list(g.log))("out", res)("left", Counted::alive())("before", encS(a.s[j]))("after", encS(in)));
            first = false;
        }
    };
    if (!o.cmds.empty()) { // histories of failing and whole calls chosen by the specification
        size_t base = size_t(o.shard) * 7;
        for (auto &b : script(o)) {
            const GOp &op = ops[base % ops.size()]; Args a; fill(r, op.kind[0], 3, 3, a); int cas = ++cases;
            size_t n = whole(cas, op, a);
            { // the same history, of a thing that stays
                const KOp &kop = kops[base % kops.size()]; Args ka; fill(r, kop.vec ? 'v' : 's', 3, 3, ka); std::vector<std::array<int, 3>> hist; int at = int(base) % 2;
                for (auto &c : b) { int w = c.i(1); hist.push_back({at, w == 0 ? 0 : w == 4 ? 1 : w, (c.i(2) + int(base)) % KINDS}); if (w == 4) at = 1 - at; }
                hist.push_back({at, 0, 0}); hist.push_back({1 - at, 0, 0});
                keeps(++cases, kop, ka, hist);
            }
            for (auto &c : b) {
                int where = c.i(1); // 0 none, 1 first, 2 second, 3 last, 4 the one past the last
                if (where == 0) whole(cas, op, a); else fails(cas, op, a, where == 1 ? 1 : where == 2 ? 2 : where == 3 ? n : n + 1, (c.i(2) + int(base)) % KINDS);
            }
            ++base;
        }
        return 0;
    }
    for (int rep = 0; rep < 3 * o.scale; ++rep) for (size_t k = 0; k < ops.size(); ++k) {
        if (!o.mine(k + size_t(rep))) continue;
        const GOp &op = ops[k]; Args a; uint32_t n = rep == 1 ? aCount(r, 40) : rep % 3 == 2 && r.chance(30) ? aCount(r, 300) : uint32_t(r.range(1, 6));
        fill(r, op.kind[0], n, aDim(r), a); int cas = ++cases;
        size_t m = whole(cas, op, a);
        if (m <= 12) for (size_t j = 1; j <= m + 1; ++j) fails(cas, op, a, j, r.range(0, KINDS - 1));
        else for (size_t j : {size_t(1), m, m - 1, m / 2, size_t(r.range(1, int(m)))}) fails(cas, op, a, j, r.range(0, KINDS - 1));
        whole(cas, op, a);
    }
    for (int rep = 0; rep < 3 * o.scale; ++rep) for (size_t k = 0; k < kops.size(); ++k) {
        if (!o.mine(k + size_t(rep) + 3)) continue;
        Args a; fill(r, kops[k].vec ? 'v' : 's', uint32_t(r.range(0, 12)), aDim(r), a); std::vector<std::array<int, 3>> calls;
        if (r.chance(40)) for (int j = 1; j < 4; ++j) if (r.chance(50)) a.s[j] = a.s[0];
        for (int j = r.range(4, 14); j > 0; --j) calls.push_back({r.chance(60) ? 0 : r.range(0, 3), r.chance(45) ? r.range(1, 5) : 0, r.range(0, KINDS - 1)});
        keeps(++cases, kops[k], a, calls);
    }
    { const GOp &op = ops[size_t(o.shard * 7) % ops.size()]; Args a; fill(r, op.kind[0], uint32_t(r.range(4097, 4200)), 3, a); int cas = ++cases; size_t m = whole(cas, op, a); fails(cas, op, a, m, 2); fails(cas, op, a, m / 2, 4); }
}
