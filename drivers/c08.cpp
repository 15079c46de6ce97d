// C08: traversals. The function is a table of results; every call made to it
// is recorded with the index, the values and (for reduce) the accumulator.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/conditional/if.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/utils/utils.h>
using namespace vf;
using df::Serie;

struct Log { std::vector<int> i; std::string v, acc, ret; size_t n = 0;
    template <class... A> void add(uint32_t k, const A &...a) {
        i.push_back(int(k)); if (n++) { v += ","; }
        v += list(std::vector<J>{encA(a)...}).t; }
    void in(const Array &a) { if (!acc.empty()) acc += ","; acc += encA(a).t; }
    void out(const Array &a) { if (!ret.empty()) ret += ","; ret += encA(a).t; }
    static J arr(const std::string &s) { J j; j.t = "[" + s + "]"; return j; } };

using Table = std::vector<Array>; // result of call k
static Table table(Rng &r, uint32_t n, bool scalar, int bad) {
    int size = scalar ? 1 : r.range(1, 9);
    Table t;
    for (uint32_t i = 0; i < n; ++i) t.push_back(anArray(r, size, n > 40 ? 1 : -1));
    if (bad >= 0 && uint32_t(bad) < n) {
        int by = size > 1 && r.chance(50) ? -1 : 1;
        t[bad] = anArray(r, size + by);
        if (n > 1 && size > by && r.chance(40)) t[(uint32_t(bad) + r.range(1, int(n) - 1)) % n] = anArray(r, size - by); // the sum stays as it was
    }
    return t;
}
static J tab(const Table &t) { std::vector<J> l; for (auto &a : t) l.push_back(encA(a)); return list(l); }

// ret kind: 'n' double, 'i' int, 'b' bool, 'a' Array
template <char RK> static auto give(const Array &a) {
    if constexpr (RK == 'n') return a[0];
    else if constexpr (RK == 'i') return int(a[0]);
    else if constexpr (RK == 'b') return a[0] > 0;
    else return a;
}
static const Array NONE{0.0};
static const Array &at(const Table &t, uint32_t i) { return i < t.size() ? t[i] : NONE; }

template <char RK> static void mapOne(const std::string &op, char kind, const Serie &s, const Table &t) {
    Log log; Serie out;
    auto f = [&](double v, uint32_t i) { log.add(i, Array{v}); log.out(RK == 'i' ? Array{double(int(at(t, i)[0]))} : at(t, i)); return give<RK>(at(t, i)); };
    auto g = [&](const Array &v, uint32_t i) { log.add(i, v); log.out(at(t, i)); return give<RK == 'i' ? 'n' : RK>(at(t, i)); };
    auto go = [&](auto cb) {
        if (op == "map") out = df::map(cb, s); else if (op == "mmap") out = s.map(cb); else if (op == "make_map") out = df::make_map(cb)(s);
        else if (op == "apply") out = df::utils::apply(cb, s); else out = df::utils::make_apply(cb)(s);
    };
    std::string res = attempt([&] { if (kind == 's') go(f); else go(g); });
    emit(O()("op", op)("kind", std::string(1, kind))("rk", std::string(1, RK == 'a' ? 'a' : 'n'))("in", encAll({s}))("ci", log.i)("cv", Log::arr(log.v))("ret", Log::arr(log.ret))("res", res)("out", encAll({out})));
}
template <class... S> static void mapAll(const std::string &op, bool scalar, const Table &t, const S &...s) {
    Log log; Serie out;
    std::string res = attempt([&] {
        auto body = [&](uint32_t i, const auto &...v) -> const Array & { log.add(i, v...); log.out(at(t, i)); return at(t, i); };
        auto go = [&](auto cb) { out = op == "map" ? df::map(cb, s...) : df::utils::apply(cb, s...); };
        if constexpr (sizeof...(s) == 2) {
            if (scalar) go([&](const Array &a, const Array &b, uint32_t i) { return body(i, a, b)[0]; });
            else go([&](const Array &a, const Array &b, uint32_t i) { return body(i, a, b); });
        } else if constexpr (sizeof...(s) == 3) {
            if (scalar) go([&](const Array &a, const Array &b, const Array &c, uint32_t i) { return body(i, a, b, c)[0]; });
            else go([&](const Array &a, const Array &b, const Array &c, uint32_t i) { return body(i, a, b, c); });
        } else {
            if (scalar) go([&](const Array &a, const Array &b, const Array &c, const Array &d, uint32_t i) { return body(i, a, b, c, d)[0]; });
            else go([&](const Array &a, const Array &b, const Array &c, const Array &d, uint32_t i) { return body(i, a, b, c, d); });
        }
    });
    emit(O()("op", op)("kind", "m")("rk", scalar ? "n" : "a")("in", encAll({s...}))("ci", log.i)("cv", Log::arr(log.v))("ret", Log::arr(log.ret))("res", res)("out", encAll({out})));
}
template <class... S> static void eachAll(const S &...s) {
    Log log;
    std::string res = attempt([&] {
        auto body = [&](uint32_t i, const auto &...v) { log.add(i, v...); };
        if constexpr (sizeof...(s) == 2) df::forEach([&](const Array &a, const Array &b, uint32_t i) { body(i, a, b); }, s...);
        else if constexpr (sizeof...(s) == 3) df::forEach([&](const Array &a, const Array &b, const Array &c, uint32_t i) { body(i, a, b, c); }, s...);
        else df::forEach([&](const Array &a, const Array &b, const Array &c, const Array &d, uint32_t i) { body(i, a, b, c, d); }, s...);
    });
    emit(O()("op", "forEach")("kind", "m")("in", encAll({s...}))("ci", log.i)("cv", Log::arr(log.v))("res", res));
}
struct Generic { Log *log; void operator()(double v, uint32_t i) const { log->add(i, Array{v}); } void operator()(const Array &v, uint32_t i) const { log->add(i, v); } };
static void each(const std::string &op, char kind, const Serie &s) {
    Log log;
    auto go = [&](auto cb) { if (op == "forEach") df::forEach(cb, s); else if (op == "mforEach") s.forEach(cb); else df::make_forEach(cb)(s); };
    std::string res = attempt([&] {
        if (kind == 's') go([&](double v, uint32_t i) { log.add(i, Array{v}); });
        else if (kind == 'a') go([&](const Array &v, uint32_t i) { log.add(i, v); });
        else go(Generic{&log});
    });
    emit(O()("op", op)("kind", std::string(1, kind))("in", encAll({s}))("ci", log.i)("cv", Log::arr(log.v))("res", res));
}
static void check(char kind, const Serie &s, const std::vector<int> &ans) {
    Log log; Serie out;
    auto answer = [&](uint32_t i) { return i < ans.size() ? ans[i] == 1 : false; };
    std::string res = attempt([&] {
        if (kind == 's') out = df::cond::check(s, [&](double v, uint32_t i) { log.add(i, Array{v}); return answer(i); });
        else out = df::cond::check(s, [&](const Array &v, uint32_t i) { log.add(i, v); return answer(i); });
    });
    emit(O()("op", "check")("kind", std::string(1, kind))("in", encAll({s}))("ans", ans)("ci", log.i)("cv", Log::arr(log.v))("res", res)("flags", encIA(out.asArray()))("shape", std::vector<int>{int(out.itemSize()), int(out.count())}));
}
// For each item a check, then one of two functions: what the checks saw, which
// function was called with what, and whether it was given the whole Serie.
template <char RK> static void choose(const std::string &op, char kind, const Serie &s, const std::vector<int> &ans, const Table &t) {
    Log log, asked; Serie out; std::vector<int> who, own;
    auto check = [&](const Array &v) { size_t k = asked.n; asked.add(uint32_t(k), v); return k < ans.size() && ans[k] == 1; };
    auto call = [&](int b, const Array &v, uint32_t i, const Serie &all) {
        bool same = &all == &s || (all.itemSize() == s.itemSize() && all.count() == s.count() && all.dimension() == s.dimension() && encA(all.asArray()).t == encA(s.asArray()).t);
        who.push_back(b); own.push_back(same); log.add(i, v); log.out(at(t, i)); return give<RK>(at(t, i)); };
    auto go = [&](auto c, auto y, auto n) { out = op == "if" ? df::cond::if_then_else(s, c, y, n) : df::cond::make_if_then_else(c, y, n)(s); };
    std::string res = attempt([&] {
        if (kind == 's') go([&](double v) { return check({v}); }, [&](double v, uint32_t i, const Serie &a) { return call(1, {v}, i, a); }, [&](double v, uint32_t i, const Serie &a) { return call(2, {v}, i, a); });
        else go([&](const Array &v) { return check(v); }, [&](const Array &v, uint32_t i, const Serie &a) { return call(1, v, i, a); }, [&](const Array &v, uint32_t i, const Serie &a) { return call(2, v, i, a); });
    });
    emit(O()("op", op)("kind", std::string(1, kind))("rk", std::string(1, RK))("in", encAll({s}))("ans", ans)("asked", Log::arr(asked.v))("who", who)("own", own)("ci", log.i)("cv", Log::arr(log.v))("ret", Log::arr(log.ret))("res", res)("out", encAll({out})));
}
static void reduce(const std::string &op, Serie s, const Table &t, const Array &init) {
    Log log; Array got; int is = 1, n = 1;
    std::string res = attempt([&] {
        if (s.itemSize() == 1 && init.size() == 1) {
            auto f = [&](double a, double v, uint32_t i) -> double { log.add(i, Array{v}); log.in({a}); log.out(at(t, i)); return at(t, i)[0]; };
            got = {op == "reduce" ? df::reduce(f, s, init[0]) : op == "mreduce" ? s.reduce(f, init[0]) : df::make_reduce(f, init[0])(s)};
        } else {
            auto f = [&](const Array &a, const Array &v, uint32_t i) -> Array { log.add(i, v); log.in(a); log.out(at(t, i)); return at(t, i); };
            Serie o = op == "reduce" ? df::reduce(f, s, init) : op == "mreduce" ? s.reduce(f, init) : df::make_reduce(f, init)(s);
            got = o.asArray(); is = int(o.itemSize()); n = int(o.count());
        }
    });
    emit(O()("op", op)("kind", "r")("in", encAll({s}))("init", encA(init))("ci", log.i)("cv", Log::arr(log.v))("acc", Log::arr(log.acc))("ret", Log::arr(log.ret))("res", res)("val", encA(got))("shape", std::vector<int>{is, n}));
}

// The same over a plain list, of numbers or of whole Series.
static void lists(Rng &r, uint32_t n) {
    Log log; std::vector<double> got; Array in = anArray(r, n); Table t = table(r, n, true, -1); size_t k = 0;
    std::string res = attempt([&] { got = df::map(std::as_const(in), [&](double v) { log.add(uint32_t(k), Array{v}); log.out(at(t, uint32_t(k))); return at(t, uint32_t(k++))[0]; }); });
    emit(O()("op", "vmap")("kind", "s")("rk", "n")("in", encAll({Serie(1, in, 3)}))("ci", log.i)("cv", Log::arr(log.v))("ret", Log::arr(log.ret))("res", res)("out", encAll({Serie(1, got, 3)})));
    std::vector<Serie> ss, os, want; for (uint32_t i = 0; i < std::min(n, 9u); ++i) { ss.push_back(aSerie(r, 3)); want.push_back(aSerie(r, 3)); }
    std::vector<Serie> seen; res = attempt([&] { os = df::map(std::as_const(ss), [&](const Serie &s) { seen.push_back(s); return want[seen.size() - 1]; }); });
    emit(O()("op", "smap")("res", res)("in", encAll(ss))("seen", encAll(seen))("ret", encAll(want))("out", encAll(os)));
}
static void dispatch(Rng &r, int what, const Serie &s, int bad) {
    static const std::vector<std::string> MAPS{"map", "mmap", "make_map", "apply", "make_apply"}, EACH{"forEach", "mforEach", "make_forEach"}, RED{"reduce", "mreduce", "make_reduce"};
    uint32_t n = s.count();
    char kind = s.itemSize() == 1 && !r.chance(15) ? 's' : 'a';
    if (what == 0) { // map
        int rk = r.range(0, 3);
        if (rk == 0) mapOne<'n'>(r.pick(MAPS), kind, s, table(r, n, true, -1));
        else if (rk == 1 && kind == 's') { Table t = table(r, n, true, -1); for (auto &a : t) a[0] = r.range(-5000, 5000); mapOne<'i'>(r.pick(MAPS), kind, s, t); }
        else mapOne<'a'>(r.pick(MAPS), kind, s, table(r, n, false, bad));
    } else if (what == 1) each(r.pick(EACH), r.chance(25) ? 'g' : r.chance(15) ? (kind == 's' ? 'a' : 's') : s.itemSize() == 1 ? 's' : 'a', s);
    else if (what == 2 && r.chance(50)) check(kind, s, answers(r, n));
    else if (what == 2) { // which of two
        std::string op = r.chance(60) ? "if" : "make_if";
        if (r.chance(50)) choose<'n'>(op, kind, s, answers(r, n), table(r, n, true, -1)); else choose<'a'>(op, kind, s, answers(r, n), table(r, n, false, bad));
    }
    else {
        bool scalar = kind == 's';
        reduce(r.pick(RED), s, table(r, n, scalar, scalar ? -1 : bad), anArray(r, scalar ? 1 : r.range(2, 6)));
    }
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) for (auto &c : b) {
            auto is = c.l(1), n = c.l(2); int what = c.i(3), bad = c.i(4);
            std::vector<Serie> in;
            for (size_t k = 0; k < is.size(); ++k) in.push_back(aSerie(r, is[k], uint32_t(n[k]), 2 + k % 2, r.chance(50) ? 2 : 0));
            if (in.size() == 1) dispatch(r, what, in[0], bad);
            else if (in.size() == 2) { if (what == 0) mapAll("map", bad == -2, table(r, in[0].count(), bad == -2, bad), in[0], in[1]); else eachAll(in[0], in[1]); }
            else { if (what == 0) mapAll("apply", bad == -2, table(r, in[0].count(), bad == -2, bad), in[0], in[1], in[2]); else eachAll(in[0], in[1], in[2]); }
        }
        return 0;
    }
    for (int k = 0; k < 200 * o.scale; ++k) {
        uint32_t cap = k % 40 == 7 ? 4200 : 400;
        int bad = r.chance(20) ? r.range(0, 6) : r.chance(5) ? 100 : -1;
        if (r.chance(4)) lists(r, aCount(r, cap));
        if (r.chance(65)) { Serie s = aSerie(r, cap); if (bad == 100) bad = int(s.count()) - 1; dispatch(r, r.range(0, 3), s, bad); continue; }
        int m = r.range(2, 4);
        uint32_t n = aCount(r, cap);
        if (bad == 100) bad = int(n) - 1;
        std::vector<Serie> in;
        for (int j = 0; j < m; ++j) in.push_back(aSerie(r, anItemSize(r, n), n, aDim(r)));
        if (r.chance(12)) { int j = r.below(m); uint32_t n2 = r.chance(50) ? n + 1 : r.chance(50) && n > 0 ? n - 1 : 0; in[j] = aSerie(r, anItemSize(r), n2, aDim(r)); }
        bool scalar = r.chance(50);
        Table t = table(r, std::max(n, in[0].count()), scalar, scalar ? -1 : bad);
        std::string op = r.chance(50) ? "map" : "apply";
        if (r.chance(40)) { if (m == 2) eachAll(in[0], in[1]); else if (m == 3) eachAll(in[0], in[1], in[2]); else eachAll(in[0], in[1], in[2], in[3]); }
        else { if (m == 2) mapAll(op, scalar, t, in[0], in[1]); else if (m == 3) mapAll(op, scalar, t, in[0], in[1], in[2]); else mapAll(op, scalar, t, in[0], in[1], in[2], in[3]); }
    }
    dispatch(r, o.shard % 4, aSerie(r, 1, 65537 + r.below(500), 2, 1), -1);
}
