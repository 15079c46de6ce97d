// Operations that are given functions. Every call of such a function goes through
// the guard, which records it and then does what the test wants: nothing, fail, or
// use the library itself.
#pragma once
#include "ops.h"

struct Guard {
    std::vector<J> log; std::function<void(size_t)> then; bool quiet = false;
    size_t calls = 0;
    template <class... A> void hit(int tag, const A &...a) { // the arguments of the call
        ++calls;
        if (!quiet) { std::vector<J> l{J(tag)}; (l.push_back(one(a)), ...); log.push_back(list(l)); }
        if (then) then(calls);
    }
    static J one(double v) { return encA(Array{v}); }
    static J one(uint32_t i) { return J(long(i)); }
    static J one(const Array &a) { return encA(a); }
    static J one(const Serie &s) { return encS(s); }
};
struct GOp { std::string name, kind; std::function<Out(const Args &, Guard &)> f; };

static std::vector<GOp> gtable() {
    using namespace df;
    std::vector<GOp> t;
    auto on = [&](const std::string &n, const std::string &kinds, std::function<Out(const Args &, Guard &)> f) { for (char k : kinds) t.push_back({n, std::string(1, k), f}); };
    using A = const Array &;
    using I = uint32_t;
    using G = Guard &;
    static auto sum = [](A v) { double s = 0; for (double x : v) s += x; return s; };
    auto lst = [](auto l) { return Out(l.begin(), l.end()); };
    auto tup = [](auto t) { Out o; std::apply([&](auto &...x) { (o.push_back(x), ...); }, t); return o; };
    on("forEach", "s", [](const Args &a, G g) { Array l; df::forEach([&](double v, I i) { g.hit(1, v, i); l.push_back(v + i); }, a.s[0]); return Out{arr(l)}; });
    on("forEachA", "v", [](const Args &a, G g) { Array l; df::forEach([&](A v, I i) { g.hit(1, v, i); l.push_back(v[0] + i); }, a.s[0]); return Out{arr(l)}; });
    on("forEach2", "sv", [](const Args &a, G g) { Array l; df::forEach([&](A v, A w, I i) { g.hit(1, v, w, i); l.push_back(v[0] - w[0] + i); }, a.s[0], a.s[1]); return Out{arr(l)}; });
    on("mforEach", "s", [](const Args &a, G g) { Array l; a.s[0].forEach([&](double v, I i) { g.hit(1, v, i); l.push_back(v); }); return Out{arr(l)}; });
    on("make_forEach", "s", [](const Args &a, G g) { Array l; auto f = df::make_forEach([&](double v, I i) { g.hit(1, v, i); l.push_back(v); }); f(a.s[0]); f(a.s[1]); return Out{arr(l)}; });
    on("map", "s", [](const Args &a, G g) { return Out{df::map([&](double v, I i) { g.hit(1, v, i); return v * 2 + i; }, a.s[0])}; });
    on("mapWide", "s", [](const Args &a, G g) { return Out{df::map([&](double v, I i) { g.hit(1, v, i); return Array{v, double(i), 1}; }, a.s[0])}; });
    on("mapA", "v", [](const Args &a, G g) { return Out{df::map([&](A v, I i) { g.hit(1, v, i); return Array(v.rbegin(), v.rend()); }, a.s[0])}; });
    on("mapN", "v", [](const Args &a, G g) { return Out{a.s[0].map([&](A v, I i) { g.hit(1, v, i); return sum(v); })}; });
    on("map3", "sv", [](const Args &a, G g) { return Out{df::map([&](A v, A w, A x, I i) { g.hit(1, v, w, x, i); return Array{sum(v), sum(w), sum(x)}; }, a.s[0], a.s[1], a.s[2])}; });
    on("make_map", "s", [](const Args &a, G g) { auto f = df::make_map([&](double v, I i) { g.hit(1, v, i); return -v; }); return Out{f(a.s[0]), f(a.s[1])}; });
    on("apply", "s", [](const Args &a, G g) { return Out{utils::apply([&](double v, I i) { g.hit(1, v, i); return v + 1; }, a.s[0])}; });
    on("applyA", "v", [](const Args &a, G g) { return Out{utils::apply([&](A v, A w, I i) { g.hit(1, v, w, i); return Array{v[0], w[0]}; }, a.s[0], a.s[1])}; });
    on("check", "s", [](const Args &a, G g) { return Out{cond::check(a.s[0], [&](double v, I i) { g.hit(1, v, i); return v > 0; })}; });
    on("checkA", "v", [](const Args &a, G g) { return Out{cond::check(a.s[0], [&](A v, I i) { g.hit(1, v, i); return v[1] > 0; })}; });
    on("if", "s", [](const Args &a, G g) { return Out{cond::if_then_else(a.s[0], [&](double v) { g.hit(1, v); return v > 0; }, [&](double v, I i, const Serie &) { g.hit(2, v, i); return v + 1; }, [&](double v, I i, const Serie &) { g.hit(3, v, i); return v - 1; })}; });
    on("ifA", "v", [](const Args &a, G g) { return Out{cond::if_then_else(a.s[0], [&](A v) { g.hit(1, v); return v[0] > 0; }, [&](A v, I i, const Serie &) { g.hit(2, v, i); return Array(v.rbegin(), v.rend()); }, [&](A v, I i, const Serie &) { g.hit(3, v, i); return v; })}; });
    on("reduce", "s", [](const Args &a, G g) { return Out{num(df::reduce([&](double p, double v, I i) { g.hit(1, p, v, i); return p * 0.5 + v; }, a.s[0], 1.0))}; });
    on("reduceA", "v", [](const Args &a, G g) { return Out{df::reduce([&](A p, A v, I i) { g.hit(1, p, v, i); Array r = p; r[0] += v[0]; return r; }, a.s[0], Array{1., 2.})}; });
    on("make_reduce", "s", [](const Args &a, G g) { auto f = df::make_reduce([&](double p, double v, I i) { g.hit(1, p, v, i); return p - v; }, 2.0); return Out{num(f(a.s[0])), num(f(a.s[1]))}; });
    on("filter", "s", [](const Args &a, G g) { return Out{df::filter([&](double v, I i) { g.hit(1, v, i); return v > 0 || i == 1; }, a.s[0])}; });
    on("filterA", "v", [](const Args &a, G g) { return Out{a.s[0].filter([&](A v, I i) { g.hit(1, v, i); return v[0] > v[1]; })}; });
    on("make_filter", "s", [](const Args &a, G g) { auto f = df::make_filter([&](double v, I i) { g.hit(1, v, i); return v < 0; }); return Out{f(a.s[0]), f(a.s[1])}; });
    on("filter2", "sv", [tup](const Args &a, G g) { return tup(df::filter([&](A v, A w, I i) -> bool { g.hit(1, v, w, i); return v[0] > w[0]; }, a.s[0], a.s[1])); });
    on("filterAll", "sv", [lst](const Args &a, G g) { return lst(df::filterAll([&](A v, A w) -> bool { g.hit(1, v, w); return v[0] > w[0]; }, a.s[0], a.s[1])); });
    on("reject", "s", [](const Args &a, G g) { return Out{utils::reject([&](double v, I i) { g.hit(1, v, i); return v > 0; }, a.s[0])}; });
    on("rejectA", "v", [](const Args &a, G g) { return Out{utils::reject([&](A v, I i) { g.hit(1, v, i); return v[0] > v[1]; }, a.s[0])}; });
    on("reject2", "sv", [tup](const Args &a, G g) { return tup(utils::reject([&](A v, A w, I i) -> bool { g.hit(1, v, w, i); return v[0] > w[0]; }, a.s[0], a.s[1])); });
    on("rejectAll", "sv", [lst](const Args &a, G g) { return lst(utils::rejectAll([&](A v, A w) -> bool { g.hit(1, v, w); return v[0] > w[0]; }, a.s[0], a.s[1])); });
    on("find", "s", [](const Args &a, G g) { auto r = df::find([&](double v, I i) { g.hit(1, v, i); return v > 60; }, a.s[0]); return r ? Out{num(r.value), num(r.index)} : Out{}; });
    on("findA", "v", [](const Args &a, G g) { auto r = df::find([&](A v, I i) { g.hit(1, v, i); return v[0] > 60; }, a.s[0]); return r ? Out{arr(r.value), num(r.index)} : Out{}; });
    on("findAll", "s", [](const Args &a, G g) { return Out{df::findAll([&](double v, I i) { g.hit(1, v, i); return v > 0; }, a.s[0])}; });
    on("findAllA", "v", [](const Args &a, G g) { return Out{df::findAll([&](A v, I i) { g.hit(1, v, i); return v[0] > 0; }, a.s[0])}; });
    on("cut", "s", [](const Args &a, G g) { return Out{utils::cut([&](double v, I i) { g.hit(1, v, i); return v < 60; }, a.s[0])}; });
    on("cutA", "v", [](const Args &a, G g) { return Out{utils::cut([&](A v, I i) { g.hit(1, v, i); return v[0] < 60; }, a.s[0])}; });
    on("partition", "s", [](const Args &a, G g) { auto [p, q] = utils::partition([&](double v, I i) { g.hit(1, v, i); return v > 0; }, a.s[0]); return Out{p, q}; });
    on("partitionA", "v", [](const Args &a, G g) { auto [p, q] = utils::partition([&](A v, I i) { g.hit(1, v, i); return v[1] > 0; }, a.s[0]); return Out{p, q}; });
    on("sort", "s", [](const Args &a, G g) { return Out{utils::sort(a.s[0], [&](A v, A w) { g.hit(1, v, w); return v[0] > w[0]; })}; });
    on("sortA", "v", [](const Args &a, G g) { return Out{utils::sort(a.s[0], [&](A v, A w) { g.hit(1, v, w); return v < w; })}; });
    on("pipe", "s", [](const Args &a, G g) { return Out{a.s[0].pipe([&](const Serie &s) { g.hit(1, s); return math::negate(s); }, [&](const Serie &s) { g.hit(2, s); return df::map([&](double v, I i) { g.hit(3, v, i); return v + 1; }, s); }, df::make_filter([&](double v, I i) { g.hit(4, v, i); return v > 0; }))}; });
    on("make_pipe", "v", [](const Args &a, G g) { auto f = df::make_pipe([&](const Serie &s) { g.hit(1, s); return math::negate(s); }, [&](const Serie &s) { g.hit(2, s); return utils::sort(s); }); return Out{f(a.s[0]), f(a.s[1])}; });
    on("compose", "s", [](const Args &a, G g) { auto f = utils::compose([&](const Serie &s) { g.hit(1, s); return math::negate(s); }, [&](const Serie &s) { g.hit(2, s); return math::add(s, 1.); }); return Out{f(a.s[0])}; });
    on("memoize", "sv", [](const Args &a, G g) { auto f = utils::memoize([&](const Serie &s) { g.hit(1, s); return math::negate(s); }); return Out{f(a.s[0]), f(a.s[1]), f(a.s[0])}; });
    on("userDefined", "sv", [](const Args &a, G g) {
        auto d = [&](double k) { return [&g, k](const Dataframe &x) { g.hit(int(k), x["s0"]); return math::scale(x["s0"], k); }; };
        df::UserDefinedDecomposer u(a.s[0].itemSize(), "u", d(2)); auto n = u.names(a.d, a.s[0].itemSize(), a.s[0], "s0"); return Out{names(n), u.serie(a.d, a.s[0].itemSize(), "u"), u.serie(a.d, a.s[0].itemSize() + 1, "u")}; });
    on("manager", "sv", [](const Args &a, G g) {
        auto d = [&](double k) { return [&g, k](const Dataframe &x) { g.hit(int(k), x["s0"]); return math::scale(x["s0"], k); }; };
        uint is = a.s[0].itemSize();
        std::vector<df::Decomposer *> ds{new df::Components(), new df::UserDefinedDecomposer(is, "u", d(2)), new df::UserDefinedDecomposer(is, "w", d(3))};
        df::Manager m(a.d, ds, a.s[0].dimension()); auto n = m.names(is);
        return Out{names(n), m.serie(is, "w"), m.serie(is, "u"), num(m.contains(is, "w")), m.serie(is, "nobody")}; });
    return t;
}
