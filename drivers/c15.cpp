// C15: pipelines and compositions of logged operations, in every grouping;
// reusable operations against the operations they were made from.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/conditional/if.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/geo/insar.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/zip.h>
#include <dataframe/functional/utils/sort.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/equals.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/stats/bins.h>
#include <dataframe/functional/stats/quantile.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/geo/insar.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/cross.h>
using namespace vf;
using df::Serie;

// ------------------------------------------------------------ values
using Two = std::pair<Serie, Serie>;
struct Data { Serie stress, positions; };
static J enc(const Serie &s) { return list({encIS(s)}); }
static J enc(const Two &p) { return list({encIS(p.first), encIS(p.second)}); }
static J enc(const Data &d) { return list({encIS(d.stress), encIS(d.positions)}); }
static J enc(double x) { return list({O()("is", 1)("n", 1)("dim", 3)("v", encIA({x})).j()}); }
static J enc(const std::vector<Serie> &l) { std::vector<J> r; for (auto &s : l) r.push_back(encIS(s)); return list(r); }

static const int CA[8]{2, 3, 5, 1, 7, 11, 13, 96}, CB[8]{1, 2, 0, 5, 3, 10, 1, 4};
static Serie does(int k, const Serie &s) {
    Array a = s.asArray(); size_t is = s.itemSize();
    if (k < 8) for (auto &v : a) v = double((CA[k] * int(v) + CB[k]) % 97);
    else if (k == 8) { if (s.count()) a.resize(a.size() - is); }
    else if (k == 9) { Array b; for (uint32_t i = s.count(); i-- > 0;) b.insert(b.end(), a.begin() + long(i * is), a.begin() + long((i + 1) * is)); a = b; }
    return Serie(int(is), a, s.dimension());
}
static Two does(int k, const Two &p) { return k == 10 ? Two{p.second, p.first} : Two{does(k, p.first), does(k, p.second)}; }
static Data does(int k, const Data &p) { return k == 10 ? Data{p.positions, p.stress} : Data{does(k, p.stress), does(k, p.positions)}; }
static double does(int k, double x) { return k < 8 ? double((CA[k] * int(x) + CB[k]) % 97) : x; }
static std::vector<Serie> does(int k, const std::vector<Serie> &l) { std::vector<Serie> r; for (auto &s : l) r.push_back(does(k, s)); if (k == 10) r = {l.rbegin(), l.rend()}; return r; }

static std::vector<J> *gCalls = nullptr;
struct Fail {};
static void logged(int k, const J &x) { gCalls->push_back(O()("k", k)("x", x).j()); if (k == 15) { throw Fail(); } }
template <class V> struct Op { int k; V operator()(const V &x) const { logged(k, enc(x)); return does(k, x); } };

// ------------------------------------------------------------ programs
struct Node { int t = 0, k = 0; std::vector<Node> l; }; // t: 0 operation, 1 pipe, 2 composition
static J tree(const Node &n) {
    if (n.t == 0) return O()("t", "op")("k", n.k).j();
    std::vector<J> l; for (auto &c : n.l) l.push_back(tree(c));
    return O()("t", n.t == 1 ? "pipe" : "comp")("l", list(l)).j();
}
template <class V> using F = std::function<V(const V &)>;
// made of lvalues or of temporaries
template <class V> static F<V> build(const Node &n) {
    if (n.t == 0) return Op<V>{n.k};
    std::vector<F<V>> c; for (auto &x : n.l) c.push_back(build<V>(x));
    using std::move;
    bool lv = n.l.size() % 2;
    if (n.t == 1) switch (c.size()) {
        case 1: return lv ? F<V>(df::make_pipe(c[0])) : F<V>(df::make_pipe(move(c[0])));
        case 2: return lv ? F<V>(df::make_pipe(c[0], c[1])) : F<V>(df::make_pipe(move(c[0]), move(c[1])));
        case 3: return lv ? F<V>(df::make_pipe(c[0], c[1], c[2])) : F<V>(df::make_pipe(move(c[0]), move(c[1]), move(c[2])));
        case 4: return lv ? F<V>(df::make_pipe(c[0], c[1], c[2], c[3])) : F<V>(df::make_pipe(move(c[0]), c[1], move(c[2]), c[3]));
        case 5: return df::make_pipe(c[0], c[1], move(c[2]), c[3], c[4]);
        default: return df::make_pipe(c[0], c[1], c[2], c[3], c[4], c[5]);
    }
    switch (c.size()) {
    case 2: return lv ? F<V>(df::utils::compose(c[0], c[1])) : F<V>(df::utils::compose(move(c[0]), move(c[1])));
    case 3: return lv ? F<V>(df::utils::compose(c[0], c[1], c[2])) : F<V>(df::utils::compose(move(c[0]), move(c[1]), move(c[2])));
    case 4: return lv ? F<V>(df::utils::compose(c[0], c[1], c[2], c[3])) : F<V>(df::utils::compose(move(c[0]), c[1], move(c[2]), c[3]));
    case 5: return df::utils::compose(c[0], c[1], move(c[2]), c[3], c[4]);
    default: return df::utils::compose(c[0], c[1], c[2], c[3], c[4], c[5]);
    }
}
// A pipe applied at once: df::pipe, or the member of Serie.
template <class V> static V atOnce(const Node &n, const V &x, bool member) {
    std::vector<F<V>> c; for (auto &y : n.l) c.push_back(build<V>(y));
    if constexpr (std::is_same_v<V, Serie>)
        if (member) switch (c.size()) {
            case 1: return x.pipe(c[0]); case 2: return x.pipe(c[0], c[1]); case 3: return x.pipe(c[0], c[1], c[2]);
            case 4: return x.pipe(c[0], c[1], c[2], c[3]); case 5: return x.pipe(c[0], c[1], c[2], c[3], c[4]); default: return x.pipe(c[0], c[1], c[2], c[3], c[4], c[5]);
        }
    switch (c.size()) {
    case 1: return df::pipe(x, c[0]); case 2: return df::pipe(x, c[0], c[1]); case 3: return df::pipe(x, c[0], std::move(c[1]), c[2]);
    case 4: return df::pipe(x, c[0], c[1], c[2], c[3]); case 5: return df::pipe(x, c[0], c[1], c[2], c[3], c[4]); default: return df::pipe(x, c[0], c[1], c[2], c[3], c[4], c[5]);
    }
}
template <class V, class G> static void run(const J &prog, const V &x, G &&g) {
    std::vector<J> calls; gCalls = &calls;
    J out = list({}), in = enc(x);
    std::string res = attempt([&] { out = enc(g(x)); });
    emit(O()("op", "run")("prog", prog)("x", in)("calls", list(calls))("res", res)("out", out)("after", enc(x)));
}

static Serie ser(Rng &r) { int is = r.range(1, 4); return Serie(is, intArray(r, size_t(is) * aCount(r, 60), 0, 96), aDim(r)); }
static Serie val(Rng &r, const Serie *) { return ser(r); }
static Two val(Rng &r, const Two *) { return {ser(r), ser(r)}; }
static Data val(Rng &r, const Data *) { return {ser(r), ser(r)}; }
static double val(Rng &r, const double *) { return r.range(0, 96); }
static std::vector<Serie> val(Rng &r, const std::vector<Serie> *) { std::vector<Serie> l; int n = r.range(0, 4); for (int i = 0; i < n; ++i) l.push_back(ser(r)); return l; }

template <class V> static void program(Rng &r, const Node &n) {
    auto f = build<V>(n);
    int uses = r.range(1, 3);
    auto g = f; // a copy behaves as the original
    for (int i = 0; i < uses; ++i) run<V>(tree(n), val(r, (V *)nullptr), i == 1 ? g : f);
    if (n.t == 1) { run<V>(tree(n), val(r, (V *)nullptr), [&](const V &x) { return atOnce<V>(n, x, false); });
                    run<V>(tree(n), val(r, (V *)nullptr), [&](const V &x) { return atOnce<V>(n, x, true); }); }
}
static void numeric(Node &n) { if (n.k != 15) n.k %= 8; for (auto &c : n.l) numeric(c); }
static void anyProgram(Rng &r, const Node &n) {
    switch (r.range(0, 5)) { case 0: program<Two>(r, n); break; case 1: program<Data>(r, n); break; case 2: { Node m = n; numeric(m); program<double>(r, m); break; } case 3: program<std::vector<Serie>>(r, n); break; default: program<Serie>(r, n); }
}
static int anOp(Rng &r) { return r.chance(3) ? 15 : r.range(0, 9); }
static Node random(Rng &r, int depth) {
    Node n;
    if (depth == 0 || r.chance(35)) { n.k = anOp(r); return n; }
    n.t = r.range(1, 2);
    int a = n.t == 1 ? r.range(1, 6) : r.range(2, 6);
    if (depth < 3) a = std::min(a, 3);
    for (int i = 0; i < std::max(a, n.t); ++i) n.l.push_back(random(r, depth - 1));
    return n;
}
// Types change along the way; the operations are plain lambdas and temporaries.
static Node op(int k) { Node n; n.k = k; return n; }
static Node grp(int t, std::vector<Node> l) { Node n; n.t = t; n.l = std::move(l); return n; }
static void typed(Rng &r) {
#ifndef REDUCED
    auto split = [](const Serie &s) { logged(11, enc(s)); return Two{s, does(0, s)}; };
    auto swap = [](const Two &p) { logged(10, enc(p)); return Two{p.second, p.first}; };
    auto first = [](const Two &p) { logged(12, enc(p)); return p.first; };
    auto count = [](const Serie &s) { logged(13, enc(s)); return double(s.count()); };
    auto two = [](double x) { logged(1, enc(x)); return does(1, x); };
    using namespace df; using df::utils::compose;
    auto P = [](std::vector<Node> l) { return grp(1, std::move(l)); }; auto C = [](std::vector<Node> l) { return grp(2, std::move(l)); };
    Serie s = ser(r);
    run<Serie>(tree(P({op(11), op(10), op(12), op(13), op(1)})), s, [&](const Serie &x) { return pipe(x, split, swap, first, count, two); });
    run<Serie>(tree(P({op(11), op(10), op(12), op(13), op(1)})), s, [&](const Serie &x) { return x.pipe(split, swap, first, count, two); });
    run<Serie>(tree(C({op(1), op(13), op(12), op(10), op(11)})), s, [&](const Serie &x) { return compose(two, count, first, swap, split)(x); });
    auto a = make_pipe(split, swap);
    auto b = make_pipe(first, count);
    auto ab = make_pipe(a, b, make_pipe(two));
    run<Serie>(tree(P({P({op(11), op(10)}), P({op(12), op(13)}), P({op(1)})})), s, ab);
    run<Serie>(tree(P({P({op(11), op(10)}), P({op(12), op(13)}), P({op(1)})})), ser(r), ab);
    auto c = compose(compose(two, count), compose(first, swap), split);
    run<Serie>(tree(C({C({op(1), op(13)}), C({op(12), op(10)}), op(11)})), s, c);
    run<Serie>(tree(C({C({op(1), op(13)}), C({op(12), op(10)}), op(11)})), ser(r), c);
    run<Serie>(tree(C({op(1), C({op(13), P({op(11), op(10), op(12)})})})), s, compose(two, compose(count, make_pipe(split, swap, first))));
    run<Serie>(tree(P({C({op(10), op(11)}), op(12), C({op(1), op(13)})})), s, make_pipe(compose(swap, split), first, compose(two, count)));
#endif
}

// ------------------------------------------------------------ reusable operations
static J e(const Serie &s) { return encS(s); }
static J e(double d) { return pool().enc(d); }
static J e(bool b) { return b; }
static J e(const std::vector<double> &a) { return encA(a); }
template <class T> static auto e(const T &o) -> decltype(o.has_value(), J()) { if (!o) return "none"; return list({J(int(o->first)), e(o->second)}); }
template <class D, class M, class A> static void reuse(const char *name, D &&direct, M &&made, const std::vector<A> &args) {
    std::vector<J> d, m; auto copy = made;
    auto one = [&](auto &&f, const A &a) { J r; std::string res = attempt([&] { r = e(f(a)); }); return O()("res", res)("r", res == "ok" ? r : J("-")).j(); };
    for (auto &a : args) d.push_back(one(direct, a));
    for (size_t i = 0; i < args.size(); ++i) m.push_back(i % 2 ? one(copy, args[i]) : one(made, args[i]));
    for (auto &a : args) { d.push_back(one(direct, a)); m.push_back(one(made, a)); }
    emit(O()("op", "reuse")("name", name)("direct", list(d))("made", list(m)));
}
static void reusables(Rng &r) {
    using namespace df; using namespace df::utils;
    auto S = [&](int is, uint32_t n) { return Serie(is, intArray(r, size_t(is) * n, -9, 9, 0.25), aDim(r)); };
    uint32_t n = aCount(r, 40); int is = r.range(1, 4);
    std::vector<Serie> sc{S(1, n), S(1, aCount(r, 20)), S(1, 0), S(1, n)}, ve{S(is, n), S(3, aCount(r, 20)), S(2, 5), S(is, n), S(3, n)}, all = sc; all.insert(all.end(), ve.begin(), ve.end());
    double k = r.range(-6, 6) * 0.5;
    auto up = [k](double v, uint32_t i) { return v * k + i; };
    auto pos = [k](double v, uint32_t i) { return v > k || i % 3 == 0; };
    auto posA = [k](const Array &v, uint32_t i) { return v[0] > k || i % 4 == 0; };
    auto upA = [k](const Array &v, uint32_t i) { Array a = v; a[0] += k * i; return a; };
    reuse("map", [&](const Serie &s) { return df::map(up, s); }, make_map(up), sc);
    reuse("mapA", [&](const Serie &s) { return df::map(upA, s); }, make_map(upA), ve);
    reuse("apply", [&](const Serie &s) { return df::utils::apply(up, s); }, make_apply(up), sc);
    reuse("filter", [&](const Serie &s) { return df::filter(pos, s); }, make_filter(pos), sc);
    reuse("filterA", [&](const Serie &s) { return df::filter(posA, s); }, make_filter(posA), ve);
    reuse("reject", [&](const Serie &s) { return df::utils::reject(pos, s); }, make_reject(pos), sc);
    reuse("rejectA", [&](const Serie &s) { return df::utils::reject(posA, s); }, make_reject(posA), ve);
    reuse("cut", [&](const Serie &s) { return cut(pos, s); }, make_cut(pos), sc);
    reuse("cutA", [&](const Serie &s) { return cut(posA, s); }, make_cut(posA), ve);
    reuse("find", [&](const Serie &s) { return df::find(pos, s); }, df::makeFind(pos), sc);
    reuse("findAll", [&](const Serie &s) { return df::findAll(pos, s); }, df::makeFindAll(pos), sc);
    reuse("findAllA", [&](const Serie &s) { return df::findAll(posA, s); }, df::makeFindAll(posA), ve);
    auto sum = [k](double a, double v, uint32_t i) { return a * k + v + i; };
    reuse("reduce", [&](const Serie &s) { return df::reduce(sum, s, k); }, make_reduce(sum, k), sc);
    auto sumA = [k](const Array &a, const Array &v, uint32_t i) { Array o = a; for (size_t j = 0; j < o.size() && j < v.size(); ++j) o[j] = o[j] * k + v[j] + i; return o; };
    Array init(size_t(is), k);
    reuse("reduceA", [&](const Serie &s) { return df::reduce(sumA, s, init); }, make_reduce(sumA, init), ve);
    { // forEach: what it calls, in order
        Array seen; auto see = [&](double v, uint32_t i) { seen.push_back(v); seen.push_back(i); };
        auto w = [&](auto f) { return [&, f](const Serie &s) { seen.clear(); f(s); return seen; }; };
        reuse("forEach", w([&](const Serie &s) { df::forEach(see, s); }), w(make_forEach(see)), sc);
    }
    // operations holding a Serie: what they hold is theirs
    Serie h1 = S(1, n), h = S(is, n);
    auto held = [&](const char *name, auto direct, auto make, const Serie &x, const std::vector<Serie> &args) {
        Serie mine = x; auto made = make(mine);
        for (size_t i = 0; i < mine.size(); ++i) mine.setScalar(uint32_t(i), -99); // no longer its business
        reuse(name, [&](const Serie &s) { return direct(x, s); }, made, args);
        reuse(name, [&](const Serie &s) { return direct(x, s); }, make(Serie(x)), args);
    };
    held("concat", [](const Serie &a, const Serie &b) { return concat(a, b); }, [](auto &&a) { return make_concat(std::forward<decltype(a)>(a)); }, h, ve);
    held("zip", [](const Serie &a, const Serie &b) { return zip(a, b); }, [](auto &&a) { return make_zip(std::forward<decltype(a)>(a)); }, h, all);
    held("add", [](const Serie &a, const Serie &b) { return math::add(a, b); }, [](auto &&a) { return math::make_add(std::forward<decltype(a)>(a)); }, h, ve);
    held("sub", [](const Serie &a, const Serie &b) { return math::sub(a, b); }, [](auto &&a) { return math::make_sub(std::forward<decltype(a)>(a)); }, h, ve);
    held("mult", [](const Serie &a, const Serie &b) { return math::mult(a, b); }, [](auto &&a) { return math::make_mult(std::forward<decltype(a)>(a)); }, h, all);
    held("div", [](const Serie &a, const Serie &b) { return math::div(a, b); }, [](auto &&a) { return math::make_div(std::forward<decltype(a)>(a)); }, h1, all);
    held("equals", [](const Serie &a, const Serie &b) { return math::equals(a, b); }, [](auto &&a) { return math::make_equals(std::forward<decltype(a)>(a)); }, h, std::vector<Serie>{h, ve[0], ve[3]});
    held("covariance", [](const Serie &a, const Serie &b) { return stats::covariance(a, b); }, [](auto &&a) { return stats::make_covariance(std::forward<decltype(a)>(a)); }, h1, sc);
    held("dot", [](const Serie &a, const Serie &b) { return algebra::dot(a, b); }, [](auto &&a) { return algebra::make_dot(std::forward<decltype(a)>(a)); }, h, ve);
    held("cross", [](const Serie &a, const Serie &b) { return algebra::cross(a, b); }, [](auto &&a) { return algebra::make_cross(std::forward<decltype(a)>(a)); }, S(3, n), ve);
    Serie P = S(3, 8), T(3, intArray(r, 15, 0, 7));
    held("normals", [](const Serie &a, const Serie &b) { return geo::normals(a, b); }, [](auto &&a) { return geo::make_normals(std::forward<decltype(a)>(a)); }, P, {T, Serie(3, intArray(r, 6, 0, 7)), S(1, 3)});
    held("areas", [](const Serie &a, const Serie &b) { return geo::areas(a, b); }, [](auto &&a) { return geo::make_areas(std::forward<decltype(a)>(a)); }, P, {T, Serie(3, intArray(r, 6, 0, 7)), S(1, 3)});
    reuse("div by a number", [&](const Serie &s) { return math::div(2.0, s); }, math::make_div(2.0), all);
    reuse("add a number", [&](const Serie &s) { return math::add(s, 2.5); }, math::make_add(2.5), all);
    reuse("mult by a number", [&](const Serie &s) { return math::mult(s, 2.5); }, math::make_mult(2.5), all);
    reuse("mult by an int", [&](const Serie &s) { return math::mult(s, -3.0); }, math::make_mult(-3), all);
    std::vector<Serie> two{S(2, n), S(1, n + 1)};
    for (auto &p : two) {
        auto pos2 = [k](const Array &a, const Array &b, uint32_t i) { return a[0] > b[0] || i % 3 == 0; };
        auto pos2a = [k](const Array &a, const Array &b) { return a[0] > b[0]; };
        auto L = [](const auto &t) { return df::utils::concat(std::get<0>(t), std::get<0>(t)); };
        reuse("filter two", [&](const Serie &s) { return L(df::filter(pos2, s, p)); }, [f = make_filter(pos2), p, L](const Serie &s) { return L(f(s, p)); }, all);
        reuse("reject two", [&](const Serie &s) { return L(df::utils::reject(pos2, s, p)); }, [f = make_reject(pos2), p, L](const Serie &s) { return L(f(s, p)); }, all);
        reuse("filterAll", [&](const Serie &s) { return df::filterAll(pos2a, p, s)[1]; }, [f = make_filterAll(pos2a), p](const Serie &s) { return f(p, s)[1]; }, all);
        reuse("rejectAll", [&](const Serie &s) { return df::utils::rejectAll(pos2a, p, s)[1]; }, [f = make_rejectAll(pos2a), p](const Serie &s) { return f(p, s)[1]; }, all);
    }
    for (auto &v : ve) { // ordered by a comparison
        auto cmp = [](const Array &a, const Array &b) { return a[0] < b[0]; };
        reuse("sort", [&](const Serie &s) { return df::utils::sort(s, cmp); }, make_sort(cmp), std::vector<Serie>{v});
    }
    Serie q = S(1, 5 + n);
    std::vector<double> lv{0, 0.25, 0.5, 1};
    reuse("quantile", [&](double x) { return stats::quantile(q, x); }, stats::make_quantile(q), lv);
    reuse("bins", [&](double x) { return stats::bins(q, uint(x)); }, stats::make_bins(q), std::vector<double>{1, 3, 10});
    // operations that take the Serie first
    double f = r.range(-4, 4) * 0.5; Array each(size_t(is), f), los{1, f, -2};
    reuse("scale", [&](const Serie &s) { return math::scale(s, f); }, math::make_scale(f), all);
    reuse("scale each", [&](const Serie &s) { return math::scale(s, each); }, math::make_scale(each), all);
    reuse("quantile of", [&](const Serie &s) { return stats::quantile(s, 0.3); }, stats::make_quantile(0.3), sc);
    reuse("outliers", [&](const Serie &s) { return stats::outliers(s, 0.5); }, stats::make_outliers(0.5), sc);
    reuse("isOutliers", [&](const Serie &s) { return stats::isOutliers(s, 0.5); }, stats::make_isOutliers(0.5), sc);
    reuse("notOutliers", [&](const Serie &s) { return stats::notOutliers(s, 0.5); }, stats::make_notOutliers(0.5), sc);
    reuse("bins of", [&](const Serie &s) { return stats::bins(s, 4u); }, stats::make_bins(4u), sc);
    reuse("insar", [&](const Serie &s) { return geo::insar(s, los); }, geo::make_insar(los), all);
    reuse("fringes", [&](const Serie &s) { return geo::fringes(s, 2.5); }, geo::make_fringes(2.5), all);
    reuse("check", [&](const Serie &s) { return cond::check(s, pos); }, cond::make_check(pos), sc);
    reuse("checkA", [&](const Serie &s) { return cond::check(s, posA); }, cond::make_check(posA), ve);
    auto low = [k](double v) { return v < k; }; auto lowA = [k](const Array &v) { return v[0] < k; };
    auto yes = [k](double v, uint32_t i, const Serie &s) { return v * k + i + s.count(); }; auto no = [](double v, uint32_t, const Serie &s) { return v - s.scalar(0); };
    auto yesA = [k](const Array &v, uint32_t i, const Serie &) { Array a = v; a[0] += k + i; return a; }; auto noA = [](const Array &v, uint32_t, const Serie &s) { Array a = v; a.back() = s.scalar(0); return a; };
    reuse("if", [&](const Serie &s) { return cond::if_then_else(s, low, yes, no); }, cond::make_if_then_else(low, yes, no), sc);
    reuse("ifA", [&](const Serie &s) { return cond::if_then_else(s, lowA, yesA, noA); }, cond::make_if_then_else(lowA, yesA, noA), ve);
    reuse("if in a pipe", [&](const Serie &s) { return cond::check(cond::if_then_else(math::scale(s, f), low, yes, no), pos); }, make_pipe(math::make_scale(f), cond::make_if_then_else(low, yes, no), cond::make_check(pos)), sc);
    // and in a pipe
    reuse("in a pipe", [&](const Serie &s) { return df::filter(pos, df::map(up, s)); }, make_pipe(make_map(up), make_filter(pos)), sc);
    reuse("composed", [&](const Serie &s) { return df::filter(pos, df::map(up, s)); }, compose(make_filter(pos), make_map(up)), sc);
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard + 15);
    if (!o.cmds.empty()) {
        for (auto &b : script(o))
            for (auto &c : b) {
                auto l = c.l(1); size_t at = 0; int next = r.range(0, 7);
                std::function<Node()> read = [&]() { int v = l[at++]; Node n; if (v >= 0) { n.k = next; next = (next + r.range(1, 4)) % 10; if (r.chance(3)) n.k = 15; return n; }
                    n.t = v > -20 ? 1 : 2; int k = -v % 10; for (int i = 0; i < k; ++i) n.l.push_back(read()); return n; };
                anyProgram(r, read());
            }
        return 0;
    }
    for (int k = 0; k < 120 * o.scale; ++k) {
        anyProgram(r, random(r, r.range(1, 3)));
        if (k % 6 == 0) typed(r);
        if (k % 6 == 0) reusables(r);
    }
    return 0;
}
