// Every operation of the library, as a function of four Series and a Dataframe.
#pragma once
#include "common.h"
#include <iostream>
#include <dataframe/Dataframe.h>
#include <dataframe/functional/macros.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/merge.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/conditional/if.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/parallel_execute.h>
#include <dataframe/functional/utils/memoize.h>
#include <dataframe/functional/utils/print.h>
#include <dataframe/functional/utils/zip.h>
#include <dataframe/functional/utils/unzip.h>
#include <dataframe/functional/utils/sort.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/math/negate.h>
#include <dataframe/functional/math/weightedSum.h>
#include <dataframe/functional/math/equals.h>
#include <dataframe/functional/math/minMax.h>
#include <dataframe/functional/math/normalize.h>
#include <dataframe/functional/math/random.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/stats/bins.h>
#include <dataframe/functional/stats/mean.h>
#include <dataframe/functional/stats/quantile.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/geo/insar.h>
#include <dataframe/functional/geo/cartesian_grid.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/norm.h>
#include <dataframe/functional/algebra/transpose.h>
#include <dataframe/functional/algebra/det.h>
#include <dataframe/functional/algebra/inv.h>
#include <dataframe/functional/algebra/eigen.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/Valence.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
using namespace vf;
using df::Serie;
using df::Dataframe;

// The arguments live at the same addresses for the whole run.
struct Args { Serie s[4]; Dataframe d; };
using Out = std::vector<Serie>;
struct OpDef { std::string name, kind; std::function<Out(const Args &)> f; };

static Serie num(double x) { return Serie(1, Array{x}); }
static Serie arr(const Array &a) { return Serie(1, a); }
static Serie text(const std::string &s) { Array a; for (unsigned char c : s) a.push_back(c); return Serie(1, a); }
static Serie names(const Strings &l) { std::string t; for (auto &s : l) t += s + "\n"; return text(t); }
struct Captured { std::ostringstream o; std::streambuf *old; Captured() : old(std::cout.rdbuf(o.rdbuf())) {} ~Captured() { std::cout.rdbuf(old); } };

// kind: how the four Series are shaped. a: any shape; s: scalar; v: alike
// vectors; 3: triples; 6/9/4/m: matrices; t: positions and triangles; x: mixed
static std::vector<OpDef> table() {
    using namespace df;
    std::vector<OpDef> t;
    auto on = [&](const std::string &n, const std::string &kinds, std::function<Out(const Args &)> f) { for (char k : kinds) t.push_back({n, std::string(1, k), f}); };
    using A = const Array &;
    using I = uint32_t;
    on("copy", "a", [](const Args &a) { Serie c(a.s[0]), d; d = a.s[1]; return Out{c, d, a.s[0].clone()}; });
    on("read", "ax", [](const Args &a) { Out o; for (I i = 0; i < a.s[0].count(); ++i) { o.push_back(arr(a.s[0].value(i))); o.push_back(arr(a.s[0].get<Array>(i))); } for (I i = 0; i < a.s[0].size(); ++i) o.push_back(num(a.s[0].scalar(i))); return o; });
    on("readPast", "a", [](const Args &a) { return Out{arr(a.s[0].value(a.s[0].count()))}; });
    on("forEach", "asv", [](const Args &a) { Array l; a.s[0].forEach([&](A v, I i) { l.push_back(i); l.insert(l.end(), v.begin(), v.end()); }); return Out{arr(l)}; });
    on("map", "asv", [](const Args &a) { return Out{df::map([](A v, I i) { Array w = v; w.push_back(i); return w; }, a.s[0])}; });
    on("map2", "vsx", [](const Args &a) { return Out{df::map([](A v, A w, I) { Array r = v; r.insert(r.end(), w.begin(), w.end()); return r; }, a.s[0], a.s[1])}; });
    on("apply", "s", [](const Args &a) { return Out{utils::apply([](double v, I i) { return v + i; }, a.s[0])}; });
    on("reduce", "sv", [](const Args &a) { return a.s[0].itemSize() == 1 ? Out{num(df::reduce([](double p, double v, I) { return p + v; }, a.s[0], 1.0))} : Out{(df::reduce([](A p, const Array &v, I) { Array r = p; for (size_t k = 0; k < r.size(); ++k) r[k] += v[k]; return r; }, a.s[0], Array(a.s[0].itemSize(), 1.0)))}; });
    on("check", "s", [](const Args &a) { return Out{cond::check(a.s[0], [](double v, I) { return v > 0; })}; });
    on("filter", "sv", [](const Args &a) { return Out{df::filter([](A v, I i) { return v[0] > 0 || i == 1; }, a.s[0])}; });
    on("filterAll", "svx", [](const Args &a) { auto r = df::filterAll([](A v, A w) { return v[0] > w[0]; }, a.s[0], a.s[1]); return Out(r.begin(), r.end()); });
    on("reject", "sv", [](const Args &a) { return Out{utils::reject([](A v, I i) { return v[0] > 0 || i == 1; }, a.s[0])}; });
    on("cut", "s", [](const Args &a) { return Out{utils::cut([](double v, I) { return v > 0; }, a.s[0])}; });
    on("partition", "v", [](const Args &a) { auto [p, q] = utils::partition([](A v, I) { return v[0] > 0; }, a.s[0]); return Out{p, q}; });
    on("find", "sa", [](const Args &a) { auto r = df::find([](double v, I) { return v > 0; }, a.s[0]); return r ? Out{num(r.value), num(r.index)} : Out{}; });
    on("partition_n", "asv", [](const Args &a) { auto r = utils::partition_n(3, a.s[0]); return Out(r.begin(), r.end()); });
    on("concat", "vsx", [](const Args &a) { return Out{utils::concat(a.s[0], a.s[1], a.s[2])}; });
    on("merge", "vsx", [](const Args &a) { return Out{df::merge(true, a.s[0], a.s[1], a.s[2]), df::merge(a.s[0], a.s[1], false)}; });
    on("zip", "vsx", [](const Args &a) { return Out{utils::zip(a.s[0], a.s[1], a.s[2])}; });
    on("unzip", "9v", [](const Args &a) { auto r = utils::unzip(a.s[0], {2, 4, 3}); return Out(r.begin(), r.end()); });
    on("sort", "asv", [](const Args &a) { return Out{utils::sort(a.s[0])}; });
    on("sortBy", "v", [](const Args &a) { return Out{utils::sort(a.s[0], [](A v, A w) { return v.back() > w.back(); })}; });
    on("pipe", "s", [](const Args &a) { return Out{a.s[0].pipe([](const Serie &s) { return math::add(s, 1.); }, math::negate, math::normalize)}; });
    on("parallel", "sv", [](const Args &a) { return Out{utils::parallel_execute([](const Serie &s) { return math::negate(s); }, a.s[0], 3)}; });
    static auto memo = utils::memoize([](const Serie &s) { return math::negate(s); });
    on("memoize", "asv", [](const Args &a) { return Out{memo(a.s[0])}; });
    on("print", "asv", [](const Args &a) { Captured c; utils::print(a.s[0], a.s[1]); return Out{text(c.o.str())}; });
    on("stream", "asv", [](const Args &a) { std::ostringstream o; o << a.s[0] << a.s[1].asArray(); return Out{text(o.str())}; });
    on("add", "vsx", [](const Args &a) { return Out{math::add(a.s[0], a.s[1]), math::add({a.s[0], a.s[1], a.s[2]}), math::add(a.s[0], a.s[1], a.s[2])}; });
    on("addc", "sv", [](const Args &a) { return Out{math::add(a.s[0], 2.5), math::sub(a.s[0], 2.5)}; });
    on("sub", "vsx", [](const Args &a) { return Out{math::sub(a.s[0], a.s[1]), math::sub({a.s[0], a.s[1], a.s[2]}), math::sub(a.s[0], a.s[1], a.s[2])}; });
    on("mult", "vsx", [](const Args &a) { return Out{math::mult(a.s[0], a.s[1]), math::mult(a.s[0], 3.), math::mult(a.s[0], a.s[0])}; });
    on("div", "sx", [](const Args &a) { return Out{math::div(a.s[1], a.s[0]), math::div(2., a.s[0])}; });
    on("scale", "v6", [](const Args &a) { return Out{math::scale(a.s[0], 2.), math::scale(a.s[0], Array(a.s[0].itemSize(), 3.))}; });
    on("scaleBad", "v", [](const Args &a) { return Out{math::scale(a.s[0], Array{})}; });
    on("negate", "av", [](const Args &a) { return Out{math::negate(a.s[0])}; });
    on("weigthedSum", "vsx", [](const Args &a) { return Out{math::weigthedSum({a.s[0], a.s[1]}, {2., -1.})}; });
    on("equals", "vsx", [](const Args &a) { return Out{num(math::equals(a.s[0], a.s[1])), num(math::approximatelyEquals(a.s[0], a.s[1], 0.5)), num(math::equalsAll(a.s[0], a.s[0], a.s[1])), num(math::equals(a.s[0], a.s[0]))}; });
    on("mask", "vsx", [](const Args &a) { return Out{math::equalityMask(a.s[0], a.s[1]), math::approximateEqualityMask(a.s[0], a.s[1], 0.5)}; });
    on("minMax", "asv", [](const Args &a) { auto m = math::minMax(a.s[0]); return Out{arr(m.min), arr(m.max)}; });
    on("normalize", "asv", [](const Args &a) { return Out{math::normalize(a.s[0])}; });
    on("random", "a", [](const Args &a) { I n = a.s[0].count() + 1; return Out{math::random(n, a.s[0].itemSize(), -1, 1, 7 + n), math::random(n, 1, 0, 1, 7)}; });
    on("mean", "asv", [](const Args &a) { auto m = stats::mean(a.s[0]); return m.isNumber ? Out{num(m.number)} : Out{arr(m.array)}; });
    on("covariance", "sv", [](const Args &a) { return Out{num(stats::covariance(a.s[0], a.s[1]))}; });
    on("quantile", "sv", [](const Args &a) { return Out{num(stats::quantile(a.s[0], 0.3)), num(stats::q25(a.s[0])), num(stats::q50(a.s[0])), num(stats::q75(a.s[0])), num(stats::IQR(a.s[0]))}; });
    on("quantileBad", "s", [](const Args &a) { return Out{num(stats::quantile(a.s[0], 1.5))}; });
    on("outliers", "s", [](const Args &a) { return Out{stats::outliers(a.s[0], 0.5), stats::isOutliers(a.s[0], 0.5), stats::notOutliers(a.s[0], 0.5)}; });
    on("bins", "sv", [](const Args &a) { return Out{stats::bins(a.s[0], 5)}; });
    on("binsOver", "s", [](const Args &a) { return Out{stats::bins(a.s[0], 4, -200., 200.)}; });
    on("areas", "t", [](const Args &a) { return Out{geo::areas(a.s[0], a.s[1]), geo::normals(a.s[0], a.s[1])}; });
    on("insar", "3", [](const Args &a) { auto i = geo::insar(a.s[0], {1, 2, -1}); return Out{i, geo::fringes(i, 3)}; });
    on("grid", "a", [](const Args &) { return Out{grid::cartesian::from_dims({2, 3, 2}), grid::cartesian::from_points({3, 2}, {0, 0, 0}, {1, 2, 3})}; });
    on("dot", "vsx", [](const Args &a) { return Out{algebra::dot(a.s[0], a.s[1]), algebra::dot(a.s[0], Array(a.s[0].itemSize(), 2.))}; });
    on("cross", "3x", [](const Args &a) { return Out{algebra::cross(a.s[0], a.s[1])}; });
    on("norm", "av", [](const Args &a) { return Out{algebra::norm(a.s[0]), algebra::norm2(a.s[0])}; });
    on("transpose", "49v", [](const Args &a) { return Out{algebra::transpose(a.s[0])}; });
    on("det", "69mv", [](const Args &a) { return Out{algebra::det(a.s[0])}; });
    on("inv", "69m", [](const Args &a) { return Out{algebra::inv(a.s[0])}; });
    on("eigen", "6mv", [](const Args &a) { auto [v, w] = algebra::eigenSystem(a.s[0]); return Out{v, w, algebra::eigenValues(a.s[0]), algebra::eigenVectors(a.s[0])}; });
    // frames and attributes
    on("lookup", "asv", [](const Args &a) { const Dataframe &d = a.d; return Out{d["s0"], d.get("s1"), d["nobody"], num(d.contains(String("s0"))), num(d.contains(String("nobody"))), num(d.contains(a.s[0])), num(d.contains(d["s0"]))}; });
    on("frame", "asv", [](const Args &a) { Dataframe c(a.d); c.del("s0"); c.add("new", a.s[0]); Out o; for (auto &p : c.series()) { o.push_back(text(p.first)); o.push_back(p.second); } return o; });
    on("dump", "s", [](const Args &a) { Captured c; a.d.dump(); return Out{text(c.o.str())}; });
    on("decompose", "s36t", [](const Args &a) {
        Out o;
        Components c; Coordinates co; EigenValues ev; EigenVectors ec; Area ar; Normals no; Valence va;
        for (const Decomposer *d : std::vector<const Decomposer *>{&c, &co, &ev, &ec, &ar, &no, &va})
            for (uint k : {1u, 2u, 3u}) for (auto &p : a.d.series()) { auto n = d->names(a.d, k, p.second, p.first); o.push_back(names(n)); for (auto &x : n) o.push_back(d->serie(a.d, k, x)); }
        return o; });
    on("manager", "s36t", [](const Args &a) {
        Out o;
        std::vector<df::Decomposer *> ds{new df::Components(), new df::EigenValues(), new df::EigenVectors(), new df::Valence(), new df::Area()};
        df::Manager m(a.d, ds, 3);
        for (uint k : {1u, 3u, 6u}) { auto n = m.names(k); o.push_back(names(n)); for (auto &x : n) o.push_back(m.serie(k, x)); o.push_back(num(m.contains(k, "s0"))); }
        return o; });
    return t;
}

static Array vals(Rng &r, size_t n) { Array a(n); for (auto &x : a) x = r.chance(15) ? r.pick(std::vector<double>{0.0, -0.0, 1e10, -3e5, 0.1, 1e-3}) : r.range(-99, 99) + 0.25 * r.range(0, 3); return a; }
static Serie make(Rng &r, int is, uint32_t n, uint dim) { return Serie(is, vals(r, size_t(is) * n), dim); }
static void fill(Rng &r, char kind, uint32_t n, uint dim, Args &a) {
    int is = kind == 's' ? 1 : kind == '3' || kind == 't' ? 3 : kind == '6' ? 6 : kind == '9' ? 9 : kind == '4' ? 4 : kind == 'm' ? r.pick(std::vector<int>{3, 6, 9, 4}) : r.range(kind == 'v' ? 2 : 1, 6);
    if (kind == '6' || kind == '9' || kind == 't') dim = 3;
    for (int k = 0; k < 4; ++k) a.s[k] = kind == 'x' ? make(r, r.range(1, 3), uint32_t(r.range(0, 4)), dim) : make(r, is, n, dim);
    if (kind == 'a' && r.chance(12)) a.s[0] = Serie();
    if (kind == 't') { Array i; n = std::max(n, 1u); a.s[0] = make(r, 3, n, 3); for (uint32_t k = 0; k < n * 3; ++k) i.push_back(r.below(n)); a.s[1] = Serie(3, i, 3); }
    a.d = Dataframe();
    if (kind == 't') { a.d.add("positions", a.s[0]); a.d.add("indices", a.s[1]); }
    for (int k = 0; k < 3; ++k) a.d.add("s" + std::to_string(k), a.s[k]);
}
static J enc(const Args &a) {
    std::vector<J> l; for (auto &s : a.s) l.push_back(encS(s));
    for (auto &p : a.d.series()) { l.push_back(codes(p.first)); l.push_back(encS(p.second)); }
    return list(l);
}
