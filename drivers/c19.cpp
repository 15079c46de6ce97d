// C19: means, covariances, extrema, normalization. Values are integers times
// a unit; averages are recorded multiplied by their counts.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/stats/mean.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/math/minMax.h>
#include <dataframe/functional/math/normalize.h>
using namespace vf;
using df::Serie;
static double U = 1;

static void doMean(const Serie &s) {
    std::vector<int> q; bool isnum = false;
    std::string res = attempt([&] {
        auto m = df::stats::mean(s);
        isnum = m.isNumber;
        if (isnum) q.push_back(encI(m.number * s.count(), U, 1e-9));
        else for (double x : m.array) q.push_back(encI(x * s.count(), U, 1e-9));
    });
    emit(O()("op", "mean")("s", encIS(s, U))("res", res)("isnum", isnum)("q", q));
}
static void doCov(const Serie &x, const Serie &y, double cx = 0, double cy = 0) {
    auto moved = [](const Serie &s, double c) { Array a = s.asArray(); for (auto &v : a) v += c; return s.isValid() ? Serie(int(s.itemSize()), a, s.dimension()) : Serie(); };
    Serie a = moved(x, cx), b = moved(y, cy);
    double c = 0, d = 0, n2 = double(x.count()) * x.count();
    std::string res = attempt([&] { c = df::stats::covariance(a, b); }), resr = attempt([&] { d = df::stats::covariance(b, a); });
    emit(O()("op", "cov")("x", encIS(x, U))("y", encIS(y, U))("moved", std::vector<std::string>{std::to_string(cx), std::to_string(cy)})
        ("res", res)("resr", resr)("q", encI(c * n2, U * U, 1e-4))("r", encI(d * n2, U * U, 1e-4)));
}
static void doMinMax(const Serie &s) { // opaque values
    Array lo, hi;
    std::string res = attempt([&] { auto m = df::math::minMax(s); lo = m.min; hi = m.max; });
    emit(O()("op", "minmax")("s", encS(s))("res", res)("lo", encA(lo))("hi", encA(hi)));
}
static void doNorm(const Serie &s) {
    Serie out;
    std::string res = attempt([&] { out = df::math::normalize(s); });
    if (!s.isValid() || s.count() == 0) { emit(O()("op", "norm0")("s", encIS(s, U))("res", res)("out", encIS(out))); return; }
    const Array &a = s.asArray();
    if (s.itemSize() == 1) {
        double lo = *std::min_element(a.begin(), a.end()), hi = *std::max_element(a.begin(), a.end());
        if (lo == hi) return; // no affine map
        emit(O()("op", "norm1")("s", encIS(s, U))("res", res)("lo", encI(lo, U))("hi", encI(hi, U))("out", encIS(out, 1 / ((hi - lo) / U), 1e-9)));
        return;
    }
    // items of integer length: exact; others in units of 1/4096
    std::vector<int> len; std::vector<int> q; size_t is = s.itemSize();
    for (size_t i = 0; i < s.count(); ++i) {
        double n2 = 0; for (size_t j = 0; j < is; ++j) { double v = a[i * is + j] / U; n2 += v * v; }
        double L = std::nearbyint(std::sqrt(n2));
        int l = L > 0 && L * L == n2 && n2 < 1e9 ? int(L) : 0;
        len.push_back(l);
        for (size_t j = 0; j < is; ++j) q.push_back(i * is + j < out.asArray().size() ? encI(out.asArray()[i * is + j], l ? 1.0 / l : 1.0 / 4096, l ? 1e-9 : 0.51) : NOTINT);
    }
    emit(O()("op", "normv")("s", encIS(s, U))("res", res)("len", len)
        ("out", O()("is", long(out.itemSize()))("n", long(out.count()))("dim", long(out.dimension()))("v", q).j()));
}

static Serie ints(Rng &r, int is, uint32_t n, int mag) { return Serie(is, runs(r, intArray(r, size_t(is) * n, -mag, mag, U), is), aDim(r)); }
static Serie vectors(Rng &r, int is, uint32_t n) { // some of integer length, some zero, one long or short among others
    static const std::vector<std::vector<int>> P{{3, 4}, {5, 12}, {1, 2, 2}, {2, 3, 6}, {1, 4, 8}, {1, 1, 1, 1}, {2, 4, 5, 6}, {7}, {1}, {2, 2, 4, 5}, {8, 15}, {4, 4, 7}, {1, 1, 1, 1, 1, 1, 1, 1, 1}};
    Array a;
    for (uint32_t i = 0; i < n; ++i) {
        std::vector<double> v(is, 0.0);
        if (r.chance(50)) {
            std::vector<int> p; do p = r.pick(P); while (int(p.size()) > is);
            int k = r.chance(50) ? 1 : r.range(1, 100);
            for (size_t j = 0; j < p.size(); ++j) v[j] = p[j] * k * (r.chance(50) ? 1 : -1);
            for (size_t j = v.size(); j > 1; --j) std::swap(v[j - 1], v[r.below(uint32_t(j))]);
        } else if (r.chance(92)) { int m = r.chance(50) ? 3 : 2500; for (auto &x : v) x = r.range(-m, m); }
        for (double x : v) a.push_back(x * U);
    }
    return Serie(is, runs(r, a, is), aDim(r));
}
static Serie sorted(Rng &r, int is, uint32_t n) { // any values but NaN and -0; extrema first, last or anywhere
    Array a(size_t(is) * n); int style = r.range(0, 5);
    int half = r.range(0, 2); // all of one sign at times
    auto nth = [&](size_t k) { return pool().v[k % size_t(pool().nan)]; };
    size_t N = size_t(pool().nan), from = half == 1 ? size_t(pool().posz) + 1 : 0, to = half == 2 ? size_t(pool().negz) : N;
    for (auto &x : a) x = style == 5 ? nth(from + (to - from) / 2 + r.below(3)) : nth(from + r.below(uint32_t(to - from)));
    if (style == 0 || style == 1) { std::sort(a.begin(), a.end()); if (style) std::reverse(a.begin(), a.end()); }
    for (auto &x : a) if (x == 0) x = 0.0;
    return Serie(is, runs(r, a, is), aDim(r));
}
static Serie sparse(Rng &r, uint32_t n, int mag) { Array a(n, 0.0); for (int k = 0; k < 40 && n; ++k) a[r.chance(30) ? (r.chance(50) ? 0 : n - 1) : r.below(n)] = U * r.range(-mag, mag); return Serie(1, a, aDim(r)); }

static void one(Rng &r, int what, uint32_t n, int is) {
    switch (what) {
    case 0: if (n == 0) n = 1; doMean(ints(r, is, n, int(1900000000.0 / n))); break;
    case 1: {
        int mag = std::max(1, std::min(5000, int(std::sqrt(4e8) / n)));
        auto mk = [&](uint32_t k) { return n > 400 ? sparse(r, k, n > 20000 ? 3 : 20) : ints(r, 1, k, mag); };
        Serie x = mk(n), y = mk(n);
        if (r.chance(10)) y = x;
        if (r.chance(10) && n) y = mk(r.chance(50) ? n + 1 : n - 1);
        if (r.chance(6)) y = ints(r, r.range(2, 3), n, 10);
        if (r.chance(6)) x = ints(r, r.range(2, 3), n, 10);
        if (r.chance(3)) x = Serie();
        if (r.chance(3)) y = ints(r, 2, n / 2, 10);
        bool far = r.chance(40) && n <= 40;
        doCov(x, y, far ? U * r.pick(std::vector<double>{1e6, -1e6, 300000, 12345}) : 0, far ? U * r.pick(std::vector<double>{1e6, -999999, 1000}) : 0);
        break; }
    case 2: doMinMax(r.chance(4) ? Serie() : sorted(r, is, n)); break;
    case 3: doNorm(r.chance(4) ? Serie() : r.chance(25) ? Serie(is, 0, 2) : ints(r, 1, n, r.chance(50) ? 6 : 1000000)); break;
    default: doNorm(vectors(r, std::max(is, 2), n)); break;
    }
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        auto of = [&](int is, const std::vector<int> &l) { Array a; for (int x : l) a.push_back(x * U); return Serie(is, a, 2); };
        for (auto &b : script(o)) for (auto &c : b) {
            U = r.chance(50) ? 1 : 0.5;
            if (c.op() == "cov") { doCov(of(1, c.l(1)), of(1, c.l(2))); continue; }
            Serie s = of(c.i(1), c.l(2));
            if (c.op() == "mean") { if (s.count()) doMean(s); }
            else if (c.op() == "minmax") { Array a; for (int x : c.l(2)) a.push_back(pool().v[size_t(pool().posz + 2 * x)]); for (auto &x : a) if (x == 0) x = 0.0; doMinMax(Serie(c.i(1), a, 3)); }
            else doNorm(s);
        }
        return 0;
    }
    for (int k = 0; k < 250 * o.scale; ++k) {
        U = pow2(r.pick(std::vector<int>{0, 0, 0, -1, -4, 3, 20, -40, 60, -300, 300}));
        one(r, k % 5, k % 40 == 12 ? aCount(r, 4200) : aCount(r, 120), anItemSize(r));
    }
    for (uint32_t n : {65535u, 65537u}) for (int w = 0; w < 4; ++w) if (o.mine(n / 2 + w)) { U = 1; one(r, w, n, 1); }
}
