// C20: quantiles and outliers of integers times a unit. The order statistics
// around a level are recorded with it; the specification checks them by counting.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/stats/quantile.h>
using namespace vf;
using namespace df::stats;
using df::Serie;
static double U = 1;

static Array sortedOf(const Serie &s) { Array a = s.asArray(); std::sort(a.begin(), a.end()); return a; }
static void around(const Array &a, long p, long q, int &lo, int &hi) {
    lo = hi = 0;
    if (a.empty() || q <= 0 || p < 0 || p > q) return;
    size_t n = a.size(), k = size_t((long(n) - 1) * p / q);
    lo = encI(a[k], U); hi = encI(a[std::min(k + 1, n - 1)], U);
}
static void doQuantile(const Serie &s, int a, int b, double q) {
    double v = 0; int lo, hi;
    std::string res = attempt([&] { v = quantile(s, q); });
    around(s.itemSize() == 1 ? sortedOf(s) : Array{}, a, b, lo, hi);
    emit(O()("op", "quantile")("s", encIS(s, U))("a", a)("b", b)("lo", lo)("hi", hi)("res", res)("q", encI(v * (b ? b : 1), U, 1e-9)));
}
static void doQuartiles(const Serie &s) {
    std::vector<double> v(4, 0.0); std::vector<int> lo(3), hi(3), q;
    std::string res = attempt([&] { v[0] = q25(s); v[1] = q50(s); v[2] = q75(s); v[3] = IQR(s); }), res2 = attempt([&] { IQR(s); });
    for (int k = 0; k < 3; ++k) around(s.itemSize() == 1 ? sortedOf(s) : Array{}, k + 1, 4, lo[k], hi[k]);
    for (double x : v) q.push_back(encI(x * 4, U, 1e-9));
    emit(O()("op", "quartiles")("s", encIS(s, U))("lo", lo)("hi", hi)("res", res == res2 ? res : "mixed")("q", q));
}
static void doOutliers(const Serie &s, int kn, int kd, bool dflt = false) {
    Serie out, in, is; double k = double(kn) / kd;
    std::string r1 = attempt([&] { out = outliers(s, k); }), r2 = attempt([&] { in = dflt ? notOutliers(s) : notOutliers(s, k); }), r3 = attempt([&] { is = isOutliers(s, k); });
    std::vector<int> lo(3), hi(3); Array a = s.itemSize() == 1 ? sortedOf(s) : Array{};
    for (int j = 0; j < 3; ++j) around(a, j + 1, 4, lo[j], hi[j]);
    auto at4 = [&](int p) { if (a.empty()) return 0; size_t n = a.size(); return (4 - int(((n - 1) * p) % 4)) * lo[p - 1] + int(((n - 1) * p) % 4) * hi[p - 1]; };
    emit(O()("op", "outliers")("s", encIS(s, U))("kn", kn)("kd", kd)("lo", lo)("hi", hi)("q1", at4(1))("q3", at4(3))
        ("res", r1 == r2 && r2 == r3 ? r1 : "mixed")("out", encIS(out, U))("in", encIS(in, U))("is", encIS(is)));
}

static Serie ser(Rng &r, uint32_t n, int mag) {
    Array a = intArray(r, n, -mag, mag, U);
    int style = r.range(0, 5);
    if (style == 0) std::sort(a.begin(), a.end());
    if (style == 1) std::sort(a.rbegin(), a.rend());
    if (style == 2 && n) for (int k = 0; k < 3; ++k) a[r.below(n)] = U * (r.chance(50) ? 1 : -1) * mag * 4; // strays
    if (style == 3) for (auto &x : a) x = U * r.range(-2, 2); // many equal
    return Serie(1, a, aDim(r));
}
static Serie bad(Rng &r) { int k = r.range(0, 3); return k == 0 ? Serie() : k == 1 ? Serie(1, 0, 2) : k == 2 ? Serie(r.range(2, 4), 3) : Serie(2, 0); }
static void one(Rng &r, int what, const Serie &s) {
    if (what == 0) {
        int b = r.pick(std::vector<int>{1, 2, 4, 8, 16, 64, 256, 3, 10, 100, 1000}), a = r.chance(12) ? 0 : r.chance(12) ? b : r.range(0, b);
        doQuantile(s, a, b, double(a) / b);
        if (r.chance(40) && s.count() > 1 && s.itemSize() == 1) { // just above, or just below, the place of a value
            double top = 0; for (double x : s.asArray()) top = std::max(top, std::abs(x) / U);
            long n1 = long(s.count()) - 1, best = -1; int at = 0; bool below = r.chance(50);
            b = r.pick(std::vector<int>{1024, 1000, 4096, 65536, 1000000});
            while (b > 1000 && (n1 * b > 2000000000L || top * b > 5e8)) b = b > 65536 ? 65536 : b > 4096 ? 4096 : b > 1024 ? 1024 : 1000;
            if (n1 * b < 2000000000L && top * b < 5e8) {
                for (int k = 0; k < 400; ++k) { int c = r.range(1, b - 1); long rest = (n1 * c) % b; if (rest == 0) continue; if (below) rest = b - rest; if (best < 0 || rest < best) { best = rest; at = c; } }
                if (best > 0) doQuantile(s, at, b, double(at) / b);
            }
        }
        if (r.chance(12)) doQuantile(s, -1, 1, r.pick(std::vector<double>{-1e-12, -0.25, -1e300, -INFINITY, -5e-324, -1}));
        if (r.chance(12)) doQuantile(s, 2, 1, r.pick(std::vector<double>{1.0000000000000002, 1.5, 1e300, INFINITY, 2, 100}));
        if (r.chance(5)) doQuantile(s, 2, 1, NAN);
    } else if (what == 1) doQuartiles(s);
    else { int kd = r.pick(std::vector<int>{1, 2, 4, 8}); doOutliers(s, r.chance(30) ? kd * 3 / 2 : r.chance(10) ? -r.range(0, 4) : r.range(0, 24), kd); if (r.chance(20)) doOutliers(s, 3, 2, true); }
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) for (auto &c : b) {
            U = r.chance(50) ? 1 : 0.5;
            Array a; for (int x : c.l(1)) a.push_back(x * U);
            Serie s(1, a, 2);
            if (c.op() == "quantile") doQuantile(s, c.i(2), c.i(3), double(c.i(2)) / c.i(3));
            else if (c.op() == "quartiles") doQuartiles(s);
            else doOutliers(s, c.i(2), 4);
        }
        return 0;
    }
    for (int k = 0; k < 220 * o.scale; ++k) {
        U = pow2(r.pick(std::vector<int>{0, 0, 0, -1, -4, 3, 20, -40, 60, -300, 300}));
        one(r, k % 3, r.chance(6) ? bad(r) : ser(r, k % 40 == 12 ? aCount(r, 4200) : aCount(r, 120), r.chance(40) ? 12 : 50000));
    }
    for (uint32_t n : {65536u, 65538u, 70001u}) for (int w = 0; w < 3; ++w) if (o.mine(n / 2 + w)) { U = 1; one(r, w, ser(r, n, 3000)); }
}
