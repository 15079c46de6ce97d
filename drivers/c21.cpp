// C21: bins. Values, bounds and widths are integers times a unit; where a value
// may sit on an inner edge, the width is exact.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/stats/bins.h>
using namespace vf;
using namespace df::stats;
using df::Serie;
static double U = 1;

static void range(const Serie &s, uint nb, int a, int z) {
    Serie out; std::string res = attempt([&] { out = bins(s, nb, a * U, z * U); });
    emit(O()("op", "range")("s", encIS(s, U))("nb", nb)("a", a)("z", z)("res", res)("out", encIS(out)));
}
static void autom(const Serie &s, uint nb) {
    Serie out; std::string res = attempt([&] { out = bins(s, nb); });
    const Array &v = s.asArray(); int lo = 0, hi = 0;
    if (!v.empty()) { lo = encI(*std::min_element(v.begin(), v.end()), U); hi = encI(*std::max_element(v.begin(), v.end()), U); }
    emit(O()("op", "auto")("s", encIS(s, U))("nb", nb)("a", lo)("z", hi)("res", res)("out", encIS(out)));
}
static bool power2(int x) { return x > 0 && (x & (x - 1)) == 0; }
// exact, or no value on an inner edge
static bool fits(const Array &v, uint nb, int a, int z) {
    if (nb == 0 || z <= a) return true;
    if ((z - a) % int(nb) == 0 && power2((z - a) / int(nb))) return true;
    for (double d : v) { long x = lround(d / U); if (x > a && x < z && ((x - a) * long(nb)) % (z - a) == 0) return false; }
    return true;
}

static void one(Rng &r, bool given, uint32_t n) {
    uint nb = r.pick(std::vector<uint>{1, 1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 64, 100});
    if (n > 20000) nb = std::min(nb, 8u);
    int top = 27; for (uint x = nb; x > 1; x /= 2) top -= 2;
    int w = 1 << r.range(0, r.chance(70) ? 6 : std::max(top - 1, 6)), a = r.range(-300, 300), z = a + w * int(nb);
    if (r.chance(30)) z = a + (r.chance(30) ? 1 : r.range(1, 997));
    Array v(n);
    int style = r.range(0, 4);
    for (auto &x : v) {
        int y;
        if (style == 0) y = a + w * r.range(0, int(nb));                       // edges
        else if (style == 1) y = a + w * r.range(0, int(nb)) + r.range(-1, 1); // next to edges
        else if (style == 2) y = r.range(a, z + 50);                           // beyond stop
        else if (style == 3) y = a + r.below(2);
        else y = r.range(a, z);
        x = U * std::max(y, a);
    }
    if (!given && n >= 2 && style != 3) { v[r.below(n)] = a * U; uint32_t j; do j = r.below(n); while (v[j] == a * U && n > 2 && r.chance(90)); v[j] = z * U; for (auto &x : v) if (x > z * U) x = z * U; }
    if (given && r.chance(10) && n) v[r.chance(50) ? n - 1 : r.below(n)] = U * (a - r.pick(std::vector<int>{1, 1, 2, 1000, 100000}));
    if (!given && r.chance(10)) std::fill(v.begin(), v.end(), U * a);
    if (given && r.chance(25)) for (auto &x : v) if (r.chance(20)) // anything at all beyond stop
        x = r.chance(50) ? U * r.range(std::max(z, 1000000), 1999999999) : r.pick(std::vector<double>{U * 2e9, U * 1e12, U * 4294967296.0, 1e300, std::numeric_limits<double>::max(), std::numeric_limits<double>::infinity()});
    Serie s(1, v, aDim(r));
    if (r.chance(4)) { s = r.chance(30) ? Serie() : Serie(r.range(2, 3), n); if (given) range(s, nb, a, z); else autom(s, nb); return; }
    if (given) {
        if (r.chance(4)) { bool in = true; for (double d : v) in = in && d >= a * U; if (in) { range(s, 0, a, z); return; } }
        if (fits(v, nb, a, z)) range(s, nb, a, z);
    } else {
        if (r.chance(4)) { autom(s, 0); return; }
        int lo = a, hi = a; if (n) { lo = int(lround(*std::min_element(v.begin(), v.end()) / U)); hi = int(lround(*std::max_element(v.begin(), v.end()) / U)); }
        if (fits(v, nb, lo, hi)) autom(s, nb);
        if (fits(v, 10, lo, hi)) autom(s, 10);
    }
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) for (auto &c : b) {
            U = r.chance(50) ? 1 : 0.5;
            Array v; for (int x : c.l(1)) v.push_back(x * U);
            Serie s(1, v, 2);
            if (c.op() == "auto") { int lo = 0, hi = 0; if (!v.empty()) { lo = int(*std::min_element(v.begin(), v.end()) / U); hi = int(*std::max_element(v.begin(), v.end()) / U); } if (fits(v, c.i(2), lo, hi)) autom(s, c.i(2)); }
            else if (fits(v, c.i(2), c.i(3), c.i(4))) range(s, c.i(2), c.i(3), c.i(4));
        }
        return 0;
    }
    for (int k = 0; k < 240 * o.scale; ++k) {
        U = pow2(r.pick(std::vector<int>{0, 0, 0, -1, -4, 3, 20, -40, 60, -300, 300}));
        one(r, k % 2, k % 40 == 12 ? aCount(r, 4200) : aCount(r, 120));
    }
    for (uint32_t n : {65535u, 70001u}) for (int w = 0; w < 2; ++w) if (o.mine(n / 2 + w)) { U = 1; one(r, w, n); }
}
