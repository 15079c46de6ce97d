// C23: equality predicates and masks. Values and epsilon are integers times a unit.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/math/equals.h>
#include <dataframe/utils/utils.h>
using namespace vf;
using namespace df::math;
using df::Serie;
using V = std::vector<Serie>;
static double U = 1;
static J all(const V &l) { std::vector<J> r; for (auto &s : l) r.push_back(encIS(s, U)); return list(r); }

static void exact(const Serie &a, const Serie &b) {
    bool t = false; Serie m; std::string res = attempt([&] { t = equals(a, b); });
    emit(O()("op", "equals")("in", all({a, b}))("eps", 0)("res", res)("out", t));
    res = attempt([&] { m = equalityMask(a, b); });
    emit(O()("op", "mask")("in", all({a, b}))("eps", 0)("res", res)("mask", encIS(m)));
}
static void near(const Serie &a, const Serie &b, int eps, bool dflt = false) {
    bool t = false; Serie m; std::string res = attempt([&] { t = dflt ? approximatelyEquals(a, b) : approximatelyEquals(a, b, eps * U); });
    emit(O()("op", "near")("in", all({a, b}))("eps", eps)("res", res)("out", t));
    res = attempt([&] { m = dflt ? approximateEqualityMask(a, b) : approximateEqualityMask(a, b, eps * U); });
    emit(O()("op", "mask")("in", all({a, b}))("eps", eps)("res", res)("mask", encIS(m)));
    res = attempt([&] { t = dflt ? approximatelyEqualsAll(a, b) : approximatelyEqualsAll(a, b, eps * U); });
    emit(O()("op", "all")("in", all({a, b}))("eps", eps)("res", res)("out", t));
}
static bool nears(const V &s, double e) { return s.size() == 1 ? approximatelyEqualsAll(s[0], e) : s.size() == 2 ? approximatelyEqualsAll(s[0], s[1], e) : s.size() == 3 ? approximatelyEqualsAll(s[0], s[1], s[2], e) : s.size() == 4 ? approximatelyEqualsAll(s[0], s[1], s[2], s[3], e) : approximatelyEqualsAll(s[0], s[1], s[2], s[3], s[4], e); }
static bool nears(const V &s) { return s.size() == 1 ? approximatelyEqualsAll(s[0]) : s.size() == 2 ? approximatelyEqualsAll(s[0], s[1]) : s.size() == 3 ? approximatelyEqualsAll(s[0], s[1], s[2]) : s.size() == 4 ? approximatelyEqualsAll(s[0], s[1], s[2], s[3]) : approximatelyEqualsAll(s[0], s[1], s[2], s[3], s[4]); }
static void allNear(const V &s, int eps, bool dflt = false) {
    bool t = false;
    std::string res = attempt([&] { t = dflt ? nears(s) : nears(s, eps * U); });
    emit(O()("op", "all")("in", all(s))("eps", eps)("res", res)("out", t));
}
static void every(const V &s) {
    bool t = false;
    std::string res = attempt([&] { t = s.size() == 1 ? equalsAll(s[0]) : s.size() == 2 ? equalsAll(s[0], s[1]) : s.size() == 3 ? equalsAll(s[0], s[1], s[2]) : s.size() == 4 ? equalsAll(s[0], s[1], s[2], s[3]) : equalsAll(s[0], s[1], s[2], s[3], s[4]); });
    emit(O()("op", "all")("in", all(s))("eps", 0)("res", res)("out", t));
}
static void among(Rng &r) { // is it one of them
    Array a = intArray(r, aCount(r, 60), -9, 9, U); double x = !a.empty() && r.chance(40) ? a[r.chance(50) ? a.size() - 1 : r.below(uint32_t(a.size()))] : r.range(-9, 9) * U; bool t = false;
    std::string res = attempt([&] { t = df::contains(a, x); });
    emit(O()("op", "contains")("list", encIA(a, U))("x", encI(x, U))("res", res)("out", t));
    Strings l; for (double v : a) l.push_back(std::to_string(int(v / U))); std::string y = std::to_string(int(x / U));
    res = attempt([&] { t = df::contains(l, y); });
    emit(O()("op", "contains")("list", encIA(a, U))("x", encI(x, U))("res", res)("out", t));
}
static Serie changed(const Serie &s, size_t k, double by) { Array a = s.asArray(); if (k < a.size()) a[k] += by * U; return s.isValid() ? Serie(int(s.itemSize()), a, s.dimension()) : s; }
static Serie reshaped(Rng &r, const Serie &s) { // as many values, another shape
    uint32_t z = uint32_t(s.asArray().size());
    for (int t = 0; t < 5; ++t) { int is = r.range(1, 6); if (z % is == 0 && is != int(s.itemSize())) return Serie(is, s.asArray(), s.dimension()); }
    return Serie();
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) for (auto &c : b) {
            U = r.chance(50) ? 1 : 0.5;
            auto l = c.l(1);
            auto mk = [&](const std::vector<int> &sh, uint dim = 3) { Array a; for (int k = 0; k < sh[0] * sh[1]; ++k) a.push_back(U * ((k * 5) % 7 - 3)); return sh[0] ? Serie(sh[0], a, dim) : Serie(); };
            if (c.op() == "differ") { Serie s = mk(l), t = changed(s, size_t(c.i(2)), c.i(3)); exact(s, t); near(s, t, 2); }
            else if (c.op() == "shapes") { Serie s = mk(l), t = mk(c.l(2)), t2 = mk(c.l(2), 2); exact(s, t); near(s, t, 1); exact(s, t2); near(t2, s, 1); every({s, t}); allNear({s, s, t}, 1); }
            else { V v; for (int k = 1; k <= l[0]; ++k) v.push_back(changed(mk({2, 3}), size_t(k), k == l[1] ? l[2] : 0)); every(v); allNear(v, r.range(0, 3)); }
        }
        return 0;
    }
    for (int k = 0; k < 110 * o.scale; ++k) {
        static const double D = std::numeric_limits<double>::epsilon();
        bool dflt = k % 5 == 4; // the default epsilon is 100 ulps of one
        U = dflt ? D : pow2(r.pick(std::vector<int>{0, 0, 0, -1, -4, 3, 20, -40, 60, -1000, 900}));
        int eps = dflt ? 100 : r.chance(20) ? 0 : r.pick(std::vector<int>{1, 2, 7, 100, 100000});
        uint32_t n = k % 40 == 12 ? aCount(r, 4200) : aCount(r, 150);
        int is = anItemSize(r, n), mag = r.chance(50) ? 3 : 400000000;
        Serie s(is, runs(r, intArray(r, size_t(is) * n, -mag, mag, U), is), aDim(r)), t = s;
        size_t z = s.asArray().size();
        int how = r.range(0, 9);
        auto place = [&]() -> size_t { return r.chance(30) ? z - 1 : r.chance(20) ? 0 : r.below(uint32_t(z)); };
        std::vector<int> B{1, -1, eps, -eps, eps + 1, -eps - 1, eps - 1, 1000000, -1000000, eps / 2};
        if (z && how >= 1 && how <= 6) { for (int j = r.chance(75) ? 1 : r.range(2, 12); j > 0; --j) t = changed(t, place(), r.pick(B)); if (r.chance(50)) std::swap(s, t); }
        if (how == 6 && z) { Array a = t.asArray(); for (auto &x : a) x += U * r.range(-eps, eps); t = Serie(is, a, s.dimension()); } // all within
        if (how == 7) t = Serie(is, s.asArray(), s.dimension() == 2 ? 3 : 2);
        if (how == 8) t = r.chance(50) ? reshaped(r, s) : Serie(is, intArray(r, size_t(is) * (n + 1), -mag, mag, U), s.dimension());
        if (how == 9 && z) { Array a = s.asArray(); std::reverse(a.begin(), a.end()); t = Serie(is, a, s.dimension()); }
        exact(s, t); near(s, t, eps, dflt);
        V v{s}; int m = r.range(1, 5); for (int j = 1; j < m; ++j) v.push_back(r.chance(75) ? s : t);
        if (how < 8 || n < 300) { every(v); allNear(v, eps, dflt); }
        if (how < 7 && z && r.chance(40)) { // each within eps of the one before it, the last not of the first
            V w{s}; for (int j = 1; j < m; ++j) { Array a = w.back().asArray(); for (auto &x : a) x += U * (r.chance(50) ? eps : r.range(-eps, eps)); if (r.chance(15)) a[place()] += U * r.pick(std::vector<int>{1, -1, eps}); w.emplace_back(is, a, s.dimension()); }
            allNear(w, eps, dflt);
        }
        if (r.chance(20)) among(r);
        if (r.chance(10)) { Serie none; exact(none, s); exact(s, none); exact(none, none); near(none, none, eps); every({none}); every({none, none}); every({s, s, none}); }
    }
    for (uint32_t n : {65536u, 70001u}) if (o.mine(n / 2)) { U = 1; Serie s(1, intArray(r, n, -3, 3), 2); exact(s, changed(s, n - 1, 1)); near(s, changed(s, 65535, -2), 1); exact(s, s); }
}
