// C16: elementwise arithmetic on integers times a power of two, so that every
// result is exact.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/math/negate.h>
#include <dataframe/functional/math/weightedSum.h>
using namespace vf;
using namespace df::math;
using df::Serie;
using V = std::vector<Serie>;

static double U = 1, UX = 1; // the unit of the operands; of the factors
static J all(const V &l, double u) { std::vector<J> r; for (auto &s : l) r.push_back(encIS(s, u)); return list(r); }
// us: the units of the operands, where they are not all U
template <class F> static void run(const std::string &op, const V &in, const std::vector<int> &x, double ru, F &&f, std::vector<double> us = {}) {
    Serie out;
    std::string res = attempt([&] { out = f(); });
    us.resize(in.size(), U);
    std::vector<J> ops; for (size_t k = 0; k < in.size(); ++k) ops.push_back(encIS(in[k], us[k]));
    emit(O()("op", op)("in", list(ops))("x", x)("res", res)("out", encIS(out, ru)));
}

static Serie adds(const V &s, int form) {
    if (form == 0) switch (s.size()) { // a list
        case 1: return add({s[0]}); case 2: return add(std::initializer_list<Serie>{s[0], s[1]}); case 3: return add({s[0], s[1], s[2]});
        default: return add({s[0], s[1], s[2], s[3]}); }
    switch (s.size()) { case 1: return add(s[0]); case 2: return add(s[0], s[1]); case 3: return add(s[0], s[1], s[2]); default: return add(s[0], s[1], s[2], s[3]); }
}
static Serie subs(const V &s, int form) {
    if (form == 0) switch (s.size()) {
        case 1: return sub({s[0]}); case 2: return sub(std::initializer_list<Serie>{s[0], s[1]}); case 3: return sub({s[0], s[1], s[2]});
        default: return sub({s[0], s[1], s[2], s[3]}); }
    switch (s.size()) { case 2: return sub(s[0], s[1]); case 3: return sub(s[0], s[1], s[2]); default: return sub(s[0], s[1], s[2], s[3]); }
}
static Serie weighted(const V &s, const Array &w, int form) {
    if (form == 0) switch (w.size()) {
        case 1: return s.size() == 1 ? weigthedSum({s[0]}, {w[0]}) : weigthedSum({s[0], s[1]}, {w[0]});
        case 2: return s.size() == 2 ? weigthedSum({s[0], s[1]}, {w[0], w[1]}) : s.size() == 1 ? weigthedSum({s[0]}, {w[0], w[1]}) : weigthedSum({s[0], s[1], s[2]}, {w[0], w[1]});
        case 3: return s.size() == 3 ? weigthedSum({s[0], s[1], s[2]}, {w[0], w[1], w[2]}) : s.size() == 2 ? weigthedSum({s[0], s[1]}, {w[0], w[1], w[2]}) : weigthedSum({s[0], s[1], s[2], s[3]}, {w[0], w[1], w[2]});
        default: break; }
    switch (s.size()) { case 1: return weigthedSum({s[0]}, w); case 2: return weigthedSum({s[0], s[1]}, w); case 3: return weigthedSum({s[0], s[1], s[2]}, w); default: return weigthedSum({s[0], s[1], s[2], s[3]}, w); }
}
static void doAdd(const V &s, int form) { run("add", s, {}, U, [&] { return adds(s, form); }); }
static void doSub(const V &s, int form) { run("sub", s, {}, U, [&] { return subs(s, form); }); }
// Some of the Series are larger, and their weights as much smaller.
static void doWeighted(const V &in, const std::vector<int> &w, int form, const std::vector<int> &e = {}) {
    V s = in; Array a(w.begin(), w.end()); std::vector<double> us;
    for (auto &x : a) x *= UX;
    for (size_t j = 0; j < s.size(); ++j) { double q = j < e.size() ? pow2(e[j]) : 1; us.push_back(U * q); for (auto &x : s[j].asArray()) x *= q; if (j < a.size()) a[j] /= q; }
    run("weighted", s, w, U * UX, [&] { return weighted(s, a, form); }, us);
}
static void doScalar(const std::string &op, const Serie &s, int x) {
    bool prod = op == "mulc" || op == "sclc"; double ux = prod ? UX : U;
    bool whole = ux >= 1 && ux * std::abs(x) < 2e9, first = (x + int(s.count())) % 2; // the number as an int; the number first
    int xi = whole ? int(x * ux) : 0; double xd = x * ux;
    if (op == "addc") run(op, {s}, {x}, U, [&] { return whole && x % 3 == 0 ? (first ? add(xi, s) : add(s, xi)) : first ? add(xd, s) : add(s, xd); });
    else if (op == "subc") run(op, {s}, {x}, U, [&] { return sub(s, double(x * U)); });
    else if (op == "mulc") run(op, {s}, {x}, U * UX, [&] { return whole && x % 3 == 0 ? (first ? mult(xi, s) : mult(s, xi)) : first ? mult(xd, s) : mult(s, xd); });
    else if (op == "sclc") run(op, {s}, {x}, U * UX, [&] { return scale(s, xd); });
    else run("neg", {s}, {}, U, [&] { return negate(s); });
}
static void doMult(const Serie &s, const Serie &m) { run("mult", {s, m}, {}, U * UX, [&] { return mult(s, m); }, {U, UX}); }
static void doScale(const Serie &s, const std::vector<int> &x) { Array a(x.begin(), x.end()); for (auto &v : a) v *= UX; run("scale", {s}, x, U * UX, [&] { return scale(s, a); }); }

// Division. Quotients are recorded in units of 1/fx. A divider is an ordinary
// integer, a count of 1e-10 ("small"), or smaller than 1e-10 ("none").
struct W { std::string k; int w; double d; };
static W divider(Rng &r, int lo, int hi) {
    static const std::vector<double> T{0.0, -0.0, 9.99e-11, -9.99e-11, 1e-11, -5e-11, 1e-300, -1e-200};
    int c = r.range(0, 99), w;
    do w = r.range(lo, hi); while (w == 0);
    if (c < 15) return {"none", 0, r.pick(T)};
    if (c < 25) { int q = r.chance(50) ? 1 : r.range(1, 30); return {"small", q, r.chance(50) ? q * 1e-10 : q / 1e10}; }
    if (c < 30) { int q = r.chance(50) ? 1 : r.range(1, 30); return {"small", -q, -(q * 1e-10)}; }
    return {"int", w, double(w)};
}
static void divide(const std::string &op, const Serie &s, const std::vector<W> &w, double fx, const Serie *dv = nullptr, double ud = 1) { // ud: the unit of the divider, U / ud that of the quotients
    Serie out;
    std::string res = attempt([&] { if (dv) out = df::math::div(*dv, s); else out = df::math::div(w[0].d, s); });
    J ks, q; std::vector<std::string> k; std::vector<int> ws;
    for (auto &x : w) { k.push_back(x.k); ws.push_back(x.w); }
    q.t = "[";
    size_t is = std::max<size_t>(out.itemSize(), 1);
    const Array &a = out.asArray();
    for (size_t i = 0; i < a.size(); ++i) {
        const W &x = dv ? (i / is < w.size() ? w[i / is] : w[0]) : w[0];
        double v = x.k == "small" ? a[i] * 1e-10 : a[i];
        if (x.k == "none" && a[i] != 0) v = 1e9;
        int e = encI(v / (U / ud), 1 / fx, fx != 1 ? 0.5 : x.k == "int" ? 0 : 1e-9); // quotients of integers are exact
        if (i) { q.t += ","; } q.t += std::to_string(e);
    }
    q.t += "]";
    emit(O()("op", op)("in", all(dv ? V{s, *dv} : V{s}, U))("wk", k)("w", ws)("fx", int(fx))("res", res)
        ("out", O()("is", long(out.itemSize()))("n", long(out.count()))("dim", long(out.dimension()))("v", q).j()));
}
static void doDiv(Rng &r, int is, uint32_t n, uint dim, bool serie, bool exact, int bad = 0) {
    std::vector<W> w;
    Array a(size_t(is) * n), d(n);
    for (uint32_t i = 0; i < (serie ? n : 1); ++i) w.push_back(exact ? divider(r, -30000, 30000) : divider(r, -900, 900));
    if (!serie && w[0].k == "none") w[0] = W{"int", -7, -7.0};
    // a number divides whatever its size: its unit, down to where its inverse is no number
    double u = U, ud = serie || U != 1 ? 1 : pow2(r.pick(std::vector<int>{0, 0, -34, -300, -1060, 500, 900}));
    if (!serie && w[0].k == "int") w[0].d *= ud; else ud = 1;
    for (uint32_t i = 0; i < n; ++i) {
        const W &x = serie ? w[i] : w[0];
        d[i] = x.d;
        for (int j = 0; j < is; ++j) a[size_t(i) * is + j] = ud * U * (exact ? double(r.range(-60000, 60000)) * (x.w == 0 ? 1 : x.w) : r.range(-2000, 2000));
    }
    Serie s(is, a, dim);
    U *= ud; // the unit of the divided values
    if (!serie) { divide("divc", s, w, exact ? 1 : 1024, nullptr, ud); U = u; return; }
    Serie dv(1, d, aDim(r));
    if (bad == 1) { d.push_back(1); w.push_back({"int", 1, 1.0}); dv = Serie(1, d, dim); }
    if (bad == 2 && n) { d.pop_back(); w.pop_back(); dv = Serie(1, d, dim); }
    if (bad == 3) { Array b; for (double x : d) { b.push_back(x); b.push_back(x); } dv = Serie(2, b, dim); }
    if (bad == 4) { dv = Serie(); w.clear(); }
    if (bad == 5) s = Serie();
    divide("div", s, w, exact ? 1 : 1024, &dv);
}

static Serie ser(Rng &r, int is, uint32_t n, int mag, double u = 0) { return Serie(is, runs(r, intArray(r, size_t(is) * n, -mag, mag, u == 0 ? U : u), is), aDim(r)); }
static std::vector<int> some(Rng &r, size_t n, int mag) { std::vector<int> v(n); for (auto &x : v) x = r.range(-mag, mag); return v; }
static const std::vector<std::string> OPS{"add", "sub", "weighted", "addc", "subc", "mulc", "sclc", "neg", "mult", "scale", "div", "divc"};
static int other(Rng &r, int is) { int k; do k = anItemSize(r); while (k == is); return k; }

static std::pair<int, int> factors(Rng &r, bool big) { return big ? r.pick(std::vector<std::pair<int, int>>{{40000, 40000}, {500000000, 4}, {4, 500000000}}) : std::pair<int, int>{50, 50}; }

static void one(Rng &r, const std::string &op, int is, uint32_t n, int k, bool big) {
    if (op == "add" || op == "sub") {
        int form = r.range(0, 1);
        if (op == "sub" && form == 1 && k < 2) k = 2;
        int mag = big ? (k <= 2 ? 1000000000 : 300000000) : 100;
        V s; for (int j = 0; j < k; ++j) s.push_back(j && r.chance(10) ? s[0] : ser(r, is, n, mag));
        if (k > 1 && r.chance(18)) { int at = r.range(1, k - 1); bool c = r.chance(50);
            s[at] = ser(r, c ? is : other(r, is), c ? (n && r.chance(50) ? n - 1 : n + 1) : n, mag); }
        else if (k > 1 && r.chance(5) && is > 1) s[r.range(1, k - 1)] = ser(r, 1, n * is, mag); // as many values, otherwise shaped
        if (op == "add") doAdd(s, form); else doSub(s, form);
    } else if (op == "weighted") {
        auto mags = r.pick(std::vector<std::pair<int, int>>{{20000, 20000}, {240000000, 2}, {2, 240000000}});
        if (!big) mags = {50, 50};
        V s; for (int j = 0; j < k; ++j) s.push_back(j && r.chance(10) ? s[0] : ser(r, is, n, mags.first));
        if (k > 1 && r.chance(15)) { bool c = r.chance(50); s[r.range(1, k - 1)] = ser(r, c ? is : other(r, is), c ? n + 1 : n, mags.first); }
        int m = k; if (r.chance(15)) m = r.chance(50) ? k + 1 : k - 1;
        if (m == 0) m = 2;
        doWeighted(s, some(r, m, mags.second), k == 4 ? 1 : m <= 3 && k <= 4 && std::abs(m - k) <= 1 ? r.range(0, 1) : 1, r.chance(50) ? std::vector<int>{} : some(r, k, r.chance(50) ? 4 : 60));
    } else if (op == "mult") {
        auto mg = factors(r, big);
        Serie s = ser(r, is, n, mg.first);
        int ms = r.chance(45) ? 1 : r.chance(75) ? is : other(r, is);
        Serie m = ser(r, ms, r.chance(88) ? n : n + 1, mg.second, UX);
        if (mg.first <= 40000 && mg.second <= 40000 && r.chance(10)) { UX = U; m = s; }
        doMult(s, m);
    } else if (op == "scale") {
        size_t m = r.chance(80) ? is : r.chance(50) ? is + 1 : is - 1;
        auto mg = factors(r, big);
        doScale(ser(r, is, n, mg.first), some(r, m, mg.second));
    } else if (op == "div" || op == "divc") doDiv(r, is, n, aDim(r), op == "div", r.chance(60), r.chance(20) ? r.range(1, 5) : 0);
    else {
        bool prod = op == "mulc" || op == "sclc";
        auto mg = prod ? factors(r, big) : big ? std::pair<int, int>{1000000000, 1000000000} : std::pair<int, int>{100, 100};
        doScalar(op, ser(r, is, n, mg.first), r.chance(10) ? 0 : r.range(-mg.second, mg.second));
    }
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) for (auto &c : b) { // shapes (item size, count) of the operands
            auto sh = c.l(1); V s; size_t k = sh.size() / 2;
            U = UX = r.chance(50) ? 1 : 0.25;
            int b0 = 1;
            for (size_t j = 0; j < k; ++j) { Array a; for (int q = 0; q < sh[2 * j] * sh[2 * j + 1]; ++q) a.push_back(U * double((b0++ * 7) % 23 - 11)); s.push_back(Serie(sh[2 * j], a, 2 + j % 2)); }
            const std::string &op = c.op();
            if (op == "add") { doAdd(s, 0); doAdd(s, 1); }
            else if (op == "sub") { doSub(s, 0); if (k > 1) doSub(s, 1); }
            else if (op == "mult") doMult(s[0], s[1]);
            else if (op == "scale") doScale(s[0], some(r, s[1].count(), 9));
            else if (op == "weighted") doWeighted(s, some(r, c.i(2), 9), 1);
            else doScalar(op, s[0], r.range(-9, 9));
        }
        return 0;
    }
    for (int k = 0; k < 260 * o.scale; ++k) {
        U = pow2(r.pick(std::vector<int>{0, 0, 0, -1, -3, 2, 10, -40, 30, -300, 300}));
        UX = r.chance(60) ? (r.chance(50) ? 1 : U) : pow2(r.pick(std::vector<int>{-2, 5, -34, -50, -300, 40, 300}));
        std::string op = OPS[k % OPS.size()];
        uint32_t n = k % 40 == 13 ? aCount(r, 4200) : aCount(r, 150);
        int is = anItemSize(r, n);
        if ((op == "addc" || op == "subc") && r.chance(70)) is = 1;
        one(r, op, is, n, r.range(1, 4), r.chance(40));
    }
    for (uint32_t n : {65535u, 65537u}) for (size_t j = 0; j < OPS.size(); ++j) if (o.mine(n / 2 + j) && (n > 65536 || j % 5 == 0)) { U = UX = 1; one(r, OPS[j], 1, n > 65536 ? n + r.below(3000) : n, 2, false); }
    for (size_t j = 0; j < OPS.size(); ++j) if (o.mine(j)) { // as many values in items of several
        U = UX = 1; int is = r.range(2, 3); uint32_t n = uint32_t(67000 / is) + r.below(2000);
        if (OPS[j] == "mult") { doMult(ser(r, is, n, 50), ser(r, is, n, 50)); doMult(ser(r, is, n, 50), ser(r, 1, n, 50)); } else one(r, OPS[j], is, n, 2, false);
    }
}
