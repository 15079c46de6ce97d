// C17: products, norms, transposes, determinants, inverses, on exact integers.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/norm.h>
#include <dataframe/functional/algebra/transpose.h>
#include <dataframe/functional/algebra/det.h>
#include <dataframe/functional/algebra/inv.h>
using namespace vf;
using namespace df::algebra;
using df::Serie;

static double U = 1;
template <class F> static void run(O o, double ru, double tol, F &&f) {
    Serie out;
    std::string res = attempt([&] { out = f(); });
    emit(o("res", res)("out", encIS(out, ru, tol)));
}
static O ev(const char *op, const std::vector<Serie> &in) { std::vector<J> r; for (auto &s : in) r.push_back(encIS(s, U)); O o; o("op", op)("in", list(r)); return o; }
static void doDot(const Serie &a, const Serie &b) { run(ev("dot", {a, b}), U * U, 0, [&] { return dot(a, b); }); }
static void doDotV(const Serie &a, const std::vector<int> &x) { Array v; for (int i : x) v.push_back(i * U); run(ev("dotv", {a})("x", x), U * U, 0, [&] { return dot(a, v); }); }
static void doCross(const Serie &a, const Serie &b) { run(ev("cross", {a, b}), U * U, 0, [&] { return cross(a, b); }); }
static void doNorm2(const Serie &a) { run(ev("norm2", {a}), U * U, 0, [&] { return norm2(a); }); }
static void doNorm(const Serie &a, int f) { run(ev("norm", {a})("f", f), U / f, f == 1 ? 1e-12 : 0.5, [&] { return norm(a); }); }
static void doTranspose(const Serie &a) { run(ev("transpose", {a}), U, 0, [&] { return transpose(a); }); }
static void doDet(const Serie &a) { run(ev("det", {a}), a.dimension() == 2 ? U * U : U * U * U, 0, [&] { return det(a); }); }
static void doInv(const Serie &a, int f) {
    run(ev("inv", {a})("f", f)("thr", int(std::min(1e9, std::floor(1e-10 / (U * U * U))))), 1 / U / f, f == 1 ? 1e-9 : 0.5, [&] { return inv(a); });
}

static Serie ser(Rng &r, int is, uint32_t n, int mag, uint dim = 0) { return Serie(is, runs(r, intArray(r, size_t(is) * n, -mag, mag, U), is), dim ? dim : aDim(r)); }
static double det9(const Array &m) { return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); }
// Entries of a random matrix; 'unit' ones have determinant one and an integer inverse.
static Array matrix(Rng &r, bool sym, bool unit, int mag) {
    Array m(9);
    if (unit) {
        for (;;) {
            m = {1, 0, 0, 0, 1, 0, 0, 0, 1};
            int steps = sym ? r.range(1, 4) : r.range(1, 7);
            for (int s = 0; s < steps; ++s) {
                int i = r.range(0, 2), j = (i + r.range(1, 2)) % 3, c = r.range(-mag, mag);
                for (int k = 0; k < 3; ++k) m[i * 3 + k] += c * m[j * 3 + k];
                if (sym) for (int k = 0; k < 3; ++k) m[k * 3 + i] += c * m[k * 3 + j];
            }
            double mx = 0; for (double x : m) mx = std::max(mx, std::fabs(x));
            if (mx <= 500) return m; // the cofactors then stay small enough
        }
    }
    do {
        for (auto &x : m) x = r.range(-mag, mag);
        if (sym) { m[3] = m[1]; m[6] = m[2]; m[7] = m[5]; }
    } while (det9(m) == 0);
    return m;
}
static void put(Array &to, const Array &m, bool sym) {
    if (sym) for (int k : {0, 1, 2, 4, 5, 8}) to.push_back(m[k] * U); else for (double x : m) to.push_back(x * U);
}
static void inverses(Rng &r) {
    bool sym = r.chance(50), unit = r.chance(50);
    uint32_t n = aCount(r, 70);
    Array a;
    int singular = r.chance(20) && n ? int(r.below(n)) : -1;
    for (uint32_t i = 0; i < n; ++i) {
        Array m = matrix(r, sym, unit, unit ? 6 : 9);
        if (int(i) == singular) { // a null row and column, two equal ones, or opposite ones
            int w = r.range(0, 2), c = r.range(0, 2), q = (c + 1) % 3;
            if (w == 0) for (int k = 0; k < 3; ++k) m[c * 3 + k] = m[k * 3 + c] = 0;
            else { int g = w == 1 ? 1 : -2; for (int k = 0; k < 3; ++k) m[c * 3 + k] = g * m[q * 3 + k]; for (int k = 0; k < 3; ++k) m[k * 3 + c] = g * m[k * 3 + q]; }
        }
        put(a, m, sym);
    }
    Serie s(sym ? 6 : 9, a, r.chance(94) ? 3 : 2);
    if (s.dimension() == 2) { doInv(s, 1); return; }
    if (unit) return doInv(s, 1);
    doInv(s, 65536);
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        std::map<std::pair<int, int>, Array> pile; Array va, vb;
        for (auto &b : script(o)) for (auto &c : b) {
            auto v = c.l(1);
            if (c.op() == "v") { for (int k = 0; k < 3; ++k) { va.push_back(v[k]); vb.push_back(v[k + 3]); } continue; }
            Array a(v.begin(), v.end());
            auto &p = pile[{int(v.size()), c.i(2)}]; // all of one kind in one Serie
            p.insert(p.end(), a.begin(), a.end());
            if (v.size() > 4 && r.chance(40)) doInv(Serie(int(v.size()), a, 3), 65536);
        }
        for (auto &p : pile) {
            Serie s(p.first.first, p.second, p.first.second);
            doDet(s); doNorm2(s); doNorm(s, 64);
            if (s.itemSize() == 4 || s.itemSize() == 9) doTranspose(s);
            if (s.itemSize() < 6) continue;
            Array reg; // the regular ones together
            s.forEach([&](const Array &m, uint32_t) {
                Array f = m; if (m.size() == 6) f = {m[0], m[1], m[2], m[1], m[3], m[4], m[2], m[4], m[5]};
                if (det9(f) != 0) reg.insert(reg.end(), m.begin(), m.end());
            });
            doInv(Serie(s.itemSize(), reg, 3), 65536);
        }
        Serie a(3, va, 3), b(3, vb, 3);
        doCross(a, b); doDot(a, b);
        return 0;
    }
    static const std::vector<std::string> OPS{"dot", "dotv", "cross", "norm2", "norm", "transpose", "det", "det", "inv", "inv"};
    for (int k = 0; k < 260 * o.scale; ++k) {
        U = pow2(r.pick(std::vector<int>{0, 0, 0, 0, -1, -2, 3, 20, -30, -60, -250, 250}));
        std::string op = OPS[k % OPS.size()];
        uint32_t n = k % 50 == 13 ? aCount(r, 4200) : aCount(r, 150);
        int is = anItemSize(r, n), big = r.chance(50);
        int mag = big ? int(std::sqrt(1.9e9 / is)) : 20;
        if (op == "dot") {
            Serie a = ser(r, is, n, mag), b = ser(r, is, n, mag);
            if (r.chance(12)) b = ser(r, is, n + 1, mag);
            else if (r.chance(12)) b = ser(r, is + 1, n, mag);
            else if (r.chance(5)) b = ser(r, 1, n * is, mag);
            else if (r.chance(10)) b = a;
            doDot(a, b);
        } else if (op == "dotv") {
            std::vector<int> x(r.chance(80) ? is : r.chance(50) ? is + 1 : is - 1);
            for (auto &v : x) v = r.range(-mag, mag);
            doDotV(r.chance(3) ? Serie() : ser(r, is, n, mag), x);
        } else if (op == "cross") {
            mag = big ? 30000 : 20;
            Serie a = ser(r, 3, n, mag), b = ser(r, 3, n, mag);
            if (r.chance(8)) b = ser(r, 3, n + 1, mag);
            else if (r.chance(8)) a = ser(r, 6, n, mag);
            else if (r.chance(8)) b = ser(r, 2, n, mag);
            else if (r.chance(4)) a = Serie();
            else if (r.chance(4)) b = Serie();
            doCross(a, b);
        } else if (op == "norm2") doNorm2(r.chance(4) ? Serie() : ser(r, is, n, mag));
        else if (op == "norm") {
            if (r.chance(4)) doNorm(Serie(), 1);
            else if (r.chance(50)) doNorm(ser(r, is, n, 40), is > 8 ? 16 : 64);
            else { // whole lengths
                static const std::vector<std::vector<int>> T{{1}, {3, 4}, {5, 12}, {8, 15}, {1, 2, 2}, {2, 3, 6}, {1, 4, 8}, {2, 6, 9}, {1, 1, 1, 1}, {2, 4, 5, 6}, {1, 2, 2, 4, 12}};
                Array a;
                for (uint32_t i = 0; i < n; ++i) {
                    std::vector<int> t; do t = r.pick(T); while (int(t.size()) > is);
                    t.resize(is);
                    for (int j = is - 1; j > 0; --j) std::swap(t[j], t[r.range(0, j)]);
                    int f = r.chance(50) ? r.range(0, 2000) : r.range(0, 3);
                    for (int j = 0; j < is; ++j) a.push_back(U * t[j] * f * (r.chance(50) ? 1 : -1));
                }
                doNorm(Serie(is, a, aDim(r)), 1);
            }
        } else if (op == "transpose") doTranspose(ser(r, r.chance(90) ? (r.chance(50) ? 4 : 9) : is, n, big ? 1000000000 : 20));
        else if (op == "det") {
            uint dim = aDim(r);
            int m = r.chance(88) ? (dim == 2 ? r.range(3, 4) : r.chance(50) ? 6 : 9) : r.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 9, 10, 16});
            if (r.chance(3)) doDet(Serie());
            else doDet(ser(r, m, n, big ? (dim == 2 ? 30000 : 680) : 12, dim));
        } else {
            if (r.chance(12)) { doInv(r.chance(30) ? Serie() : ser(r, is, n, 3, is == 6 || is == 9 ? 2 : 0), 1); continue; }
            if (std::fabs(U) > 8 || U < 1e-3) U = 1;
            if (r.chance(35)) U = r.chance(70) ? pow2(r.range(-13, -11)) : pow2(r.range(-12, 12));
            inverses(r);
        }
    }
    for (uint32_t n : {65537u}) { U = 1; if (o.mine(0)) doDot(ser(r, 1, n, 20), ser(r, 1, n, 20)); if (o.mine(1)) doNorm2(ser(r, 1, n, 20)); if (o.mine(2)) doTranspose(ser(r, 4, 17000, 20)); if (o.mine(3)) doDet(ser(r, 3, 22000, 20, 2)); }
}
