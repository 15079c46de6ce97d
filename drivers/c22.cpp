// C22: meshes, insar, fringes and grids of integers times a unit.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/geo/insar.h>
#include <dataframe/functional/geo/cartesian_grid.h>
using namespace vf;
using df::Serie;
static double U = 1;
using Ints = std::vector<int>;

static void mesh(const Serie &p, const Serie &t, bool lin) {
    Serie n, a;
    std::string res = attempt([&] { n = df::geo::normals(p, t); });
    emit(O()("op", "normals")("p", encIS(p, U))("t", encIS(t))("res", res)("out", encIS(n, U * U)));
    res = attempt([&] { a = df::geo::areas(p, t); });
    Serie q = a;
    for (auto &x : q.asArray()) x = lin ? 2 * x : x < 0 ? NAN : 4 * x * x;
    emit(O()("op", "areas")("kind", lin ? "lin" : "sq")("p", encIS(p, U))("t", encIS(t))("res", res)("out", encIS(q, lin ? U * U : U * U * U * U, 1e-9)));
}
static void insar(const Serie &u, const Ints &los) {
    double ul = los.size() % 2 == 1 && los[0] % 2 == 0 ? U : los.empty() || los[0] % 3 == 0 ? 1 : pow2(-40); // the unit of the direction
    Array l; for (int x : los) l.push_back(x * ul);
    Serie out; std::string res = attempt([&] { out = df::geo::insar(u, l); });
    emit(O()("op", "insar")("u", encIS(u, U))("los", los)("res", res)("out", encIS(out, U * ul)));
}
static void fringes(const Serie &s, int m) {
    Serie out; std::string res = attempt([&] { out = df::geo::fringes(s, m * U); });
    emit(O()("op", "fringes")("s", encIS(s, U))("m", m)("res", res)("out", encIS(out, U, 1e-6)));
}
// corner c and extent d; the centre may be half a unit off
static void grid(const std::vector<uint32_t> &dims, const Ints &c, const Ints &d, bool points) {
    Array a, b; Serie out; std::string res;
    if (points) {
        for (int x : c) a.push_back(x * U);
        for (size_t k = 0; k < d.size(); ++k) b.push_back((k < c.size() ? c[k] : 0) * U + d[k] * U);
        res = attempt([&] { out = df::grid::cartesian::from_points(dims, a, b); });
    } else {
        for (size_t k = 0; k < c.size(); ++k) a.push_back(c[k] * U + (k < d.size() ? d[k] : 0) * U / 2);
        for (int x : d) b.push_back(x * U);
        res = attempt([&] { out = df::grid::cartesian::from_dims(dims, a, b); });
    }
    Ints v, n; const Array &o = out.asArray();
    for (auto x : dims) n.push_back(int(x));
    for (size_t k = 0; k < o.size(); ++k) { size_t ax = k % 3; double m = ax < dims.size() && dims[ax] > 1 ? double(dims[ax]) - 1 : 1; v.push_back(encI(o[k] * m, U, 1e-8)); }
    emit(O()("op", "grid")("by", points ? "points" : "dims")("dims", n)("c", c)("d", d)("res", res)
        ("out", O()("is", long(out.itemSize()))("n", long(out.count()))("dim", long(out.dimension()))("v", v).j()));
}

static Ints some(Rng &r, int n, int mag) { Ints v(n); for (auto &x : v) x = r.range(-mag, mag); return v; }
static void randomMesh(Rng &r, uint32_t np, uint32_t nt) {
    bool lin = r.chance(40); int ax = r.range(0, 2);
    if (np == 0) { np = 1; }
    Array p, t; long far[3]; for (auto &f : far) f = r.chance(30) ? r.range(-900000000, 900000000) : 0;
    long h = r.range(-50, 50);
    for (uint32_t i = 0; i < np; ++i) for (int k = 0; k < 3; ++k) p.push_back(U * double(far[k] + (lin ? (k == ax ? h : r.range(-7500, 7500)) : r.range(-40, 40))));
    for (uint32_t i = 0; i < nt; ++i) for (int k = 0; k < 3; ++k) t.push_back(r.chance(10) ? np - 1 : r.chance(5) ? 0 : r.below(np));
    Serie P(3, p, aDim(r)), T(3, t, aDim(r));
    int bad = r.chance(10) ? r.range(0, 4) : -1;
    if (bad == 0) P = Serie(); if (bad == 1) T = Serie(); if (bad == 2) P = Serie(r.pick(Ints{1, 2, 4, 6}), 12); if (bad == 3) T = Serie(r.pick(Ints{1, 2, 4, 6}), 2); if (bad == 4) T = Serie(3, 0);
    mesh(P, T, lin);
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) for (auto &c : b) {
            U = r.chance(50) ? 1 : 0.5;
            auto l = c.l(1);
            if (c.op() == "dims" || c.op() == "points") grid(std::vector<uint32_t>(l.begin(), l.end()), {-3, 5, 8}, some(r, 3, 60), c.op() == "points");
            else if (c.op() == "mesh") { Array p, t; for (int k = 0; k < 12; ++k) p.push_back(U * r.range(-40, 40)); for (int x : l) t.push_back(x); mesh(Serie(3, p), Serie(3, t), false); }
            else if (c.op() == "shape") { auto q = c.l(2); mesh(Serie(l[0], uint32_t(l[1]), 2), Serie(q[0], l[1] ? uint32_t(q[1]) : 0, 2), false); }
            else if (c.op() == "insar") insar(Serie(l[0], intArray(r, size_t(l[0]) * l[1], -9, 9, U), 2), some(r, c.i(2), 9));
            else { Array a; for (int k = 0; k < 3; ++k) a.push_back(U * c.i(1) * (k + 1)); fringes(Serie(1, a), c.i(2)); }
        }
        return 0;
    }
    for (int k = 0; k < 240 * o.scale; ++k) {
        U = pow2(r.pick(Ints{0, 0, 0, -1, -4, 3, 20, -30, -60, -200, 200}));
        uint32_t n = k % 40 == 12 ? aCount(r, 4200) : aCount(r, 120);
        switch (k % 4) {
        case 0: randomMesh(r, uint32_t(r.range(1, 60)), n); break;
        case 1: { int is = r.chance(90) ? 3 : anItemSize(r); Serie u = r.chance(4) ? Serie() : Serie(is, runs(r, intArray(r, size_t(is) * n, -20000, 20000, U), is), aDim(r)); insar(u, some(r, r.chance(92) ? 3 : r.range(0, 5), r.chance(50) ? 3 : 30000)); break; }
        case 2: if (r.chance(35)) { // around whole numbers of fringes
                int m = r.chance(50) ? r.range(1, 9) : r.chance(50) ? 1 << r.range(10, 28) : r.range(1000, 250000000); Array a(n);
                for (auto &x : a) x = U * (double(r.range(-3, 3)) * m + (r.chance(80) ? r.range(-1, 1) : r.range(-9, 9)));
                fringes(Serie(1, a, aDim(r)), m); break; }
            { int is = r.chance(90) ? 1 : anItemSize(r); Serie s = r.chance(4) ? Serie() : Serie(is, intArray(r, size_t(is) * n, r.chance(50) ? -20 : -1000000000, r.chance(50) ? 20 : 1000000000, U), aDim(r)); fringes(s, r.chance(50) ? r.range(1, 9) : r.range(1, 100000)); break; }
        default: {
            std::vector<uint32_t> d; int nd = r.range(1, 3), mx = nd == 1 ? 600 : nd == 2 ? 24 : 9;
            for (int q = 0; q < nd; ++q) d.push_back(r.chance(20) ? 1 : r.chance(4) ? 0 : uint32_t(r.range(1, mx)));
            if (r.chance(5)) { if (r.chance(50)) d.clear(); else d.resize(4 + r.below(2), 2); }
            bool small = r.chance(60);
            Ints c = some(r, r.chance(96) ? 3 : r.range(0, 5), small ? 100 : 1000000), e = some(r, r.chance(96) ? 3 : r.range(0, 5), small ? 20 : 1000000);
            if (r.chance(30)) for (size_t q = 0; q < e.size(); ++q) e[q] = r.range(-9, 9) * int(q < d.size() && d[q] > 1 ? d[q] - 1 : 1);
            bool points = r.chance(50);
            if (points && c.size() != 3 && e.size() == 3 && c.size() > 3) c.resize(2); // both ends are given by corner and extent
            grid(d, c, e, points); break; }
        }
    }
    U = 1;
    if (o.mine(0)) grid({300, 220}, {-10, 20, 3}, {2990, 219, 7}, true);
    if (o.mine(1)) grid({41, 41, 40}, {-10, 20, 3}, {40, 80, 390}, false);
    if (o.mine(2)) randomMesh(r, 300, 22000);
    if (o.mine(3)) fringes(Serie(1, intArray(r, 66000, -1000, 1000)), 7);
    if (o.mine(4)) insar(Serie(3, intArray(r, 66000 * 3, -1000, 1000)), {1, -2, 3});
}
