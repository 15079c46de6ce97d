// C18: eigen decompositions of integer matrices (times a unit), in fixed
// point: values in thousandths, vectors in ten-thousandths.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/algebra/eigen.h>
using namespace vf;
using namespace df::algebra;
using df::Serie;

static double U = 1;
static void one(const Serie &s, bool alone, const std::vector<std::vector<int>> &want = {}) {
    Serie val, vec, sval, svec;
    std::vector<std::string> res{
        attempt([&] { val = eigenValues(s); }), attempt([&] { vec = eigenVectors(s); }),
        attempt([&] { auto [a, b] = eigenSystem(s); sval = a; svec = b; })};
    O e;
    e("op", "eigen")("in", encIS(s, U))("res", res)("val", encIS(val, U / 1000, 0.5))("vec", encIS(vec, 1e-4, 0.5))("sval", encIS(sval, U / 1000, 0.5))("svec", encIS(svec, 1e-4, 0.5));
    if (alone && res[0] == "ok") {
        std::vector<J> l;
        for (uint32_t i = s.count(); i-- > 0;) { // last first: nothing may be left from the item before
            Serie x(int(s.itemSize()), s.value(i), s.dimension());
            l.insert(l.begin(), list({encIA(eigenValues(x).asArray(), U / 1000, 0.5), encIA(eigenVectors(x).asArray(), 1e-4, 0.5)}));
        }
        e("alone", list(l));
    }
    if (!want.empty()) { std::vector<J> l; for (auto &w : want) l.push_back(w); e("want", list(l)); }
    emit(e);
}
// One packed matrix of a given character.
static void matrix(Rng &r, int d, Array &to) {
    int k = r.range(0, 11), mag = r.pick(std::vector<int>{1, 3, 9, 30, 99});
    std::vector<int> m(d * (d + 1) / 2);
    auto diag = [&](int i) -> int & { return m[d == 2 ? (i ? 2 : 0) : (i == 0 ? 0 : i == 1 ? 3 : 5)]; };
    if (k <= 5) for (auto &x : m) x = r.range(-mag, mag);
    else if (k == 6) for (int i = 0; i < d; ++i) diag(i) = r.range(-mag, mag);               // diagonal
    else if (k == 7) { int v = r.range(-mag, mag); for (int i = 0; i < d; ++i) diag(i) = v; } // a multiple of the identity
    else if (k == 8) { for (auto &x : m) x = r.range(-1, 1); for (int i = 0; i < d; ++i) diag(i) = r.range(-800, 800); } // nearly diagonal
    else if (k == 9) { int v[3]; for (auto &x : v) x = r.range(-9, 9); int q = 0; for (int i = 0; i < d; ++i) for (int j = i; j < d; ++j) m[q++] = v[i] * v[j]; } // rank one
    else if (k == 10) { int v = r.range(-9, 9), w = r.range(-9, 9); for (auto &x : m) x = w; for (int i = 0; i < d; ++i) diag(i) = v; } // two equal values
    else { m[r.below(uint32_t(m.size()))] = r.range(-mag, mag); diag(0) = mag; }              // few entries
    for (int x : m) to.push_back(x * U);
}
static int packedOf(int d) { return d * (d + 1) / 2; }

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        std::map<int, Array> known, plain; std::map<int, std::vector<std::vector<int>>> want;
        auto flush = [&](int is, bool all) {
            U = r.chance(50) ? 1 : pow2(r.range(-40, 40));
            auto go = [&](Array &a, std::vector<std::vector<int>> w) { if (a.empty() || (!all && a.size() < size_t(is) * 20)) return; for (auto &x : a) x *= U; one(Serie(is, a, is == 3 ? 2 : 3), r.chance(20), w); a.clear(); };
            if (all || known[is].size() >= size_t(is) * 20) { go(known[is], want[is]); want[is].clear(); }
            go(plain[is], {});
        };
        for (auto &b : script(o)) for (auto &c : b) {
            auto v = c.l(1); int is = int(v.size());
            if (c.op() == "known") { for (int x : v) known[is].push_back(x); want[is].push_back(c.l(2)); }
            else for (int x : v) plain[is].push_back(x);
            flush(is, false);
        }
        flush(3, true); flush(6, true);
        return 0;
    }
    for (int k = 0; k < 200 * o.scale; ++k) {
        U = r.chance(60) ? 1 : r.chance(80) ? pow2(r.range(-40, 40)) : pow2(r.chance(50) ? -r.range(100, 400) : r.range(100, 400));
        int d = r.range(2, 3);
        uint32_t n = aCount(r, k % 20 == 7 ? 1100 : 60);
        if (r.chance(10)) { // not symmetric matrices of that dimension
            int is = anItemSize(r); uint dim = r.chance(80) ? aDim(r) : r.pick(std::vector<uint>{1, 4, 6});
            if (r.chance(50)) { is = r.pick(std::vector<int>{3, 6, 4, 9}); }
            one(Serie(is, intArray(r, size_t(is) * std::max(n, 1u), -5, 5, U), dim), false);
            continue;
        }
        Array a; for (uint32_t i = 0; i < n; ++i) matrix(r, d, a);
        a = runs(r, a, packedOf(d));
        one(n ? Serie(packedOf(d), a, d) : Serie(packedOf(d), 0u, d), n < 30);
    }
    if (o.mine(1)) one(Serie(), false);
}
