// C10: zip, zipVector, unzip and both round trips.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/utils/zip.h>
#include <dataframe/functional/utils/unzip.h>
using namespace vf;
using df::Serie; using df::Series;

static Serie zipN(const std::string &op, const Series &in) {
    if (op == "zipVector" || in.empty()) return df::utils::zipVector(in);
    if (op == "make_zip" && in.size() == 2) return df::utils::make_zip(in[0])(in[1]);
    switch (in.size()) {
    case 1: return df::utils::zip(in[0]);
    case 2: return df::utils::zip(in[0], in[1]);
    case 3: return df::utils::zip(in[0], in[1], in[2]);
    case 4: return df::utils::zip(in[0], in[1], in[2], in[3]);
    default: return df::utils::zip(in[0], in[1], in[2], in[3], in[4]);
    }
}
static void zip(const std::string &op, const Series &in) {
    Serie out;
    std::string res = attempt([&] { out = zipN(op, in); });
    emit(O()("op", "zip")("how", op)("in", encAll(in))("res", res)("out", encS(out)));
}
static void unzip(const Serie &in, const std::vector<uint32_t> &sizes) {
    Series out;
    std::string res = attempt([&] { out = df::utils::unzip(in, sizes); });
    std::vector<int> z; bool huge = false;
    for (auto x : sizes) { z.push_back(x > 1000000000u ? 1000000000 : int(x)); huge = huge || x > 1000000000u; }
    emit(O()("op", "unzip")("in", encS(in))("sizes", z)("res", res)("out", encAll(out)));
}
static void round(const std::string &op, const Series &in) { // zip then unzip
    Series out; std::vector<uint32_t> sizes;
    for (auto &s : in) sizes.push_back(s.itemSize());
    std::string res = attempt([&] { out = df::utils::unzip(zipN(op, in), sizes); });
    emit(O()("op", "zipunzip")("how", op)("in", encAll(in))("res", res)("out", encAll(out)));
}
static void back(const std::string &op, const Serie &in, const std::vector<uint32_t> &sizes) { // unzip then zip
    Serie out;
    std::string res = attempt([&] { out = zipN(op, df::utils::unzip(in, sizes)); });
    emit(O()("op", "unzipzip")("how", op)("in", encS(in))("res", res)("out", encS(out)));
}
static std::vector<uint32_t> cuts(Rng &r, int is) {
    std::vector<uint32_t> z;
    while (is > 0) { int k = r.chance(40) ? 1 : r.range(1, is); z.push_back(uint32_t(k)); is -= k; }
    return z;
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    static const std::vector<std::string> HOW{"zip", "zipVector", "make_zip"};
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) for (auto &c : b) {
            auto is = c.l(1), n = c.l(2);
            if (c.op() == "unzip") { std::vector<uint32_t> z(is.begin(), is.end()); unzip(aSerie(r, c.i(3), uint32_t(n[0]), 2 + n[0] % 2, 1), z); continue; }
            Series in;
            for (size_t k = 0; k < is.size(); ++k) in.push_back(aSerie(r, is[k], uint32_t(n[k]), 2 + is.size() % 2, r.chance(50) ? 2 : 1));
            if (c.op() == "zip") zip(HOW[c.i(3)], in); else round(HOW[c.i(3)], in);
        }
        return 0;
    }
    for (int k = 0; k < 230 * o.scale; ++k) {
        uint32_t cap = k % 40 == 7 ? 4200 : 300;
        int what = r.range(0, 9), m = r.range(1, 5); uint32_t n = aCount(r, cap); uint dim = aDim(r);
        Series in;
        for (int j = 0; j < m; ++j) in.push_back(aSerie(r, anItemSize(r, n), n, dim));
        if (what < 4) {
            if (r.chance(3)) in.clear();
            else if (r.chance(12)) in[r.below(m)] = aSerie(r, r.chance(50) ? in[0].itemSize() : anItemSize(r), r.chance(40) ? n + 1 : r.chance(40) && n ? n - 1 : 0, dim);
            else if (r.chance(8)) in[r.below(m)] = Serie(0, r.chance(50) ? n : 0, dim);
            zip(r.pick(HOW), in);
        } else if (what == 4) round(r.pick(HOW), in);
        else {
            Serie s = aSerie(r, m == 5 ? r.range(10, 30) : anItemSize(r, n), n, dim);
            auto z = cuts(r, int(s.itemSize()));
            if (what == 5 && z.size() <= 5) { back(r.pick(HOW), s, z); continue; }
            if (what == 5) { back("zipVector", s, z); continue; }
            int bad = r.range(0, 19);
            if (bad == 0) z.clear(); else if (bad == 1) z.push_back(1); else if (bad == 2) z[r.below(uint32_t(z.size()))] += 1;
            else if (bad == 3) z.pop_back(); else if (bad == 4) { z = {4294967295u, s.itemSize() + 1}; } // a sum that wraps around
            else if (bad == 5) z.insert(z.begin() + r.below(uint32_t(z.size()) + 1), 0u);
            unzip(s, z);
        }
    }
    uint32_t big = 65537 + r.below(500);
    if (o.shard == 0) zip("zip", {aSerie(r, 1, big, 2, 1), aSerie(r, 1, big, 2, 0)});
    if (o.shard == 1) unzip(aSerie(r, 2, big, 2, 1), {1, 1});
    if (o.shard == 2) zip("zipVector", {aSerie(r, 2, 33000, 2, 1), aSerie(r, 1, 33000, 2, 0)});
    if (o.shard == 3) zip("zip", {aSerie(r, 3, 2, 2, 1), aSerie(r, int(big), 2, 2, 1), aSerie(r, 300, 2, 2, 1)}); // very wide items
    if (o.shard == 4) unzip(aSerie(r, int(big), 2, 2, 1), {300, 65000, big - 65300});
    if (o.shard == 5) { std::vector<Serie> many; for (int k = 0; k < 300; ++k) many.push_back(aSerie(r, 1 + k % 3, 3, 2, 1)); zip("zipVector", many); round("zipVector", many); }
    if (o.shard == 6) back("zipVector", aSerie(r, 600, 3, 2, 1), cuts(r, 600));
    if (o.shard == 7) round("zip", {aSerie(r, 200, 5, 2, 1), aSerie(r, 200, 5, 2, 1), aSerie(r, 1, 5, 2, 1)});
}
