// C09: partition_n, concat, merge.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/merge.h>
using namespace vf;
using df::Serie; using df::Series;

static J encLL(const std::vector<Series> &l) { std::vector<J> x; for (auto &s : l) x.push_back(encAll(s)); return list(x); }

static void part(uint32_t n, const std::vector<Serie> &in) {
    std::vector<Series> out;
    std::string res = attempt([&] {
        if (in.size() == 1) out.push_back(df::utils::partition_n(n, in[0]));
        else if (in.size() == 2) out = df::utils::partition_n(n, in[0], in[1]);
        else out = df::utils::partition_n(n, in[0], in[1], in[2]);
    });
    emit(O()("op", "partition_n")("parts", n)("in", encAll(in))("res", res)("out", encLL(out)));
}
static void concat(const std::string &op, const Series &in) {
    Serie out;
    std::string res = attempt([&] {
        if (op == "concatVector" || in.empty()) out = df::utils::concat(in);
        else if (op == "make_concat") out = df::utils::make_concat(in[0])(in[1]);
        else if (in.size() == 1) out = df::utils::concat(in[0]);
        else if (in.size() == 2) out = df::utils::concat(in[0], in[1]);
        else if (in.size() == 3) out = df::utils::concat(in[0], in[1], in[2]);
        else out = df::utils::concat(in[0], in[1], in[2], in[3]);
    });
    emit(O()("op", "concat")("how", op)("in", encAll(in))("res", res)("out", encAll({out})));
}
static void merge(bool cat, int form, const Series &in) {
    Serie out;
    std::string res = attempt([&] {
        if (in.size() == 1) out = df::merge(cat, in[0]);
        else if (in.size() == 2) out = form == 0 ? df::merge(in[0], in[1], cat) : form == 1 && cat ? df::merge(in[0], in[1]) : df::merge(cat, in[0], in[1]);
        else if (in.size() == 3) out = df::merge(cat, in[0], in[1], in[2]);
        else if (in.size() == 4) out = df::merge(cat, in[0], in[1], in[2], in[3]);
        else out = df::merge(cat, in[0], in[1], in[2], in[3], in[4]);
    });
    emit(O()("op", cat ? "concat" : "interleave")("how", "merge")("in", encAll(in))("res", res)("out", encAll({out})));
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) for (auto &c : b) { // a = item sizes, b = counts, c = parts or form
            auto is = c.l(1), n = c.l(2);
            Series in;
            for (size_t k = 0; k < is.size(); ++k) in.push_back(aSerie(r, is[k], uint32_t(n[k]), 2 + is.size() % 2, r.chance(50) ? 2 : 1));
            if (c.op() == "partition_n") part(uint32_t(c.i(3)), in);
            else if (c.op() == "concat") concat(c.i(3) ? "concatVector" : "concat", in);
            else merge(c.i(3), r.range(0, 2), in);
        }
        return 0;
    }
    for (int k = 0; k < 230 * o.scale; ++k) {
        uint32_t cap = k % 40 == 7 ? 4200 : 300;
        int what = r.range(0, 9);
        if (what < 3) {
            Serie s = aSerie(r, cap); uint32_t n = s.count();
            uint32_t p = r.chance(10) ? 0 : r.chance(25) ? n : r.chance(20) ? n + 1 : r.chance(20) && n ? n - 1 : r.chance(15) ? n + uint32_t(r.range(2, 1000)) : r.chance(50) ? uint32_t(r.range(1, 16)) : r.below(n + 2) + 1;
            part(p, {s});
        } else if (what == 3) {
            int m = r.range(2, 3); uint32_t n = aCount(r, 200);
            std::vector<Serie> in;
            for (int j = 0; j < m; ++j) in.push_back(aSerie(r, anItemSize(r, n), n, aDim(r)));
            if (r.chance(20)) in[r.below(m)] = aSerie(r, anItemSize(r), r.chance(50) ? n + 1 : aCount(r, 50), aDim(r));
            part(r.chance(12) ? 0 : r.chance(20) ? n : r.chance(30) ? n + 1 + r.below(4) : uint32_t(r.range(1, 12)), in);
        } else {
            int m = what < 7 ? r.range(0, 4) : r.range(1, 5), is = anItemSize(r); uint dim = aDim(r);
            Series in;
            for (int j = 0; j < m; ++j) in.push_back(aSerie(r, is, aCount(r, cap), dim));
            if (m && r.chance(12)) { int j = r.below(m); in[j] = aSerie(r, r.chance(30) ? 0 : r.chance(50) ? is + 1 : anItemSize(r), aCount(r, 30), dim); }
            if (m && r.chance(10)) in[r.below(m)] = Serie(is, 0, dim);
            if (m > 1 && r.chance(8)) in[r.below(m)] = in[0];
            if (what < 7) concat(m == 2 && r.chance(25) ? "make_concat" : r.chance(50) ? "concat" : "concatVector", in);
            else merge(r.chance(35), r.range(0, 2), in);
        }
    }
    uint32_t big = 65537 + r.below(500);
    if (o.shard == 0) part(r.chance(50) ? 3 : 7, {aSerie(r, 1, big, 2, 1)});
    if (o.shard == 1) concat("concatVector", {aSerie(r, 1, big, 2, 1), aSerie(r, 1, 9, 2, 1)});
    if (o.shard == 2) merge(false, 0, {aSerie(r, 1, 40000, 2, 1), aSerie(r, 1, 30000, 2, 0)});
    if (o.shard == 3) part(r.chance(50) ? 1 : 70, {aSerie(r, 2, big, 2, 1), aSerie(r, 1, big, 3, 1)});
    if (o.shard == 4) concat("concat", {aSerie(r, 1, 7, 2, 1), aSerie(r, 1, big, 2, 1), aSerie(r, 1, 3, 2, 1)});
    if (o.shard == 5) merge(true, 1, {aSerie(r, 2, big, 2, 1), aSerie(r, 2, 3, 2, 0)});
    if (o.shard == 6) concat("concatVector", std::vector<Serie>(300, aSerie(r, 2, 2, 2, 1))); // many Series
    if (o.shard == 7) part(300, {aSerie(r, 1, 299 + r.below(600), 2, 1)}); // many parts
}
