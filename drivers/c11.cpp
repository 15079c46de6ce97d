// C11: sorting. Comparators are known to the specification by name; the
// ranks used to encode values are ordered as the values are.
#include "common.h"
#include <dataframe/functional/macros.h>
#include <dataframe/functional/utils/sort.h>
using namespace vf;
using df::Serie;

// For each item of the result an item of the input it is, each used once.
static std::vector<int> origin(const Serie &s, const Serie &t) {
    std::vector<int> from; std::map<std::vector<int>, std::vector<int>> where;
    auto item = [](const Serie &x, uint32_t i) { std::vector<int> k; for (uint32_t j = 0; j < x.itemSize(); ++j) { size_t at = size_t(i) * x.itemSize() + j; k.push_back(at < x.asArray().size() ? pool().enc(x.asArray()[at]) : -1); } return k; };
    for (uint32_t i = s.count(); i-- > 0;) where[item(s, i)].push_back(int(i) + 1);
    for (uint32_t i = 0; i < t.count(); ++i) { auto &w = where[item(t, i)]; from.push_back(w.empty() ? 0 : w.back()); if (!w.empty()) w.pop_back(); }
    return from;
}
static void one(const std::string &cmp, const Serie &s, int c = 1) {
    Serie out;
    uint32_t k = uint32_t(c - 1);
    using A = const Array &;
    std::string res = attempt([&] {
        if (cmp == "default") out = df::utils::sort(s);
        else if (cmp == "less") out = df::utils::sort(s, std::less<>{});
        else if (cmp == "lex") out = df::utils::sort(s, [](A a, A b) { return a < b; });
        else if (cmp == "revlex") out = df::utils::sort(s, [](A a, A b) { return b < a; });
        else if (cmp == "asc") out = df::utils::sort(s, [k](A a, A b) { return a[k] < b[k]; });
        else if (cmp == "desc") out = df::utils::sort(s, [k](A a, A b) { return a[k] > b[k]; });
        else if (cmp == "sign") out = df::utils::sort(s, [k](A a, A b) { return (a[k] < 0) && !(b[k] < 0); });  // two classes
        else if (cmp == "greater") out = df::utils::sort(s, std::greater<>{});
        else out = df::utils::sort(s, [](A, A) { return false; }); // every item equivalent
    });
    emit(O()("op", "sort")("cmp", cmp)("c", c)("z", std::vector<int>{pool().negz + 1, pool().posz + 1})("in", encS(s))("res", res)("from", origin(s, out))("out", encS(out)));
}
static Array values(Rng &r, size_t n, int style) {
    Array a(n);
    auto &p = pool();
    for (size_t i = 0; i < n; ++i) {
        size_t m = p.v.size() - 1;
        a[i] = style == 0 ? p.v[r.below(uint32_t(m))] : style == 1 ? p.v[p.negz - 2 + r.below(5)] : style == 2 ? p.v[i % m] : style == 3 ? p.v[m - 1 - i % m]
             : style == 4 ? p.v[700] : style == 5 ? p.v[(i * 7919) % m] : p.v[700 + r.below(2)];
    }
    return a;
}
int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    static const std::vector<std::string> CMP{"default", "less", "lex", "revlex", "asc", "desc", "sign", "none", "greater"};
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) for (auto &c : b) { // a = values, b = item size, c = component
            auto v = c.l(1); Array a; for (int x : v) a.push_back(pool().v[pool().negz - 1 + x]);
            int is = c.i(2);
            if (is == 1 && (c.op() == "less" || c.op() == "greater")) { one(c.op() == "less" ? "less" : "revlex", Serie(1, a, 2)); continue; }
            one(c.op(), Serie(is, a, 2), c.i(3));
        }
        return 0;
    }
    for (int k = 0; k < 200 * o.scale; ++k) {
        uint32_t n = aCount(r, k % 40 == 7 ? 4200 : 260); int is = anItemSize(r, n);
        Serie s(is, values(r, size_t(is) * n, r.range(0, 6)), aDim(r));
        std::string cmp = r.pick(CMP);
        if (is == 1 && cmp == "greater") cmp = "revlex";
        one(r.chance(30) ? "default" : cmp, s, r.range(1, is));
    }
    if (o.shard < 4) { // more items than 16 bits count
        int is = o.shard < 2 ? 1 : 2; uint32_t n = 65537 + r.below(500);
        Serie s(is, values(r, size_t(is) * n, 0), aDim(r));
        one(o.shard == 0 ? "default" : o.shard == 1 ? "desc" : r.pick(CMP) == "greater" ? "lex" : "default", s, 1);
    }
}
