// C07: selecting from several Series with one predicate.
#include "common.h"
#include <dataframe/functional/filter.h>
#include <dataframe/functional/macros.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/utils.h>
using namespace vf;
using df::Serie;

struct Log { std::vector<int> i; std::string v; size_t n = 0;
    template <class... A> void add(int k, const A &...a) {
        i.push_back(k); if (n++) v += ",";
        v += list(std::vector<J>{encA(a)...}).t; }
    J vals() const { J j; j.t = "[" + v + "]"; return j; } };

static const std::vector<std::string> OPS{"filter", "reject", "make_reject", "make_filter", "filterAll", "rejectAll", "make_filterAll", "make_rejectAll"};

template <class... S> static void run(const std::string &op, const std::vector<int> &ans, const S &...s) {
    Log log; std::vector<Serie> out; int next = 0;
    auto answer = [&](uint32_t i) { return i < ans.size() ? ans[i] == 1 : false; };
    auto take = [&](auto &&t) { std::apply([&](auto &...x) { (out.push_back(x), ...); }, t); };
    std::string res = attempt([&] {
        auto body = [&](int i, const auto &...v) -> bool { log.add(i, v...); return answer(uint32_t(i)); };
        if constexpr (sizeof...(s) == 2) {
            auto p = [&](const Array &a, const Array &b, uint32_t i) -> bool { return body(int(i), a, b); };
            auto q = [&](const Array &a, const Array &b) -> bool { return body(next++, a, b); };
            if (op == "filter") take(df::filter(p, s...)); else if (op == "reject") take(df::utils::reject(p, s...));
            else if (op == "make_reject") take(df::utils::make_reject(p)(s...));
            else if (op == "make_filter") take(df::make_filter(p)(s...));
            else out = op == "filterAll" ? df::filterAll(q, s...) : op == "rejectAll" ? df::utils::rejectAll(q, s...) : op == "make_filterAll" ? df::make_filterAll(q)(s...) : df::utils::make_rejectAll(q)(s...);
        } else if constexpr (sizeof...(s) == 3) {
            auto p = [&](const Array &a, const Array &b, const Array &c, uint32_t i) -> bool { return body(int(i), a, b, c); };
            auto q = [&](const Array &a, const Array &b, const Array &c) -> bool { return body(next++, a, b, c); };
            if (op == "filter") take(df::filter(p, s...)); else if (op == "reject") take(df::utils::reject(p, s...));
            else if (op == "make_reject") take(df::utils::make_reject(p)(s...));
            else if (op == "make_filter") take(df::make_filter(p)(s...));
            else out = op == "filterAll" ? df::filterAll(q, s...) : op == "rejectAll" ? df::utils::rejectAll(q, s...) : op == "make_filterAll" ? df::make_filterAll(q)(s...) : df::utils::make_rejectAll(q)(s...);
        } else {
            auto p = [&](const Array &a, const Array &b, const Array &c, const Array &d, uint32_t i) -> bool { return body(int(i), a, b, c, d); };
            auto q = [&](const Array &a, const Array &b, const Array &c, const Array &d) -> bool { return body(next++, a, b, c, d); };
            if (op == "filter") take(df::filter(p, s...)); else if (op == "reject") take(df::utils::reject(p, s...));
            else if (op == "make_reject") take(df::utils::make_reject(p)(s...));
            else if (op == "make_filter") take(df::make_filter(p)(s...));
            else out = op == "filterAll" ? df::filterAll(q, s...) : op == "rejectAll" ? df::utils::rejectAll(q, s...) : op == "make_filterAll" ? df::make_filterAll(q)(s...) : df::utils::make_rejectAll(q)(s...);
        }
    });
    emit(O()("op", op)("in", encAll({s...}))("ans", ans)("ci", log.i)("cv", log.vals())("res", res)("out", encAll(out)));
}
static void one(const std::string &op, const std::vector<Serie> &in, const std::vector<int> &ans) {
    if (in.size() == 2) run(op, ans, in[0], in[1]);
    else if (in.size() == 3) run(op, ans, in[0], in[1], in[2]);
    else run(op, ans, in[0], in[1], in[2], in[3]);
}

// The counts of several Series, and whether they are the same.
static void counted(const std::vector<Serie> &in) {
    std::vector<int> c; auto put = [&](const auto &l) { for (size_t x : l) c.push_back(int(x)); };
    auto all = [&](auto f) { switch (in.size()) { case 1: put(f(in[0])); break; case 2: put(f(in[0], in[1])); break; case 3: put(f(in[0], in[1], in[2])); break; default: put(f(in[0], in[1], in[2], in[3])); } };
    auto say = [&](const char *op, const std::string &res) { emit(O()("op", op)("in", encAll(in))("res", res)("counts", c)); c.clear(); };
    say("count", attempt([&] { all([](auto &...s) { return df::utils::count(s...); }); }));
    say("countAndCheck", attempt([&] { all([](auto &...s) { return df::utils::countAndCheck(s...); }); }));
    say("count", attempt([&] { put(df::utils::getCount(in)); }));
    say("countAndCheck", attempt([&] { put(df::utils::countAndCheck(in)); }));
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) for (auto &c : b) {
            auto a = c.l(1); auto is = c.l(2), n = c.l(3);
            std::vector<Serie> in;
            for (size_t k = 0; k < is.size(); ++k) in.push_back(aSerie(r, is[k], uint32_t(n[k]), 2 + k % 2, r.chance(50) ? 2 : 0));
            one(c.op(), in, a);
            if (c.op() == "filter") counted(in);
        }
        return 0;
    }
    for (int k = 0; k < 160 * o.scale; ++k) {
        int m = r.range(2, 4);
        uint32_t n = aCount(r, k % 40 == 7 ? 4200 : 400);
        std::vector<Serie> in;
        for (int j = 0; j < m; ++j) in.push_back(aSerie(r, anItemSize(r, n), n, aDim(r)));
        if (r.chance(10)) in[r.below(m)] = in[0];
        if (r.chance(14)) { // a mismatch at any place, by one or by anything
            int j = r.below(m);
            uint32_t n2 = r.chance(50) ? n + 1 : r.chance(50) && n > 0 ? n - 1 : r.chance(50) ? 0 : aCount(r, 100);
            in[j] = aSerie(r, anItemSize(r), n2, aDim(r));
        }
        one(r.pick(OPS), in, answers(r, n));
        if (n < 40 && r.chance(25)) counted(in);
    }
    for (size_t k = o.shard; k < OPS.size(); k += o.shards) { uint32_t n = 65537 + r.below(500); one(OPS[k], {aSerie(r, 1, n, 3, 1), aSerie(r, 1, n, 2, 0)}, answers(r, n)); }
}
