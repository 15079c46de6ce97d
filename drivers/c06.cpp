// C06: selecting from one Serie. The predicate is a table of answers; every
// call made to it is recorded.
#include "common.h"
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/macros.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/partition.h>
using namespace vf;
using df::Serie;

struct Log { std::vector<int> i; std::string v; size_t n = 0;
    void add(const Array &a, uint32_t k) { i.push_back(int(k)); if (n++) v += ","; v += encA(a).t; }
    J vals() const { J j; j.t = "[" + v + "]"; return j; } };

static const std::vector<std::string> OPS{"filter", "mfilter", "make_filter", "cut", "make_cut", "findAll", "makeFindAll",
    "reject", "make_reject", "partition", "find", "makeFind"};

template <class P> static void go(const std::string &op, P pred, const Serie &s, std::vector<Serie> &out, J &found) {
    if (op == "filter") out.push_back(df::filter(pred, s));
    else if (op == "mfilter") out.push_back(s.filter(pred));
    else if (op == "make_filter") out.push_back(df::make_filter(pred)(s));
    else if (op == "cut") out.push_back(df::utils::cut(pred, s));
    else if (op == "make_cut") out.push_back(df::utils::make_cut(pred)(s));
    else if (op == "findAll") out.push_back(df::findAll(pred, s));
    else if (op == "makeFindAll") out.push_back(df::makeFindAll(pred)(s));
    else if (op == "reject") out.push_back(df::utils::reject(pred, s));
    else if (op == "make_reject") out.push_back(df::utils::make_reject(pred)(s));
    else if (op == "partition") { auto [a, b] = df::utils::partition(pred, s); out.push_back(a); out.push_back(b); }
    else {
        auto f = op == "find" ? df::find(pred, s) : df::makeFind(pred)(s);
        O o; o("found", bool(f))("flag", f.found)("index", long(f.index));
        if constexpr (std::is_same_v<std::decay_t<decltype(f.value)>, double>) o("value", encA(Array{f.value}));
        else o("value", encA(f.value));
        found = o.j();
    }
}

static void one(const std::string &op, bool scalar, const Serie &s, const std::vector<int> &ans) {
    Log log; std::vector<Serie> out; J found;
    auto answer = [&](uint32_t i) { return i < ans.size() ? ans[i] == 1 : false; };
    std::string res = attempt([&] {
        if (scalar) go(op, [&](double v, uint32_t i) -> bool { log.add(Array{v}, i); return answer(i); }, s, out, found);
        else go(op, [&](const Array &v, uint32_t i) -> bool { log.add(v, i); return answer(i); }, s, out, found);
    });
    O o; o("op", op)("kind", scalar ? "s" : "a")("in", encS(s))("ans", ans)("ci", log.i)("cv", log.vals())("res", res)("out", encAll(out));
    if (found.t != "null") o("find", found);
    emit(o);
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) { // behaviours of the specification: shape, answers and operation
        for (auto &b : script(o)) for (auto &c : b) {
            auto a = c.l(1);
            int is = c.i(2);
            one(c.op(), is == 1 && c.i(3), Serie(is, anArray(r, a.size() * is, r.chance(50) ? 2 : 0), c.i(4)), a);
        }
        return 0;
    }
    for (int k = 0; k < 220 * o.scale; ++k) {
        Serie s = aSerie(r, k % 40 == 7 ? 5000 : 700);
        auto a = answers(r, s.count());
        const std::string &op = r.pick(OPS);
        bool find = op == "find" || op == "makeFind", part = op == "partition";
        bool scalar = s.itemSize() == 1 && !r.chance(20);
        if ((find || part) && r.chance(15)) scalar = !scalar; // rejected
        if (!find && !part && s.itemSize() != 1) scalar = false;
        one(op, scalar, s, a);
    }
    if (o.cmds.empty()) for (size_t k = o.shard; k < OPS.size(); k += o.shards) { // far beyond any 16-bit index
        Serie s = aSerie(r, 1, 65537 + r.below(20), aDim(r), 1);
        bool find = OPS[k] == "find" || OPS[k] == "makeFind";
        std::vector<int> a(s.count(), 0);
        for (uint32_t i = 0; i < s.count(); ++i) a[i] = find ? i + 1 == s.count() : i > 65500 || i % 2000 == 0;
        if (OPS[k] == "reject" || OPS[k] == "make_reject") for (auto &x : a) x = !x;
        one(OPS[k], true, s, a);
        if (!find && OPS[k] != "partition") one(OPS[k], false, s, a);
    }
}
