// C28: calls that overlap: made by a function given to another call, and at the
// same time in several threads, on the same constant arguments.
#include "gops.h"
#include <atomic>
#include <thread>

struct Case { int op; bool g; Args a; }; // one of the operations, and its arguments
static std::vector<OpDef> &ops() { static auto t = table(); return t; }
static std::vector<GOp> &gops() { static auto t = gtable(); return t; }
static std::vector<std::unique_ptr<Case>> cases;
static char kindOf(const Case &c) { return c.g ? gops()[size_t(c.op)].kind[0] : ops()[size_t(c.op)].kind[0]; }

// What happened, in order; encoded when all is over.
struct Ev { long seq; int t, call; bool end; std::string res; Out out; };
static std::atomic<long> clockNow{0};
static long tick() { return clockNow.fetch_add(1, std::memory_order_relaxed); }
static J ans(const std::string &op, int t, int call, const std::string &res, const Out &out) { return O()("op", op)("t", t)("call", call)("res", res)("out", encAll(out)).j(); }
static void say(const J &j) { std::string s = j.t + "\n"; fwrite(s.data(), 1, s.size(), out()); fflush(out()); }

static void perform(std::vector<Ev> &log, int t, int call, const std::function<void(size_t)> &inside) {
    const Case &c = *cases[size_t(call)];
    log.push_back({tick(), t, call, false, "", {}});
    Out got; Guard g; g.quiet = true; g.then = inside;
    std::string res = attempt([&] { got = c.g ? gops()[size_t(c.op)].f(c.a, g) : ops()[size_t(c.op)].f(c.a); });
    log.push_back({tick(), t, call, true, res, got});
}
static void flush(std::vector<Ev> &log) {
    std::sort(log.begin(), log.end(), [](const Ev &a, const Ev &b) { return a.seq < b.seq; });
    for (auto &e : log) say(e.end ? ans("end", e.t, e.call, e.res, e.out) : O()("op", "begin")("t", e.t)("call", e.call).j());
    log.clear();
}
static int aCase(Rng &r, bool g, int op, uint32_t n) {
    auto c = std::make_unique<Case>(); c->op = op; c->g = g;
    fill(r, kindOf(*c), n, aDim(r), c->a);
    cases.push_back(std::move(c));
    int k = int(cases.size()) - 1;
    std::vector<Ev> log; perform(log, 0, k, {});
    say(ans("alone", 0, k, log[1].res, log[1].out));
    say(O()("op", "args")("call", k)("args", enc(cases[size_t(k)]->a)).j());
    return k;
}
static void unchanged() { for (size_t k = 0; k < cases.size(); ++k) say(O()("op", "args")("call", long(k))("args", enc(cases[k]->a)).j()); }

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    // captured output, and what remembers between calls, belong to one call at a time
    static const std::set<std::string> alone{"print", "dump", "memoize"};
    std::vector<Ev> log;
    if (!o.cmds.empty()) { // trees of calls, as the depths of their nodes
        size_t base = size_t(o.shard) * 11;
        for (auto &b : script(o)) {
            int ks[3]; for (int j = 0; j < 3; ++j) ks[j] = aCase(r, true, int((base + size_t(j) * (1 + base % 7)) % gops().size()), 3);
            struct Node { int call; std::vector<size_t> kids; };
            std::vector<Node> t; std::vector<size_t> path;
            for (auto &c : b) { size_t d = size_t(c.i(1)); path.resize(d - 1); if (d > 1) t[path.back()].kids.push_back(t.size()); path.push_back(t.size()); t.push_back({ks[c.i(2) % 3], {}}); }
            std::function<void(size_t)> go = [&](size_t k) { perform(log, 0, t[k].call, [&, k](size_t n) { if (n <= t[k].kids.size()) go(t[k].kids[n - 1]); }); };
            go(0); flush(log);
            for (int k : ks) say(O()("op", "args")("call", k)("args", enc(cases[size_t(k)]->a)).j());
            ++base;
        }
        return 0;
    }
    bool tsan = false;
#if defined(__SANITIZE_THREAD__)
    tsan = true;
#endif
    // cases: every operation that is given functions, and some of the others
    std::vector<int> g, all, shared;
    for (size_t k = 0; k < gops().size(); ++k) if (o.mine(k) || r.chance(25) || tsan) g.push_back(aCase(r, true, int(k), uint32_t(r.range(2, 5))));
    for (size_t k = 0; k < ops().size(); ++k) if (o.mine(k) || r.chance(15) || tsan) all.push_back(aCase(r, false, int(k), uint32_t(r.range(1, 5))));
    if (g.empty()) g.push_back(aCase(r, true, 0, 3));
    int wide = aCase(r, true, int(r.below(uint32_t(gops().size()))), uint32_t(r.range(60, 300)));
    shared = g; shared.push_back(wide);
    for (int k : all) if (!alone.count(ops()[size_t(cases[size_t(k)]->op)].name)) shared.push_back(k);
    auto any = [&](int depth) { return depth < 3 && r.chance(65) ? r.pick(g) : r.chance(70) && !all.empty() ? r.pick(all) : r.pick(g); };
    if (!tsan) for (int k = 0; k < 60 * o.scale; ++k) { // nested
        std::function<void(int, int)> go = [&](int call, int depth) {
            int same = call, kids = 0;
            perform(log, 0, call, [&](size_t n) {
                if (depth >= 4 || kids >= 3 || !(n == 1 || r.chance(40))) return;
                ++kids; int was = r.chance(25) ? same : any(depth); go(was, depth + 1); });
        };
        go(k % 3 ? r.pick(g) : wide, 1); flush(log);
    }
    for (int rep = 0; rep < (tsan ? 6 : 4) * o.scale; ++rep) { // at the same time
        int n = r.range(2, 6); std::vector<std::vector<int>> todo(static_cast<size_t>(n)); std::vector<std::vector<Ev>> logs(static_cast<size_t>(n));
        int few = r.range(0, 2), one = r.pick(shared), two = r.pick(shared); // all the same, two of them, any
        for (auto &l : todo) for (int j = r.range(10, 30); j > 0; --j) l.push_back(few == 0 ? one : few == 1 ? (r.chance(50) ? one : two) : r.pick(shared));
        if (rep % 2 == 0) for (size_t i = 0; i < shared.size(); ++i) { for (auto &l : todo) l.insert(l.begin() + r.below(uint32_t(l.size() + 1)), shared[i]); } // each of them everywhere
        std::vector<int> inner; for (int j = 0; j < 8; ++j) inner.push_back(r.pick(shared));
        std::atomic<int> ready{0}; std::vector<std::thread> th;
        for (int t = 0; t < n; ++t) th.emplace_back([&, t] {
            ready.fetch_add(1); while (ready.load() < n) {}
            size_t x = 0;
            for (int call : todo[size_t(t)]) perform(logs[size_t(t)], t, call, [&](size_t k) { if (k == 2 && ++x % 5 == 0) perform(logs[size_t(t)], t, inner[x % inner.size()], {}); });
        });
        for (auto &t : th) t.join();
        for (auto &l : logs) for (auto &e : l) log.push_back(std::move(e));
        flush(log);
    }
    unchanged();
    for (size_t k = 0; k < cases.size(); ++k) { std::vector<Ev> l; perform(l, 0, int(k), {}); say(ans("alone", 0, int(k), l[1].res, l[1].out)); }
}
