// C25: calls of random, in any order, repeated, from several threads and in other processes.
#include "common.h"
#include <thread>
#include <dataframe/functional/math/random.h>
using namespace vf;
using df::Serie;
struct Args { uint32_t n, is; double lo, hi; unsigned seed; bool dflt = false; };
static std::string text(double d) { char b[40]; snprintf(b, sizeof b, "%a", d); return b; }

// A value as its place in [lo, hi], in 2^52ths of it: p * 2^26 + q; p = -1 below, 2^26 + 1 above.
static void place(double v, double lo, double hi, int &p, int &q) {
    const long B = 1l << 26;
    q = 0;
    if (v != v) p = -2;
    else if (v < lo) p = -1;
    else if (v > hi) p = int(B + 1);
    else if (hi == lo) p = 0;
    else {
        long double t = ((long double)v - lo) / ((long double)hi - lo) * B;
        p = int(std::floor(t)); q = int(std::floor((t - p) * B));
    }
}
static std::string digest(const Array &a) {
    uint64_t h = 1469598103934665603ull;
    for (double d : a) { uint64_t b; std::memcpy(&b, &d, 8); for (int i = 0; i < 8; ++i) { h ^= (b >> (8 * i)) & 255; h *= 1099511628211ull; } }
    char t[32]; snprintf(t, sizeof t, "%016lx", (unsigned long)h); return t;
}
static O call(const Args &a) {
    Serie s; std::string res = attempt([&] { s = a.dflt ? df::math::random(a.n, a.is, 0, 1, a.seed) : df::math::random(a.n, a.is, a.lo, a.hi, a.seed); });
    std::vector<int> P, Q; Array v = s.asArray();
    for (double x : v) { int p, q; place(x, a.lo, a.hi, p, q); P.push_back(p); Q.push_back(q); }
    bool fine = a.hi - a.lo > std::ldexp(std::max(std::fabs(a.lo), std::fabs(a.hi)), -10) && a.hi - a.lo > 1e-290;
    return O()("op", "random")("n", long(a.n))("is", long(a.is))("lo", text(a.lo))("hi", text(a.hi))("seed", std::to_string(a.seed))("fine", fine)("res", res)
        ("s", O()("is", long(s.itemSize()))("n", long(s.count()))("dim", long(s.dimension()))("p", P)("q", Q).j())("id", digest(v));
}
static void fresh(uint32_t n, uint32_t is) { // the defaults: in [0, 1], another seed each time
    Serie s; std::string res = attempt([&] { s = df::math::random(n, is); });
    std::vector<int> P, Q; for (double x : s.asArray()) { int p, q; place(x, 0, 1, p, q); P.push_back(p); Q.push_back(q); }
    emit(O()("op", "fresh")("n", long(n))("is", long(is))("res", res)("s", O()("is", long(s.itemSize()))("n", long(s.count()))("dim", long(s.dimension()))("p", P)("q", Q).j())("id", digest(s.asArray())));
}
static std::string self;
static void elsewhere(const Args &a) { // in a process of its own
    char cmd[600]; snprintf(cmd, sizeof cmd, "'%s' --one %u,%u,%a,%a,%u", self.c_str(), a.n, a.is, a.lo, a.hi, a.seed);
    FILE *f = popen(cmd, "r"); if (!f) return;
    std::string t; int c; while ((c = fgetc(f)) != EOF) t += char(c);
    pclose(f);
    if (!t.empty()) { fwrite(t.data(), 1, t.size(), out()); fflush(out()); }
}
static void together(const std::vector<Args> &as) {
    std::vector<O> got(as.size()); std::vector<std::thread> th;
    for (size_t k = 0; k < as.size(); ++k) th.emplace_back([&, k] { got[k] = call(as[k]); });
    for (auto &t : th) t.join();
    for (auto &g : got) emit(g);
}

int main(int argc, char **argv) {
    if (argc == 3 && std::string(argv[1]) == "--one") {
        Args a{}; if (sscanf(argv[2], "%u,%u,%la,%la,%u", &a.n, &a.is, &a.lo, &a.hi, &a.seed) == 5) emit(call(a));
        return 0;
    }
    Opt o = parse(argc, argv);
    self = argv[0];
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        static const std::vector<Args> A{{3, 1, 0, 1, 7}, {3, 1, 0, 1, 8}, {3, 2, 0, 1, 7}, {6, 1, -5, 5, 7}, {0, 3, 0, 1, 7}, {2, 3, 2, 2, 1}};
        for (auto &b : script(o)) for (auto &c : b) {
            if (c.op() == "call") emit(call(A[size_t(c.i(1)) - 1]));
            else if (c.op() == "pair") together({A[size_t(c.i(1)) - 1], A[size_t(c.i(2)) - 1]});
            else fresh(uint32_t(c.i(1)), uint32_t(c.i(2)));
        }
        return 0;
    }
    auto seed = [&]() -> unsigned { static const std::vector<unsigned> S{0, 1, 2, 3, 42, 5489, 65535, 65536, 2147483647u, 2147483648u, 4294967295u}; return r.chance(40) ? r.pick(S) : unsigned(r.next()); };
    auto range = [&](Args &a) {
        static const std::vector<std::pair<double, double>> B{{0, 1}, {0, 1}, {-1, 1}, {0, 10}, {-5, -2}, {100, 100.5}, {0, 0}, {-3, -3}, {0, 1e300}, {-1e300, 1e300}, {-1e-300, 1e-300}, {-1e9, 1e9}, {1e6, 1e6 + 1}, {-1, 0}, {0.25, 0.75}, {1e15, 1e15 + 4}};
        auto b = r.pick(B); a.lo = b.first; a.hi = b.second;
        if (r.chance(25)) { a.lo = r.range(-1000, 1000) / 8.0; a.hi = a.lo + r.range(0, 4000) / 16.0; }
    };
    for (int h = 0; h < 5 * o.scale; ++h) {
        std::vector<Args> A;
        for (int k = 0; k < 6; ++k) {
            Args a{aCount(r, 200), uint32_t(anItemSize(r)), 0, 1, seed()}; range(a);
            a.dflt = a.lo == 0 && a.hi == 1;
            A.push_back(a);
            for (int t = r.range(0, 2); t > 0; --t) { Args b = a; b.dflt = false; b.seed = r.chance(30) ? a.seed + 1 : r.chance(75) ? a.seed ^ (1u << r.below(32)) : seed(); A.push_back(b); }
            if (r.chance(30)) { Args b = a; b.dflt = false; range(b); A.push_back(b); }
            if (r.chance(30)) { Args b = a; b.n = b.n ? b.n - 1 : 1; A.push_back(b); }
        }
        for (int s = 0; s < 40; ++s) {
            const Args &a = r.pick(A);
            if (r.chance(10)) together({a, r.pick(A), a, r.pick(A)});
            else if (r.chance(4)) fresh(aCount(r, 40), uint32_t(r.range(1, 4)));
            else if (r.chance(3)) elsewhere(a);
            else emit(call(a));
        }
    }
    for (int k = 0; k < 3 * o.scale; ++k) { // many values: they fill the range
        Args a{uint32_t(r.range(1000, 4200)), uint32_t(r.range(1, 4)), 0, 1, seed()}; do range(a); while (a.hi - a.lo < 0.1);
        emit(call(a)); if (k % 3 == 0) elsewhere(a);
    }
    { // and very many
        Args a{uint32_t(4097 + r.below(3000)), uint32_t(o.shard % 4 + 1), 0, 1, seed()}; do range(a); while (a.hi - a.lo < 0.1);
        emit(call(a)); if (o.shard == 2) { a.n = 65537 + r.below(500); a.is = 1; emit(call(a)); }
    }
    fresh(1500, 2);
}
