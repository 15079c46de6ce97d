// Shared by all drivers: seeded generation, value encoding, JSON trace output.
// A driver runs real library calls and writes one JSON object per line; it
// judges nothing: the TLA+ trace specifications in /verif/spec do.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <dataframe/Serie.h>

namespace vf {

// ---------------------------------------------------------------- random
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint32_t below(uint32_t n) { return n == 0 ? 0 : uint32_t(next() % n); }
    int range(int a, int b) { return int(a + long(next() % uint64_t(long(b) - a + 1))); }
    bool chance(int percent) { return int(below(100)) < percent; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(uint32_t(v.size()))]; }
};

struct Opt {
    uint64_t seed = 1;
    int shard = 0, shards = 1;
    int scale = 1;          // 1 quick, more for thorough
    std::string cmds;       // spec-generated command file, if any
    bool mine(uint64_t k) const { return int(k % uint64_t(shards)) == shard; }
};
inline Opt parse(int argc, char **argv) {
    Opt o;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") o.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (a == "--shard") o.shard = atoi(v.c_str());
        else if (a == "--shards") o.shards = atoi(v.c_str());
        else if (a == "--scale") o.scale = atoi(v.c_str());
        else if (a == "--cmds") o.cmds = v;
    }
    return o;
}

// Counts around the sizes where block, cache or index tricks tend to change.
inline uint32_t aCount(Rng &r, uint32_t cap = 5000) {
    static const std::vector<uint32_t> edge{15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129,
        255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097};
    uint32_t n;
    int k = r.range(0, 99);
    if (k < 8) n = 0;
    else if (k < 18) n = 1;
    else if (k < 60) n = uint32_t(r.range(2, 9));
    else if (k < 85) n = uint32_t(r.range(10, 40));
    else n = r.pick(edge);
    if (n > cap) n = cap == 0 ? 0 : r.below(cap) + 1;
    return n;
}
inline int anItemSize(Rng &r) {
    static const std::vector<int> w{1, 1, 1, 1, 2, 2, 3, 3, 3, 4, 5, 6, 6, 7, 8, 9, 9, 10, 12, 16};
    return r.pick(w);
}
// ... and now and then an item wider than a byte counts, when there are few of them.
inline int anItemSize(Rng &r, uint32_t n) {
    static const std::vector<int> wide{33, 64, 65, 127, 128, 255, 256, 257, 260, 300, 512, 513};
    return n <= 12 && r.chance(4) ? r.pick(wide) : anItemSize(r);
}
inline uint aDim(Rng &r) { return r.chance(40) ? 2 : 3; }

// ---------------------------------------------------------------- output
inline FILE *&out() { static FILE *f = stdout; return f; }
inline long &emitted() { static long n = 0; return n; }

struct J { // JSON value as text
    std::string t;
    J() : t("null") {}
    J(const char *s) { str(s); }
    J(const std::string &s) { str(s); }
    J(bool b) : t(b ? "true" : "false") {}
    J(int v) : t(std::to_string(v)) {}
    J(long v) : t(std::to_string(v)) {}
    J(uint32_t v) : t(std::to_string(v)) {}
    J(size_t v) : t(std::to_string(v)) {}
    template <class T> J(const std::vector<T> &v) {
        t = "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) t += ","; t += J(T(v[i])).t; }
        t += "]";
    }
    void str(const std::string &s) {
        t = "\"";
        for (char c : s) { if (c == '"' || c == '\\') { t += '\\'; t += c; } else if ((unsigned char)c < 32) { t += ' '; } else t += c; }
        t += "\"";
    }
};
struct O { // JSON object
    std::string t = "{";
    O &operator()(const char *k, const J &v) { if (t.size() > 1) t += ","; t += "\""; t += k; t += "\":"; t += v.t; return *this; }
    J j() const { J r; r.t = t + "}"; return r; }
};
inline void emit(const O &o) {
    std::string s = o.j().t + "\n";
    fwrite(s.data(), 1, s.size(), out());
    fflush(out());
    ++emitted();
}

// ---------------------------------------------------------------- values
// Opaque values: a fixed, ordered pool of doubles. A value of the pool is its
// rank; anything else a call produces is a number of its own above the pool.
struct Pool {
    std::vector<double> v;
    std::unordered_map<uint64_t, int> id;
    mutable std::unordered_map<uint64_t, int> foreign;
    int nan, negz, posz;
    static uint64_t bits(double d) { if (d != d) d = std::numeric_limits<double>::quiet_NaN(); uint64_t b; std::memcpy(&b, &d, 8); return b & ~(d != d ? (1ull << 63) : 0ull); }
    Pool() {
        const double inf = std::numeric_limits<double>::infinity(), mx = std::numeric_limits<double>::max(), mn = std::numeric_limits<double>::min(), de = std::numeric_limits<double>::denorm_min();
        std::vector<double> p{-inf, -mx, -1e300, -1e100, -4294967296.0, -2147483649.0, -2147483648.0, -1e9, 1e9, 2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 9007199254740993.0, 1e100, 1e300, mx, inf,
            -mn, -de, de, mn, -1e-300, 1e-300, -1e-10, 1e-10, -0.5, 0.5, -0.1, 0.1, 1.0 / 3, -1.0 / 3, 0.9999999999999999, 1.0000000000000002, 9.99e-11, -9.99e-11};
        for (int i = -600; i <= 600; ++i) if (i) p.push_back(i + (i % 3 == 0 ? 0.25 : i % 3 == 1 ? 0.0 : 0.1));
        std::sort(p.begin(), p.end());
        p.erase(std::unique(p.begin(), p.end()), p.end());
        for (double d : p) { // -0 then +0 sit between the negative and the positive values
            if (d > 0 && (v.empty() || v.back() < 0)) { negz = int(v.size()); v.push_back(-0.0); posz = int(v.size()); v.push_back(0.0); }
            v.push_back(d);
        }
        nan = int(v.size());
        v.push_back(std::numeric_limits<double>::quiet_NaN());
        for (size_t i = 0; i < v.size(); ++i) id[bits(v[i])] = int(i) + 1;
    }
    int enc(double d) const {
        auto b = bits(d);
        auto it = id.find(b);
        if (it != id.end()) return it->second;
        auto f = foreign.emplace(b, 1000000 + int(foreign.size()));
        return f.first->second;
    }
    double any(Rng &r) const {
        int k = r.range(0, 99);
        if (k < 4) return v[nan];
        if (k < 7) return 0.0;
        if (k < 10) return -0.0;
        return v[r.below(uint32_t(v.size() - 1))];
    }
    double comparable(Rng &r) const { double d; do d = v[r.below(uint32_t(v.size() - 1))]; while (false); return d; }
};
inline const Pool &pool() { static Pool p; return p; }

inline J encA(const Array &a) {
    J j; j.t = "[";
    for (size_t i = 0; i < a.size(); ++i) { if (i) j.t += ","; j.t += std::to_string(pool().enc(a[i])); }
    j.t += "]";
    return j;
}
inline J encS(const df::Serie &s) {
    return O()("is", long(s.itemSize()))("n", long(s.count()))("dim", long(s.dimension()))("v", encA(s.asArray())).j();
}
inline J encAll(const std::vector<df::Serie> &l) {
    J j; j.t = "[";
    for (size_t i = 0; i < l.size(); ++i) { if (i) j.t += ","; j.t += encS(l[i]).t; }
    j.t += "]";
    return j;
}
inline J list(const std::vector<J> &l) {
    J j; j.t = "[";
    for (size_t i = 0; i < l.size(); ++i) { if (i) j.t += ","; j.t += l[i].t; }
    j.t += "]";
    return j;
}
inline J ints(const std::vector<int> &l) { return J(l); }
// Texts as character codes, so that the specification can order them.
inline J codes(const std::string &s) {
    std::vector<int> c; for (unsigned char x : s) c.push_back(x);
    return J(c);
}

// The same few values over and over, up to a place from which some differ.
template <class F> Array repeats(Rng &r, size_t n, F &&value) {
    Array a(n), base(r.pick(std::vector<size_t>{1, 1, 2, 3, 4, 6, 9}));
    for (auto &x : base) x = value();
    if (r.chance(40)) std::fill(base.begin(), base.end(), base[0]);
    size_t from = n == 0 ? 0 : r.chance(40) ? n - 1 : r.chance(50) ? n - std::min<size_t>(n, base.size()) : r.below(uint32_t(n));
    int often = r.chance(50) ? 100 : 20;
    for (size_t i = 0; i < n; ++i) a[i] = i >= from && r.chance(often) ? value() : base[i % base.size()];
    return a;
}
inline Array anArray(Rng &r, size_t n, int style = -1) {
    Array a(n);
    if (style < 0) style = r.range(0, 4);
    if (style == 4) return repeats(r, n, [&] { return pool().v[r.below(uint32_t(pool().v.size() - 1))]; });
    for (size_t i = 0; i < n; ++i) {
        if (style == 0) a[i] = pool().any(r);                                 // anything
        else if (style == 1) a[i] = pool().v[(i * 7 + 3) % (pool().v.size() - 1)]; // mostly distinct
        else if (style == 2) a[i] = pool().v[700 + r.below(4)];                // many duplicates
        else a[i] = pool().v[r.below(uint32_t(pool().v.size() - 1))];
    }
    return a;
}
// Now and then, whole items come again: runs of one item, or one that fills most of the place.
inline Array runs(Rng &r, Array a, int is) {
    size_t n = is > 0 ? a.size() / size_t(is) : 0;
    if (n < 2 || !r.chance(14)) return a;
    auto same = [&](size_t to, size_t from) { std::copy_n(a.begin() + long(from * is), is, a.begin() + long(to * is)); };
    int style = r.range(0, 2);
    size_t upto = r.chance(50) ? n - 1 : 1 + r.below(uint32_t(n - 1));
    for (size_t i = 1; i < n; ++i) {
        if (style == 0 && i < upto) same(i, 0);                  // the first, until the last or so
        else if (style == 1 && i >= n - upto) same(i, n - upto - (n > upto ? 1 : 0)); // one until the end
        else if (style == 2 && r.chance(80)) same(i, i - 1);     // in runs
    }
    return a;
}
inline df::Serie aSerie(Rng &r, int is, uint32_t n, uint dim, int style = -1) {
    return df::Serie(is, runs(r, anArray(r, size_t(is) * n, style), is), dim);
}
inline df::Serie aSerie(Rng &r, uint32_t cap = 5000) { uint32_t n = aCount(r, cap); return aSerie(r, anItemSize(r, n), n, aDim(r)); }

// Exact values: integers times a power of two. 2000000001 stands for a result
// that is not (within rounding) such an integer.
constexpr int NOTINT = 2000000001;
inline int encI(double d, double unit = 1, double tol = 0) {
    double q = d / unit;
    if (!(std::fabs(q) < 2e9)) return NOTINT;
    double r = std::nearbyint(q);
    if (std::fabs(q - r) <= tol * std::max(1.0, std::fabs(r))) return int(r);
    return NOTINT;
}
inline J encIA(const Array &a, double unit = 1, double tol = 0) {
    J j; j.t = "[";
    for (size_t i = 0; i < a.size(); ++i) { if (i) j.t += ","; j.t += std::to_string(encI(a[i], unit, tol)); }
    j.t += "]";
    return j;
}
inline J encIS(const df::Serie &s, double unit = 1, double tol = 0) {
    return O()("is", long(s.itemSize()))("n", long(s.count()))("dim", long(s.dimension()))("v", encIA(s.asArray(), unit, tol)).j();
}
inline Array intArray(Rng &r, size_t n, int lo, int hi, double unit = 1) {
    int style = r.range(0, 11);
    if (style <= 1) return repeats(r, n, [&] { return r.range(lo, hi) * unit; });
    Array a(n);
    for (auto &x : a) x = r.range(lo, hi) * unit;
    if (style == 2) std::sort(a.begin(), a.end());
    else if (style == 3) std::sort(a.begin(), a.end(), std::greater<double>());
    return a;
}
inline double pow2(int e) { return std::ldexp(1.0, e); }

// ---------------------------------------------------------------- scripts
// Behaviours generated from the specification: one 'begin' per behaviour,
// then one operation per line. Each shard takes its own behaviours.
struct Cmd {
    std::vector<std::string> a;
    const std::string &op() const { return a[0]; }
    int i(size_t k) const { return k < a.size() ? atoi(a[k].c_str()) : 0; }
    std::vector<int> l(size_t k) const {
        std::vector<int> r;
        if (k >= a.size() || a[k] == "-") return r;
        std::stringstream ss(a[k]);
        std::string t;
        while (std::getline(ss, t, ',')) r.push_back(atoi(t.c_str()));
        return r;
    }
};
inline std::vector<std::vector<Cmd>> script(const Opt &o) {
    std::vector<std::vector<Cmd>> r;
    FILE *f = fopen(o.cmds.c_str(), "r");
    if (!f) return r;
    std::string line;
    long k = -1;
    int c;
    while ((c = fgetc(f)) != EOF || !line.empty()) {
        if (c != '\n' && c != EOF) { line += char(c); continue; }
        if (line == "begin") { if (o.mine(uint64_t(++k))) r.push_back({}); }
        else if (o.mine(uint64_t(k))) {
            Cmd m; std::stringstream ss(line); std::string t;
            while (ss >> t) m.a.push_back(t);
            if (!m.a.empty()) r.back().push_back(m);
        }
        line.clear();
        if (c == EOF) break;
    }
    fclose(f);
    return r;
}
// One answer per item, of every shape that matters to an index loop.
inline std::vector<int> answers(Rng &r, uint32_t n) {
    std::vector<int> a(n, 0);
    int style = r.range(0, 8);
    for (uint32_t i = 0; i < n; ++i)
        a[i] = style == 0 ? 0 : style == 1 ? 1 : style == 2 ? i == 0 : style == 3 ? i + 1 == n : style == 4 ? i % 2 == 0
             : style == 5 ? i != 0 : style == 6 ? i + 1 != n : style == 7 ? r.chance(10) : r.chance(50);
    return a;
}
// Every answer, for small n.
inline std::vector<int> answersOf(uint32_t mask, uint32_t n) {
    std::vector<int> a(n);
    for (uint32_t i = 0; i < n; ++i) a[i] = (mask >> i) & 1;
    return a;
}

// ---------------------------------------------------------------- outcomes
// How a call ended: "ok", or the kind of exception.
template <class F> std::string attempt(F &&f) {
    try { f(); return "ok"; }
    catch (const std::invalid_argument &) { return "inv"; }
    catch (const std::runtime_error &) { return "rt"; }
    catch (const std::exception &) { return "ex"; }
    catch (...) { return "unk"; }
}

} // namespace vf
