// C26: everything that prints. What reached each stream is recorded with every call.
#include "common.h"
#include <fstream>
#include <iomanip>
#include <iostream>
#include <unistd.h>
#include <dataframe/functional/utils/print.h>
#include <dataframe/Dataframe.h>
#include <dataframe/types.h>
#include <dataframe/utils/utils.h>
#include <dataframe/view/Vector.h>
using namespace vf;
using df::Serie; using df::Series;

static J text(const std::string &s) {
    J j; j.t = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { j.t += '\\'; j.t += c; } else if (c == '\n') j.t += "\\n"; else if (c == '\t') j.t += "\\t"; else if (c == 27) j.t += '^'; else if ((unsigned char)c < 32 || (unsigned char)c > 126) j.t += "\\u00bf"; else j.t += c; }
    j.t += "\""; return j;
}
static J texts(const std::vector<std::string> &l) { std::vector<J> r; for (auto &s : l) r.push_back(text(s)); return list(r); }

// Values: quarters, or one of the specials (whose texts the specification knows).
static const std::vector<double> SPECIAL{-0.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e6, 1e-5, 0.1, 1e100, 123456.7, 1.0 / 3, -2.5e-7,
    std::numeric_limits<double>::max(), std::numeric_limits<double>::denorm_min(), 1234567, -99999.96, 2147483648.0};
static const int BASE = 100000000;
static double value(int q) { return q >= BASE ? SPECIAL[size_t(q - BASE)] : q / 4.0; }
static Array values(const std::vector<int> &q) { Array a; for (int x : q) a.push_back(value(x)); return a; }
static int aValue(Rng &r, bool plain) {
    int k = r.range(0, 9);
    if (k == 0 && !plain) return BASE + int(r.below(uint32_t(SPECIAL.size())));
    if (k < 3) return 4 * r.range(-999999, 999999);
    if (k < 7) return 4 * r.range(-12, 12);
    return r.range(-39999, 39999);
}
struct Made { int is; uint32_t n; uint dim; std::vector<int> q; Serie s() const { return is ? Serie(is, values(q), dim) : Serie(); } J j() const { return O()("is", is)("n", long(n))("dim", long(dim))("v", q).j(); } };
static Made make(Rng &r, int is, uint32_t n, bool plain) { Made m{is, n, is ? aDim(r) : 3u, {}}; for (uint32_t k = 0; k < n * uint32_t(is); ++k) m.q.push_back(aValue(r, plain)); return m; }
static Made aMade(Rng &r, bool plain, uint32_t cap) { if (r.chance(5)) return {0, 0, 3u, {}}; int is = anItemSize(r); return make(r, is, std::min<uint32_t>(aCount(r, cap), 900u / is), plain); }
static std::string aText(Rng &r) { static const std::string A = "abcXYZ019 \"\\[](),.\n\t:-_/%"; std::string s; for (int n = r.chance(15) ? 0 : r.range(1, 12); n > 0; --n) s += A[r.below(uint32_t(A.size()))]; return s; }

// ---- where text can go: two strings, a file, and the standard streams
static std::ostringstream S1, S2, ERR, LOG;
static int outFile = -1; static off_t outAt = 0;
static std::string reached() { // what has reached standard output since
    std::cout.flush(); fflush(stdout);
    off_t end = lseek(outFile, 0, SEEK_END); std::string t(size_t(end - outAt), 0);
    if (end > outAt && pread(outFile, t.data(), t.size(), outAt) < 0) t = "unreadable";
    outAt = end; return t;
}
static std::string take(std::ostringstream &s) { std::string t = s.str(); s.str(""); return t; }
static std::ostream &stream(int k) { return k == 0 ? S1 : k == 1 ? S2 : k == 2 ? (std::ostream &)std::cout : std::cerr; }
static J all() { return texts({take(S1), take(S2), reached(), take(ERR) + take(LOG)}); }
static void style(std::ostream &o, int fixed) { if (fixed) o << std::fixed << std::setprecision(2); else { o.unsetf(std::ios::floatfield); o.precision(6); } }

template <class X> void put(const char *kind, const J &what, const X &x, int to, int fixed) {
    std::ostream &o = stream(to); style(o, fixed); auto f = o.flags(); auto p = o.precision(); bool back = false;
    std::string res = attempt([&] { std::ostream &r = o << x; back = &r == &o; });
    bool kept = o.flags() == f && o.precision() == p && o.good(); o.clear(); style(o, 0);
    emit(O()("op", "put")("kind", kind)("what", what)("to", to + 1)("fixed", fixed)("back", back)("kept", kept)("res", res)("got", all()));
}
static void putArray(const std::vector<int> &q, int to, int fixed) { put("array", J(q), values(q), to, fixed); }
static void putStrings(const std::vector<std::string> &l, int to) { put("strings", texts(l), Strings(l.begin(), l.end()), to, 0); }
static void putSerie(const Made &m, int to, int fixed) { put("serie", m.j(), m.s(), to, fixed); }
static void putSeries(const std::vector<Made> &l, int to, int fixed) { std::vector<J> w; Series ss; for (auto &m : l) { w.push_back(m.j()); ss.push_back(m.s()); } put("series", list(w), ss, to, fixed); }
static void chain(const Made &a, const std::vector<int> &q, const std::vector<std::string> &l, int to) {
    std::ostream &o = stream(to); bool back = false; Serie s = a.s(); Array v = values(q);
    std::string res = attempt([&] { std::ostream &r = o << v << s << Strings(l.begin(), l.end()) << v; back = &r == &o; });
    emit(O()("op", "chain")("a", J(q))("s", a.j())("l", texts(l))("to", to + 1)("back", back)("res", res)("got", all()));
}
static void printed(const std::vector<Made> &l) {
    std::vector<Serie> s; std::vector<J> w; for (auto &m : l) { s.push_back(m.s()); w.push_back(m.j()); }
    using df::utils::print;
    std::string res = attempt([&] { switch (l.size()) { case 1: print(s[0]); break; case 2: print(s[0], s[1]); break; case 3: print(s[0], s[1], s[2]); break; case 4: print(s[0], s[1], s[2], s[3]); break; default: print(s[0], s[1], s[2], s[3], s[4]); } });
    emit(O()("op", "print")("what", list(w))("res", res)("got", all()));
}
static void vecText(const std::vector<int> &q) { std::string t; std::string res = attempt([&] { t = df::Vector(values(q)).toString(); }); emit(O()("op", "vtext")("what", q)("res", res)("text", text(t))("got", all())); }

static void arrayTold(const std::vector<int> &q) { std::string res = attempt([&] { df::print(values(q)); }); emit(O()("op", "aprint")("what", q)("res", res)("got", all())); }
static void dumped(const Made &m) { Serie s = m.s(); std::string res = attempt([&] { s.dump(); }); emit(O()("op", "dump")("what", m.j())("res", res)("got", all())); }
static void frameDumped(const std::vector<std::pair<std::string, Made>> &l) { // names in any order, and again
    df::Dataframe d; std::string res = attempt([&] { for (auto &p : l) d.set(p.first, p.second.s()); d.dump(); });
    std::map<std::string, Made> w; for (auto &p : l) w.insert_or_assign(p.first, p.second);
    std::vector<J> names, sh; for (auto &p : w) { names.push_back(text(p.first)); sh.push_back(p.second.j()); }
    emit(O()("op", "fdump")("names", list(names))("what", list(sh))("res", res)("got", all()));
}
static void told(const std::string &t, int how) { std::string res = attempt([&] { how == 0 ? df::info(t) : how == 1 ? df::warning(t) : df::error(t); }); emit(O()("op", "told")("how", how + 1)("text", text(t))("res", res)("got", all())); }
static void logged(const std::string &t, int n, const Made &m, int how) {
    Serie v = m.s();
    std::string res = attempt([&] { switch (how) { case 1: df::log(t); break; case 2: df::log(n, t); break; case 3: df::log(t, v, n); break; default: df::log(v, n, t, v); } });
    emit(O()("op", "log")("text", text(t))("n", n)("what", m.j())("how", how)("res", res)("got", all()));
}
static std::string aName(Rng &r) { std::string s; for (int n = r.range(1, 5); n > 0; --n) s += "abcXYZ019_ "[r.below(11)]; return s; }

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    out() = fdopen(dup(1), "w");
    FILE *tmp = tmpfile(); if (!tmp) return 3;
    outFile = fileno(tmp); fflush(stdout); dup2(outFile, 1);
    std::cerr.rdbuf(ERR.rdbuf()); std::clog.rdbuf(LOG.rdbuf());
    auto plainVals = [&](size_t n, bool plain) { std::vector<int> q(n); for (auto &x : q) x = aValue(r, plain); return q; };
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) for (auto &c : b) {
            const auto &op = c.op(); auto l = c.l(1);
            if (op == "array") putArray(l, c.i(2), c.i(3));
            else if (op == "serie") { Made m{l[0], uint32_t(l[1]), uint(l[2]), c.l(2)}; putSerie(m, c.i(3), 0); printed({m}); }
            else if (op == "dump") { Made m{l[0], uint32_t(l[1]), uint(l[2]), c.l(2)}; dumped(m); arrayTold(m.q); frameDumped({{"b", m}, {"a", m}, {c.i(3) ? "a" : "c", Made{1, 0, 2u, {}}}}); told("m", c.i(3) % 3); logged("m", c.i(3), m, c.i(3) + 1); }
            else { std::vector<Made> ms; for (int k : l) ms.push_back(k == 0 ? Made{0, 0, 3u, {}} : k == 1 ? Made{1, 0, 2u, {}} : k == 2 ? Made{1, 1, 3u, {6}} : k == 3 ? Made{2, 2, 2u, {4, -8, 1, 0}} : Made{3, 1, 3u, {4, 8, 12}}); putSeries(ms, c.i(2), 0); if (!ms.empty()) printed(ms); }
        }
        return 0;
    }
    for (int k = 0; k < 130 * o.scale; ++k) {
        int to = r.range(0, 3), fixed = r.chance(20); uint32_t cap = k % 50 == 7 ? 900 : 60;
        switch (r.range(0, 9)) {
        case 0: putArray(plainVals(aCount(r, cap), fixed), to, fixed); break;
        case 1: { std::vector<std::string> l; for (int n = int(aCount(r, 40)); n > 0; --n) l.push_back(aText(r)); putStrings(l, to); break; }
        case 2: case 3: putSerie(aMade(r, fixed, cap), to, fixed); break;
        case 4: { std::vector<Made> l; for (int n = r.range(0, 12); n > 0; --n) l.push_back(aMade(r, fixed, 12)); putSeries(l, to, fixed); break; }
        case 5: chain(aMade(r, false, 20), plainVals(aCount(r, 20), false), {aText(r), aText(r)}, to); break;
        case 6: if (r.chance(30)) vecText(plainVals(aCount(r, 20), true)); else printed({aMade(r, false, cap)}); break;
        case 8: if (r.chance(60)) dumped(aMade(r, false, cap)); else arrayTold(plainVals(aCount(r, cap), false)); break;
        case 9: if (r.chance(40)) { std::vector<std::pair<std::string, Made>> l; for (int n = r.range(0, 8); n > 0; --n) l.emplace_back(aName(r), aMade(r, true, 12)); frameDumped(l); } else if (r.chance(50)) told(aText(r), r.range(0, 2)); else logged(aText(r), r.range(-99999, 99999), aMade(r, false, 5), r.range(1, 4)); break;
        default: { std::vector<Made> l; for (int n = r.range(1, 5); n > 0; --n) l.push_back(aMade(r, false, 15)); printed(l); }
        }
    }
    // long ones
    if (o.shard == 0) putSerie(make(r, 3, uint32_t(r.range(4000, 8000)), false), 0, 0);
    if (o.shard == 1) putArray(plainVals(size_t(r.range(66000, 67000)), false), 1, 0);
    if (o.shard == 2) printed({make(r, 1, uint32_t(r.range(10000, 20000)), false), make(r, 2, uint32_t(r.range(4097, 6000)), false)});
    if (o.shard == 3) { std::vector<std::string> l; for (int n = 5000; n > 0; --n) l.push_back(aText(r)); putStrings(l, 0); std::vector<Made> ms; for (int n = 1100; n > 0; --n) ms.push_back(make(r, 1, 2, false)); putSeries(ms, 1, 0); }
    if (o.shard == 2) dumped(make(r, 2, uint32_t(r.range(4097, 5000)), false)); arrayTold(plainVals(size_t(r.range(257, 700)), false)); dumped(make(r, 1, uint32_t(r.range(257, 700)), false));
    printed({make(r, 1, uint32_t(r.range(500, 1300)), false)}); printed({make(r, 3, uint32_t(r.range(257, 400)), false), make(r, 1, 300, false)});
    putSerie(make(r, 2, uint32_t(r.range(260, 600)), false), r.range(0, 3), 0); putArray(plainVals(size_t(r.range(1000, 1500)), false), r.range(0, 3), 0);
}
