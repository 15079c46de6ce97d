// C04, C05: histories of a Dataframe under an attribute Manager. Everything
// the Manager and each of its decomposers answer is recorded.
#include "common.h"
#include <dataframe/Dataframe.h>
#include <dataframe/attributes/Manager.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Valence.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
using namespace vf;
using df::Serie; using df::Dataframe; using df::Decomposer;

static const std::vector<std::string> STORE{"U", "Ux", "S", "S1", "T", "positions", "indices", "a", "x", "Uxx", "V0", "V", "", "long_name ", "U1", "Z9"};
static const std::vector<std::string> MADE{"normals", "area", "val", "U", "a", "x", "S1", "n", "Ux", "new"};

struct Dec { Decomposer *p; J j; };
static J strs(const std::vector<std::string> &l) { std::vector<J> r; for (auto &s : l) r.push_back(codes(s)); return list(r); }
static Dec make(Rng &r, int kind) {
    auto name = [&](const char *usual) { return r.chance(50) ? std::string(usual) : r.pick(MADE); };
    O o;
    switch (kind) {
    case 0: return {new df::Components(), O()("k", "comp").j()};
    case 1: {
        if (r.chance(50)) return {new df::Coordinates(), O()("k", "coord")("names", strs({"x", "y", "z"})).j()};
        std::vector<std::string> n; int k = r.range(1, 4);
        for (int i = 0; i < k; ++i) n.push_back(r.chance(50) ? std::string(1, char('x' + i)) : r.pick(std::vector<std::string>{"Px", "Py", "q", "Ux", "U0", "r" + std::to_string(i)}));
        std::vector<std::string> u; for (auto &x : n) if (std::find(u.begin(), u.end(), x) == u.end()) u.push_back(x);
        return {new df::Coordinates(u), O()("k", "coord")("names", strs(u)).j()};
    }
    case 2: return {new df::EigenValues(), O()("k", "eval").j()};
    case 3: return {new df::EigenVectors(), O()("k", "evec").j()};
    case 4: { auto n = name("normals"); return {new df::Normals(n), O()("k", "normals")("name", codes(n)).j()}; }
    case 5: { auto n = name("area"); return {new df::Area(n), O()("k", "area")("name", codes(n)).j()}; }
    case 6: { auto n = name("val"); return {new df::Valence(n), O()("k", "valence")("name", codes(n)).j()}; }
    default: {
        auto n = r.pick(MADE); auto src = r.pick(STORE); uint is = uint(r.pick(std::vector<int>{1, 1, 2, 3, 3, 6}));
        auto f = [src, is](const Dataframe &d) {
            const Serie &s = d[src];
            if (!s.isValid() || s.itemSize() != is) return Serie();
            Array a = s.asArray();
            for (uint32_t i = 0; i < s.count(); ++i) std::reverse(a.begin() + i * is, a.begin() + (i + 1) * is);
            return Serie(is, a, s.dimension());
        };
        J j = O()("k", "user")("is", int(is))("name", codes(n))("src", codes(src)).j();
        if (r.chance(50)) return {new df::UserDefinedDecomposer<std::function<Serie(const Dataframe &)>>(is, n, f), j};
        return {new df::UserDefinedDecomposer(is, n, [f](const Dataframe &d) { return f(d); }), j};
    }
    }
}

struct Session {
    Rng &r; Dataframe df; std::unique_ptr<df::Manager> m; std::vector<Dec> ds; uint32_t N; uint dim;
    Session(Rng &g, const std::vector<int> &kinds, uint d) : r(g), dim(d) {
        N = uint32_t(r.chance(10) ? r.range(30, 200) : r.range(3, 9));
        std::vector<Decomposer *> p; std::vector<J> j;
        for (int k : kinds) { ds.push_back(make(r, k)); p.push_back(ds.back().p); j.push_back(ds.back().j); }
        if (kinds.empty() && dim == 3 && r.chance(50)) m = std::make_unique<df::Manager>(df);
        else m = std::make_unique<df::Manager>(df, p, dim);
        emit(O()("op", "begin")("ds", list(j))("dim", int(dim)));
    }
    Serie shape(const std::string &name, int is, uint sd) {
        uint32_t n = name == "positions" ? N : name == "indices" ? uint32_t(r.range(1, int(2 * N))) : uint32_t(r.range(1, r.chance(5) ? 60 : 4));
        if (name == "indices") return Serie(is, intArray(r, size_t(is) * n, 0, int(N) - 1), sd);
        Array a = runs(r, intArray(r, size_t(is) * n, -30, 30), is);
        if (r.chance(20)) for (size_t i = 0; i < a.size(); ++i) a[i] = double(i % 5 == 0); // many equal
        return Serie(is, a, sd);
    }
    void shown(const char *op, const std::string &name) { emit(O()("op", op)("name", codes(name))("s", encIS(df.series().at(name)))); }
    void put(const std::string &name, int is, uint sd) {
        if (r.chance(70)) df.add(name, shape(name, is, sd)); else df.set(name, shape(name, is, sd));
        shown("put", name);
    }
    void write(const std::string &name) { // through a mutable lookup
        Serie &s = df[name];
        if (name != "indices" && s.count()) s.setScalar(r.below(uint32_t(s.size())), double(r.range(-30, 30)));
        shown("write", name);
    }
    void add(int kind) { Dec d = make(r, kind); ds.push_back(d); m->add(d.p); emit(O()("op", "addd")("d", d.j)("nb", int(m->nbDecomposers()))); }
    void clear() { m->clear(); ds.clear(); emit(O()("op", "cleard")("nb", int(m->nbDecomposers()))); }
    static J answer(const Serie &s) {
        Array q; bool pos = true; if (s.itemSize() == 1) for (double v : s.asArray()) { q.push_back(4 * v * v); pos = pos && v >= 0; }
        return O()("o", encS(s))("iv", encIS(s))("sq", O()("is", long(s.itemSize()))("n", long(s.count()))("dim", 3)("v", encIA(q, 1, 1e-9)).j())("pos", pos).j();
    }
    void names(uint32_t is, std::vector<std::string> ask) {
        auto l = m->names(is);
        for (auto &s : l) { if (known.size() > 200) known.clear(); known.emplace_back(is, s); }
        for (auto &s : l) if (r.chance(40)) ask.push_back(s);
        std::vector<J> a; std::vector<J> h;
        for (auto &s : ask) { a.push_back(codes(s)); h.push_back(J(m->contains(is, s))); }
        emit(O()("op", "names")("is", long(is))("list", strs(l))("asked", list(a))("has", list(h)));
    }
    void serie(uint32_t is, const std::string &name) {
        Serie s = m->serie(is, name);
        std::vector<J> own; for (auto &d : ds) own.push_back(answer(d.p->serie(df, is, name)));
        emit(O()("op", "serie")("is", long(is))("name", codes(name))("o", encS(s))("iv", encIS(s))("own", list(own)));
    }
    void eigen() {
        for (auto &x : df.series()) {
            const Serie &s = x.second;
            if (!((s.dimension() == 2 && s.itemSize() == 3) || (s.dimension() == 3 && s.itemSize() == 6))) continue;
            df::EigenValues ev; df::EigenVectors ec; std::vector<J> a, b;
            for (uint k = 1; k <= s.dimension(); ++k) { a.push_back(encIS(ev.serie(df, 1, x.first + std::to_string(k)), 1e-3, 1)); b.push_back(encIS(ec.serie(df, s.dimension(), x.first + std::to_string(k)), 1e-4, 1)); }
            emit(O()("op", "eigen")("name", codes(x.first))("vals", list(a))("vecs", list(b)));
        }
    }
    std::string someName() {
        int k = r.range(0, 9); std::string s;
        if (k < 4 && !df.series().empty()) { auto it = df.series().begin(); std::advance(it, r.below(uint32_t(df.series().size()))); s = it->first; }
        else s = r.chance(50) ? r.pick(STORE) : r.pick(MADE);
        static const std::vector<std::string> suf{"", "x", "y", "z", "xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz", "0", "1", "2", "3", "4", "10", "11", "w", "00", "X", " "};
        return s + r.pick(suf);
    }
    std::vector<std::pair<uint32_t, std::string>> known; // listed at some time
    // A Serie under a name that is the beginning of one derived from another Serie.
    void nest() {
        if (df.series().empty()) return;
        auto it = df.series().begin(); std::advance(it, r.below(uint32_t(df.series().size())));
        std::string n = it->first; const Serie &s = it->second; bool plane = s.dimension() == 2;
        if (n.size() > 3 || s.itemSize() < 2) return;
        bool matrix = plane ? s.itemSize() == 3 || s.itemSize() == 4 : s.itemSize() == 6 || s.itemSize() == 9;
        std::string c(1, s.itemSize() > 10 ? '1' : matrix || r.chance(50) ? r.pick(std::vector<char>{'x', 'y', 'z'}) : r.pick(std::vector<char>{'1', '0', 'x'}));
        put(n + c, r.chance(50) ? 1 : r.pick(std::vector<int>{2, 3, 4, 6, 9}), r.chance(50) ? 2 : 3);
        for (const char *x : {"x", "y", "z", "0", "1", "2", "3"}) if (r.chance(60)) { serie(1, n + c + x); if (r.chance(30)) serie(r.chance(50) ? 2 : 3, n + c + x); }
    }
    void query(bool all) {
        // names listed earlier, asked for without listing them again
        for (int i = 0; i < 3 && !known.empty(); ++i) { auto &k = r.pick(known); serie(k.first, k.second); }
        if (!all && r.chance(30)) return;
        static const std::vector<uint32_t> SZ{1, 1, 1, 2, 3, 3, 6, 4, 9, 5, 12};
        static const std::vector<uint32_t> EVERY{1, 2, 3, 4, 6, 9};
        std::vector<uint32_t> todo; if (all) todo = EVERY; else for (int i = 0; i < 3; ++i) todo.push_back(r.pick(SZ));
        for (uint32_t is : todo) {
            names(is, {someName(), someName()});
            auto l = m->names(is);
            if (all && l.size() <= 12) for (auto &s : l) serie(is, s);
            else for (int i = 0; i < 2 && !l.empty(); ++i) serie(is, r.pick(l));
            serie(is, someName());
        }
        // names next to the ones that exist
        for (auto &x : df.series()) {
            if (!r.chance(all ? 60 : 15)) continue;
            uint32_t is = r.chance(50) ? 1 : x.second.dimension();
            serie(is, x.first + std::to_string(r.chance(50) ? x.second.dimension() + 1 : uint(r.range(0, 12))));
        }
        if (r.chance(all ? 100 : 40)) eigen();
    }
};

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard + 4);
    if (!o.cmds.empty()) {
        static const std::vector<std::string> N{"U", "Ux", "S", "positions", "indices", "S1"};
        static const std::vector<int> IS{1, 2, 3, 4, 6, 9, 5};
        for (auto &b : script(o)) {
            Session s(r, {}, r.chance(40) ? 2 : 3);
            for (auto &c : b) {
                if (c.op() == "put") s.put(N[size_t(c.i(1))], IS[size_t(c.i(2))], uint(c.i(3)));
                else if (c.op() == "del") { s.df.del(N[size_t(c.i(1))]); emit(O()("op", "del")("name", codes(N[size_t(c.i(1))]))); }
                else if (c.op() == "dec") s.add(c.i(1));
                else s.clear();
            }
            s.query(true);
            if (r.chance(15)) s.nest();
        }
        return 0;
    }
    for (int k = 0; k < 26 * o.scale; ++k) {
        std::vector<int> kinds; int nk = r.range(0, 8);
        for (int i = 0; i < nk; ++i) kinds.push_back(r.range(0, 8));
        Session s(r, kinds, r.chance(50) ? 2 : 3);
        if (r.chance(70)) { s.put("positions", 3, 3); s.put("indices", 3, 3); }
        int n = r.range(3, 16);
        for (int i = 0; i < n; ++i) {
            int w = r.range(0, 99);
            if (w < 55) { std::string nm = r.pick(STORE); bool geo = nm == "positions" || nm == "indices"; s.put(nm, geo && r.chance(75) ? 3 : r.pick(std::vector<int>{1, 2, 3, 3, 4, 6, 6, 9, 5, 12}), r.chance(50) ? 2 : 3); }
            else if (w < 65) { std::string nm = r.pick(STORE); s.df.del(nm); emit(O()("op", "del")("name", codes(nm))); }
            else if (w < 67) { s.df.clear(); emit(O()("op", "wipe")); }
            else if (w < 78) s.add(r.range(0, 8));
            else if (w < 81) s.clear();
            else if (!s.df.series().empty()) { auto it = s.df.series().begin(); std::advance(it, r.below(uint32_t(s.df.series().size()))); s.write(it->first); }
            if (r.chance(10)) s.nest();
            s.query(false);
        }
    }
    // counts and numbers that a narrow counter or index would lose
    if (o.shard < 4) {
        Session s(r, o.shard == 2 ? std::vector<int>{0, 1} : o.shard == 3 ? std::vector<int>{7} : std::vector<int>{4, 5, 6}, 3);
        uint32_t big = 65540 + r.below(500);
        auto keep = [&](const std::string &n, const Serie &v) { s.df.set(n, v); s.shown("put", n); };
        auto ask = [&] { for (uint32_t is : {1u, 3u, 6u}) for (auto &nm : s.m->names(is)) s.serie(is, nm); };
        if (o.shard < 2) { // many nodes and few triangles, then the other way round
            s.N = o.shard == 0 ? big : 6;
            keep("positions", Serie(3, intArray(r, size_t(s.N) * 3, -30, 30), 3));
            Array t = intArray(r, (o.shard == 0 ? 5 : size_t(big)) * 3, 0, 5);
            if (o.shard == 0) for (auto &x : t) x = r.chance(50) ? s.N - 1 - x : r.chance(50) ? 65535 + (x - 3) : x;
            else for (auto &x : t) if (r.chance(98)) x = 2;
            keep("indices", Serie(3, t, 3));
        } else if (o.shard == 2) { keep("positions", Serie(3, intArray(r, size_t(big) * 3, -30, 30), 3)); keep("U", Serie(1, intArray(r, big, -30, 30), 2)); }
        else for (auto &n : STORE) keep(n, Serie(1, intArray(r, big / 16, -30, 30), 2));
        ask();
    }
    return 0;
}
