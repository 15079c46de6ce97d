// C03: histories of Dataframes. After every operation the whole contents of
// both frames are recorded.
#include "common.h"
#include <dataframe/Dataframe.h>
#include <dataframe/utils/nameOfSerie.h>
using namespace vf;
using df::Serie; using df::Dataframe;

struct World {
    Rng &r; Dataframe f[2]; std::vector<std::string> names;
    explicit World(Rng &q) : r(q) {}
    static J contents(const Dataframe &d) {
        std::vector<J> l; for (auto &[n, s] : d.series()) l.push_back(O()("name", n)("s", encS(s)).j());
        return list(l);
    }
    O ev(const std::string &op, int k) { O o; o("op", op)("f", k + 1)("z", pool().posz + 1); return o; }
    void done(O o) { emit(o("all", list({contents(f[0]), contents(f[1])}))); }
    void reset(uint32_t c0, uint32_t c1) { f[0] = Dataframe(c0); f[1] = c1 ? Dataframe(c1) : Dataframe(); done(ev("begin", 0)("c", std::vector<int>{int(c0), int(c1)})); }
    void add(int k, const std::string &n, const Serie &s, bool set) { if (set) f[k].set(n, s); else f[k].add(n, s); done(ev("add", k)("name", n)("s", encS(s))); }
    void create(int k, const std::string &n, int is, uint32_t c) { if (c) f[k].create(n, uint32_t(is), c); else f[k].create(n, uint32_t(is)); done(ev("create", k)("name", n)("is", is)("c", int(c))); }
    void del(int k, const std::string &n) { f[k].del(n); done(ev("del", k)("name", n)); }
    void clear(int k) { f[k].clear(); done(ev("clear", k)); }
    void count(int k, uint32_t c) { f[k].setCount(c); done(ev("setCount", k)("c", int(c))); }
    void copy(int k) { f[1 - k] = f[k]; done(ev("copy", k)); }
    void assign(int k, const std::string &n, const Serie &s, bool get) { if (get) f[k].get(n) = s; else f[k][n] = s; done(ev("assign", k)("name", n)("s", encS(s))); }
    // a Serie held here stored again, under its own name or another, here or in the other frame
    void move(int k, const std::string &n, int from, const std::string &src, int how) {
        const Dataframe &c = f[from];
        auto it = c.series().find(src);
        if (it == c.series().end()) return;
        const Serie &s = how % 2 ? f[from][src] : it->second;
        J was = encS(s);
        if (how < 2) f[k].add(n, s); else if (how < 4) f[k].set(n, s); else if (how < 6) f[k].get(n) = s; else f[k][n] = s;
        done(ev(how < 4 ? "add" : "assign", k)("name", n)("s", was));
    }
    // the same but for one thing
    void twin(int k, const std::string &n, int what) {
        const Dataframe &c = f[k];
        auto it = c.series().find(n);
        if (it == c.series().end() || !it->second.isValid()) return;
        Serie s = it->second; Array a = s.asArray(); uint32_t is = s.itemSize();
        if (what == 0) s = Serie(int(is), a, s.dimension() == 2 ? 3 : 2);
        else if (what == 1) s = Serie(int(a.size()), a, s.dimension());
        else if (what == 2 && !a.empty()) { a.back() = pool().any(r); s = Serie(int(is), a, s.dimension()); }
        else if (what == 3) s = Serie(1, a, s.dimension());
        else { a.resize(a.size() + is, 1.0); s = Serie(int(is), a, s.dimension()); }
        if (r.chance(60)) add(k, n, s, r.chance(50)); else assign(k, n, s, r.chance(50));
    }
    void lookup(int k, const std::string &n, int how) {
        const Dataframe &c = f[k];
        Serie got = how == 0 ? c.get(n) : how == 1 ? c[n] : how == 2 ? f[k].get(n) : f[k][n];
        bool valid = got.isValid();
        done(ev(how < 2 ? "look" : "reach", k)("name", n)("got", encS(got))("valid", valid));
    }
    void contains(int k, const std::string &n) { bool b = f[k].contains(n); done(ev("contains", k)("name", n)("got", b)); }
    void identity(int k, const std::string &n) { // the very object, an equal copy, the namesake in the other frame
        const Dataframe &c = f[k], &d = f[1 - k];
        auto it = c.series().find(n); auto jt = d.series().find(n);
        if (it == c.series().end()) { contains(k, n); return; }
        Serie copy = it->second;
        bool same = c.contains(it->second), eq = c.contains(copy), other = jt != d.series().end() && c.contains(jt->second);
        done(ev("identity", k)("name", n)("same", same)("equal", eq)("other", other)("called", df::nameOfSerie(c, it->second))("copied", df::nameOfSerie(c, copy)));
    }
    Serie some(uint32_t cap) { return r.chance(4) ? Serie() : aSerie(r, anItemSize(r), aCount(r, cap), aDim(r)); }
    void step(uint32_t cap) {
        int k = r.chance(75) ? 0 : 1, w = r.range(0, 99);
        std::string n = r.pick(names);
        if (w < 22) add(k, n, some(cap), r.chance(40));
        else if (w < 27) create(k, n, r.range(1, 4), r.chance(50) ? 0 : aCount(r, cap));
        else if (w < 37) del(k, n);
        else if (w < 39) clear(k);
        else if (w < 48) count(k, r.chance(15) ? 0 : r.chance(30) && !f[k].series().empty() ? f[k].series().begin()->second.count() : aCount(r, cap));
        else if (w < 51) copy(k);
        else if (w < 58) assign(k, n, some(cap), r.chance(50));
        else if (w < 64) move(k, n, r.chance(75) ? k : 1 - k, r.chance(40) ? n : r.pick(names), r.range(0, 7));
        else if (w < 68) twin(k, n, r.range(0, 4));
        else if (w < 82) lookup(k, n, r.range(0, r.chance(70) ? 1 : 3));
        else if (w < 90) contains(k, n);
        else identity(k, n);
    }
};
int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    World w(r);
    w.names = {"", "a", "aa", "ab", "b", "A", "a ", "xx"};
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) {
            w.reset(uint32_t(b.empty() ? 0 : b[0].i(4)), 0);
            for (auto &c : b) {
                int k = 0; std::string n = w.names[c.i(1)]; int x = c.i(2);
                if (c.op() == "add") w.add(k, n, aSerie(r, x + 1, uint32_t(c.i(3)), 2 + x % 2), x);
                else if (c.op() == "create") w.create(k, n, x + 1, uint32_t(c.i(3))); else if (c.op() == "del") w.del(k, n);
                else if (c.op() == "clear") w.clear(k); else if (c.op() == "setCount") w.count(k, uint32_t(c.i(3)));
                else if (c.op() == "assign") w.assign(k, n, aSerie(r, x + 1, uint32_t(c.i(3)), 2), x); else if (c.op() == "look") w.lookup(k, n, x);
                else if (c.op() == "reach") w.lookup(k, n, 2 + x); else if (c.op() == "contains") w.contains(k, n); else if (c.op() == "move") w.move(k, n, k, w.names[c.i(3)], x); else if (c.op() == "twin") w.twin(k, n, x); else w.identity(k, n);
            }
        }
        return 0;
    }
    for (int h = 0; h < 26 * o.scale; ++h) {
        w.names = {"", "a", "aa", "ab", "b", "A", "a ", "positions", "indices", "B", "a1", "a10", "a2", "zz"};
        int keep = r.range(2, 9);
        while (int(w.names.size()) > keep) w.names.erase(w.names.begin() + r.below(uint32_t(w.names.size())));
        if (h % 6 == 2) for (int k = 0; k < 40; ++k) w.names.push_back("n" + std::to_string(k)); // many names
        w.reset(r.chance(60) ? 0 : aCount(r, 9), r.chance(60) ? 0 : aCount(r, 9));
        uint32_t cap = h % 8 == 5 ? 200 : 5;
        for (int k = 0; k < (cap == 200 ? 20 : h % 6 == 2 ? 90 : 45); ++k) w.step(cap);
    }
}
