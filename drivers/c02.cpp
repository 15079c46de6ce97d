// C02: histories over several Series and a Dataframe; after every operation
// all of them are recorded, so anything seen through the wrong one shows up.
#include "common.h"
#include <dataframe/Dataframe.h>
#include <dataframe/functional/filter.h>
using namespace vf;
using df::Serie;

constexpr int K = 3;
struct World {
    Rng &r; std::unique_ptr<Serie> s[K]; df::Dataframe f;
    explicit World(Rng &q) : r(q) { for (auto &x : s) x = std::make_unique<Serie>(); }
    const std::string names[2] = {"a", "b"};
    void note(const std::string &op, int d, int q, J v = J(0), int i = 0) {
        std::vector<J> all; for (auto &x : s) all.push_back(encS(*x));
        std::vector<J> fr; for (auto &nm : names) fr.push_back(encS(static_cast<const df::Dataframe &>(f).get(nm)));
        emit(O()("op", op)("d", d + 1)("q", q + 1)("i", i)("v", v)("z", pool().posz + 1)("all", list(all))("fr", list(fr)));
    }
    void reset() { for (auto &x : s) x = std::make_unique<Serie>(); f.clear(); note("begin", 0, 0); }
    static Serie pass(Serie x) { if (x.asArray().size()) x.asArray()[0] = 123.25; return x; }
    void fresh(int d, int is, uint32_t n, uint dim) { *s[d] = aSerie(r, is, n, dim); note("new", d, d, encS(*s[d])); }
    // as another one, but for one thing: the dimension, the item size, one value, nothing, the count
    void twin(int d, int q, int how) {
        const Serie &x = *s[q]; Array a = x.asArray(); int is = int(x.itemSize()); uint dim = x.dimension(); uint32_t n = x.count();
        if (is == 0) { fresh(d, 0, n, dim == 2 ? 3 : 2); return; }
        if (how == 0) dim = dim == 2 ? 3 : 2;
        else if (how == 1) { int z = int(a.size()); std::vector<int> l; for (int k = 1; k <= z && k < 40; ++k) if (z % k == 0 && k != is) l.push_back(k); if (!l.empty()) is = r.pick(l); else if (z == 0) ++is; }
        else if (how == 2 && !a.empty()) a[r.below(uint32_t(a.size()))] = pool().any(r);
        else if (how == 4) { if (r.chance(50) && !a.empty()) a.resize(a.size() - size_t(is)); else a.insert(a.end(), size_t(is), 0.5); }
        *s[d] = Serie(is, a, dim); note("new", d, d, encS(*s[d]));
    }
    void copy(int how, int d, int q) {
        if (how == 4 && s[q]->itemSize() == 0) how = 0; // an array says nothing about the count then
        if (how == 0) *s[d] = *s[q];                                      // assignment, also to itself
        else if (how == 1) { s[d] = std::make_unique<Serie>(Serie(*s[q])); }
        else if (how == 2) *s[d] = s[q]->clone();
        else if (how == 3) { s[d].reset(new Serie(*s[q])); if (d == q) {} }
        else if (how == 4) *s[d] = df::toSerie(s[q]->itemSize(), s[q]->asArray(), s[q]->dimension());
        else if (how == 5) { std::vector<Serie> v; for (int k = 0; k < 5; ++k) v.push_back(*s[q]); for (int k = 0; k < 4; ++k) if (v[k].asArray().size()) v[k].asArray().back() = -7.5; v[1].reCount(2); *s[d] = v[4]; }
        else if (how == 6) { Serie t = *s[q]; Serie u; u = t; t.reCount(3); if (u.asArray().size()) u = u.clone(); *s[d] = u; }
        else if (how == 7) { Serie t = *s[q]; pass(t); *s[d] = t; }
        else { auto g = [t = *s[q]] { return t; }; *s[d] = g(); }
        note("copy", d, q);
    }
    void write(int d, uint32_t i, int how) {
        Serie &x = *s[d];
        if (x.itemSize() == 0 || x.count() == 0) { note("nop", d, d); return; }
        i %= x.count();
        if (how == 0) { Array v = anArray(r, x.itemSize()); x.setValue(i, v); note("item", d, d, encA(v), int(i)); }
        else { uint32_t k = i * x.itemSize() + r.below(x.itemSize()); double v = pool().any(r);
            if (how == 1) x.setScalar(k, v); else if (how == 2) x.asArray()[k] = v; else x.set(k, v);
            note("scalar", d, d, J(pool().enc(v)), int(k)); }
    }
    void recount(int d, uint32_t n) { s[d]->reCount(n); note("recount", d, d, J(0), int(n)); }
    void kill(int d) { s[d].reset(); s[d] = std::make_unique<Serie>(); note("kill", d, d); }
    void store(int nm, int q, bool set) { if (set) f.set(names[nm], *s[q]); else f.add(names[nm], *s[q]); note("store", nm, q); }
    void fetch(int d, int nm, int how) { // only names that are there
        if (!f.contains(names[nm])) { note("nop", d, d); return; }
        if (how == 0) *s[d] = f[names[nm]]; else if (how == 1) *s[d] = static_cast<const df::Dataframe &>(f).get(names[nm]);
        else if (how == 2) { df::Dataframe g = f; g.get(names[nm]).reCount(1); *s[d] = f.get(names[nm]); }
        else s[d] = std::make_unique<Serie>(f.series().at(names[nm]));
        note("fetch", d, nm);
    }
    void through(int nm, uint32_t i) { // write through the frame
        if (!f.contains(names[nm])) { note("nop", 0, 0); return; }
        Serie &x = f[names[nm]];
        if (x.asArray().empty()) { note("nop", 0, 0); return; }
        uint32_t k = i % uint32_t(x.asArray().size()); double v = pool().any(r);
        x.setScalar(k, v); note("framescalar", nm, nm, J(pool().enc(v)), int(k));
    }
    void drop(int nm) { f.del(names[nm]); note("drop", nm, nm); }
    void step(uint32_t cap) {
        int d = r.below(K), q = r.below(K), k = r.range(0, 99);
        if (k < 8) twin(d, q, r.range(0, 4));
        else if (k < 16) { uint32_t n = aCount(r, cap); fresh(d, r.chance(6) ? 0 : anItemSize(r, n), n, aDim(r)); }
        else if (k < 46) copy(r.range(0, 8), d, q);
        else if (k < 64) write(d, r.below(1000), r.range(0, 3));
        else if (k < 70) recount(d, r.chance(40) ? s[d]->count() : aCount(r, cap));
        else if (k < 74) kill(d);
        else if (k < 84) store(r.below(2), q, r.chance(50));
        else if (k < 93) fetch(d, r.below(2), r.range(0, 3));
        else if (k < 97) through(r.below(2), r.below(1000));
        else drop(r.below(2));
    }
};
int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    World w(r);
    if (!o.cmds.empty()) {
        size_t start = 0;
        for (auto &b : script(o)) {
            w.reset();
            switch (start++ % 6) { // the two differ in everything, or in one thing
            case 0: w.fresh(0, 2, 2, 2); w.fresh(1, 1, 3, 3); break;
            case 1: w.fresh(0, 2, 2, 2); w.fresh(1, 2, 2, 3); break;
            case 2: w.fresh(0, 2, 2, 3); w.fresh(1, 1, 4, 3); break;
            case 3: w.fresh(0, 2, 2, 3); w.fresh(1, 2, 1, 3); break;
            case 4: w.fresh(0, 1, 2, 3); w.fresh(1, 2, 0, 3); break;
            default: w.fresh(0, 2, 2, 3); w.twin(1, 0, start % 5); }
            for (auto &c : b) {
                int d = c.i(1), q = c.i(2), h = c.i(3);
                if (c.op() == "copy") w.copy(h, d, q); else if (c.op() == "write") w.write(d, uint32_t(q), h);
                else if (c.op() == "recount") w.recount(d, uint32_t(q)); else if (c.op() == "kill") w.kill(d);
                else if (c.op() == "store") w.store(d, q, h); else if (c.op() == "fetch") w.fetch(d, q, h);
                else if (c.op() == "through") w.through(d, uint32_t(q)); else w.drop(d);
            }
        }
        return 0;
    }
    for (int h = 0; h < 14 * o.scale; ++h) {
        w.reset();
        uint32_t cap = h % 7 == 3 ? 600 : h % 7 == 5 ? 70 : 7;
        for (int k = 0; k < (cap == 600 ? 14 : 60); ++k) w.step(cap);
    }
    if (o.shard == 0) { w.reset(); w.fresh(0, 2, 40000, 2); w.copy(0, 1, 0); w.write(1, 39999, 1); w.copy(2, 2, 1); }
}
