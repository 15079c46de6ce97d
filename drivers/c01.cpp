// C01: histories of reads, writes and re-counts of one Serie at a time.
#include "common.h"
using namespace vf;
using df::Serie;

struct World {
    Rng &r; Serie s; int is = 0; uint dim = 3;
    explicit World(Rng &q) : r(q) {}
    int cap(uint32_t i) { return i > 1000000000u ? 1000000000 : int(i); }
    void made(const char *how, const Array &given, uint32_t n) {
        emit(O()("op", "new")("how", how)("is", is)("n", n)("dim", int(dim))("z", pool().posz + 1)("given", encA(given))
            ("after", encS(s))("size", long(s.size()))("valid", s.isValid())("len", s.asArray().size()));
    }
    void make(int itemSize, uint32_t n, uint d, int how, int style = -1) {
        is = itemSize; dim = d;
        Array a = anArray(r, size_t(is) * n, style);
        if (how == 0) { s = Serie(is, a, dim); made("values", a, n); }
        else if (how == 1) { s = Serie(is, n, dim); made("count", {}, n); }
        else if (how == 2) { dim = 3; s = Serie(is, a); made("values", a, n); }
        else if (how == 3) { dim = 3; s = Serie(is, n); made("count", {}, n); }
        else if (how == 4) { s = df::toSerie(uint32_t(is), a, dim); made("values", a, n); }
        else { // initializer lists
            auto p = [&](size_t k) { return k < a.size() ? a[k] : 0.0; };
            switch (a.size()) {
            case 1: s = Serie(is, {p(0)}, dim); break;
            case 2: s = Serie(is, {p(0), p(1)}, dim); break;
            case 3: s = Serie(is, {p(0), p(1), p(2)}, dim); break;
            case 4: s = Serie(is, {p(0), p(1), p(2), p(3)}, dim); break;
            case 6: s = Serie(is, {p(0), p(1), p(2), p(3), p(4), p(5)}, dim); break;
            case 12: s = Serie(is, {p(0), p(1), p(2), p(3), p(4), p(5), p(6), p(7), p(8), p(9), p(10), p(11)}, dim); break;
            default: s = Serie(is, a, dim);
            }
            made("values", a, n);
        }
    }
    void read(const std::string &how, uint32_t i) {
        const Serie &c = s; Array got;
        std::string res = attempt([&] {
            if (how == "value") got = c.value(i);
            else if (how == "getArray") got = c.get<Array>(i);
            else if (how == "get") got = c.get(i);
            else if (how == "getDouble") got = {c.get<double>(i)};
            else got = {c.scalar(i)};
        });
        emit(O()("op", "read")("how", how)("i", cap(i))("res", res)("got", encA(got)));
    }
    void write(const std::string &how, uint32_t i, const Array &v) {
        std::string res = attempt([&] {
            if (how == "setValue") s.setValue(i, v);
            else if (how == "setArray") s.set(i, v);
            else if (how == "setDouble") s.set(i, v[0]);
            else if (how == "setScalar") s.setScalar(i, v[0]);
            else { if (i < s.asArray().size()) s.asArray()[i] = v[0]; else throw std::invalid_argument(""); }
        });
        emit(O()("op", "write")("how", how)("i", cap(i))("v", encA(v))("res", res)("after", encS(s)));
    }
    void recount(uint32_t n) { s.reCount(n); emit(O()("op", "recount")("n", n)("z", pool().posz + 1)("after", encS(s))("size", long(s.size()))("len", s.asArray().size())); }
    uint32_t index(uint32_t n) {
        int k = r.range(0, 19);
        if (k == 0) return n; if (k == 1) return n + 1; if (k == 2) return n + r.below(200) + 2; if (k == 3) return 4294967295u;
        if (k == 4) return is > 0 ? uint32_t(4294967296ull / uint32_t(is) + 1) : 7; // wraps to a small offset
        if (k == 5) return 2147483648u + r.below(3);
        if (n == 0) return 0;
        return k < 9 ? 0 : k < 12 ? n - 1 : r.below(n);
    }
    void step() {
        static const std::vector<std::string> RI{"value", "getArray", "get"}, RS{"getDouble", "scalar"}, WI{"setValue", "setArray"}, WS{"setDouble", "setScalar", "raw"};
        uint32_t n = s.count();
        int k = r.range(0, 99);
        if (k < 25) read(r.pick(RI), index(n));
        else if (k < 45) read(r.pick(RS), index(uint32_t(s.asArray().size())));
        else if (k < 68) { int len = r.chance(85) ? is : r.chance(50) ? is + 1 : std::max(0, is - 1); write(r.pick(WI), index(n), anArray(r, size_t(len))); }
        else if (k < 90) write(r.pick(WS), index(uint32_t(s.asArray().size())), anArray(r, 1));
        else if (k < 96) recount(r.chance(30) ? n : aCount(r, n > 300 ? 300 : 60));
        else make(anItemSize(r), aCount(r, 60), aDim(r), r.range(0, 5));
    }
};

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    World w(r);
    if (!o.cmds.empty()) {
        for (auto &b : script(o)) for (auto &c : b) {
            if (c.op() == "new") w.make(c.i(1), uint32_t(c.i(2)), uint(2 + c.i(3) % 2), c.i(3));
            else if (c.op() == "recount") w.recount(uint32_t(c.i(1)));
            else if (c.op() == "readitem") w.read(c.i(2) == 0 ? "value" : "getArray", uint32_t(c.i(1)));
            else if (c.op() == "readscalar") w.read(c.i(2) == 0 ? "scalar" : "getDouble", uint32_t(c.i(1)));
            else if (c.op() == "writeitem") w.write(c.i(3) == 0 ? "setValue" : "setArray", uint32_t(c.i(1)), anArray(r, size_t(c.i(2))));
            else w.write(c.i(2) == 0 ? "setScalar" : "setDouble", uint32_t(c.i(1)), anArray(r, 1));
        }
        return 0;
    }
    for (int h = 0; h < 24 * o.scale; ++h) {
        bool big = h % 12 == 5;
        uint32_t n = aCount(r, big ? 4200 : 80);
        w.make(r.chance(4) ? 0 : anItemSize(r, n), n, aDim(r), r.range(0, 5));
        int steps = big ? 8 : 30;
        for (int k = 0; k < steps; ++k) w.step();
        // every item and every scalar once more, through every reading function
        if (w.s.asArray().size() < 60) {
            for (uint32_t i = 0; i <= w.s.count(); ++i) for (auto &m : {"value", "getArray", "get"}) w.read(m, i);
            for (uint32_t i = 0; i <= w.s.asArray().size(); ++i) for (auto &m : {"getDouble", "scalar"}) w.read(m, i);
        }
    }
    if (o.shard == 0) { // beyond 16-bit indices, items and scalars
        w.make(3, 65540, 3, 0, 1);
        for (uint32_t i : {0u, 1u, 21845u, 21846u, 32767u, 32768u, 65535u, 65536u, 65539u, 65540u}) { w.read("value", i); w.read("getArray", i); w.read("scalar", i * 3 + 2); }
        w.write("setValue", 65537, anArray(r, 3)); w.write("setScalar", 131077, anArray(r, 1));
        w.recount(65537);
        w.write("setArray", 65536, anArray(r, 3));
    }
}
