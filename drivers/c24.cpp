// C24: histories of operations on Vectors and Matrices of integers; after every
// command all of them are recorded.
#include "common.h"
#include <optional>
#include <dataframe/view/Matrix.h>
using namespace vf;
using df::Matrix; using df::Vector;
using Ints = std::vector<int>;

static std::vector<Vector> V;
static std::vector<std::optional<Matrix>> M;
static Ints side;
// The integers of a history are multiples of a power of two, of one for Vectors and of one for Matrices.
static double U = 1, W = 1;
static Array arr(const Ints &x, double u) { Array a(x.begin(), x.end()); for (auto &y : a) y *= u; return a; }
static Array varr(const Ints &x) { return arr(x, U); }
static Array marr_(const Ints &x) { return arr(x, W); }
static J vecs() { std::vector<J> r; for (auto &v : V) r.push_back(encIA(v.array(), U)); return list(r); }
static Array entries(const Matrix &m, int s) { Array a; for (int i = 0; i < s; ++i) for (int j = 0; j < s; ++j) a.push_back(m.at(uint(i), uint(j))); return a; }
static J mats() { std::vector<J> r; for (size_t k = 0; k < M.size(); ++k) r.push_back(O()("m", side[k])("v", encIA(entries(*M[k], side[k]), W)).j()); return list(r); }
static double big(const Array &a) { double m = 0; for (double x : a) m = std::max(m, std::fabs(x)); return m; }
static double bigM(size_t k) { return big(entries(*M[k], side[k])) / W; }
static double bigV(size_t k) { return big(V[k].array()) / U; }
static void unscale(Matrix &m, int s, double u) { if (u != 1) { Array e = entries(m, s); for (auto &x : e) x /= u; m = Matrix(e, uint(s)); } }
static void unscale(Vector &v, double u) { if (u != 1) { Array e = v.array(); for (auto &x : e) x /= u; v = Vector(e); } }


static void done(O o, const std::string &res) { emit(o("res", res)("V", vecs())("M", mats())); }
static Ints some(Rng &r, size_t n, int mag = 9) { Ints v(n); for (auto &x : v) x = r.range(-mag, mag); return v; }

static void vec(Rng &r, size_t a, Ints x) {
    std::string res = attempt([&] {
        if (r.chance(50)) V[a] = Vector(varr(x));
        else { Array t = varr(x); V[a] = Vector(t); for (auto &y : t) y = 999; } // its own values
    });
    done(O()("op", "vec")("a", a + 1)("x", x), res);
}
// k: 1 packed, 0 full
static void mat(Rng &r, size_t a, Ints x, int m, int k) {
    std::string res = attempt([&] {
        int how = r.range(0, 2);
        if (how == 0) { auto t = std::make_unique<Array>(marr_(x)); if (k == 1) M[a] = df::symSquaredMatrix(*t); else if (r.chance(50)) M[a] = df::squaredMatrix(*t); else M[a] = Matrix(*t, uint(m)); for (auto &y : *t) y = 777; }
        else if (how == 1) { if (k == 1) M[a].emplace(df::symSquaredMatrix(marr_(x))); else M[a].emplace(marr_(x), uint(m)); }
        else { if (k == 1) M[a] = df::symSquaredMatrix(marr_(x)); else M[a] = df::squaredMatrix(marr_(x)); }
    });
    side[a] = m;
    std::vector<Array> churn; for (int j = 0; j < 6; ++j) churn.push_back(Array(x.size(), -555)); // reuses freed storage
    done(O()("op", "mat")("a", a + 1)("k", k)("x", x), res);
}
static Ints symmetric(Rng &r, int m) { Ints x(size_t(m) * m); for (int i = 0; i < m; ++i) for (int j = i; j < m; ++j) x[i * m + j] = x[j * m + i] = r.range(-9, 9); return x; }
static void makeMat(Rng &r, size_t a, int m, int k) {
    Ints x = k == 1 ? some(r, size_t(m) * (m + 1) / 2) : r.chance(35) ? symmetric(r, m) : some(r, size_t(m) * m);
    if (k == 0 && m > 1 && r.chance(15)) { x = symmetric(r, m); x[r.chance(50) ? size_t(m) * (m - 1) : size_t(m) * m - 2] += 1; } // nearly symmetric
    mat(r, a, x, m, k);
}
static void inPlace(const std::string &op, size_t a, size_t b, int k) {
    bool self = false;
    std::string res = attempt([&] {
        Vector *r;
        if (op == "add") r = &V[a].add(V[b]);
        else if (op == "sub") r = &V[a].sub(V[b]);
        else if (op == "mul") { r = &V[a].mult(V[b]); unscale(V[a], U); }
        else r = &V[a].add(V[b]).mult(double(k)).sub(V[b]);
        self = r == &V[a];
    });
    done(O()("op", op)("a", a + 1)("b", b + 1)("k", k)("self", self), res);
}
static void scale(size_t a, int k) { done(O()("op", "scale")("a", a + 1)("k", k), attempt([&] { V[a].mult(double(k)); })); }
static void copy(size_t a, size_t b, bool make) { done(O()("op", "copy")("a", a + 1)("b", b + 1), attempt([&] { if (make) { Vector c(V[b]); V[a] = c; } else V[a] = V[b]; })); }
static void mcopy(size_t a, size_t b, bool make) { std::string res = attempt([&] { if (make) { Matrix c(*M[b]); M[a].emplace(c); } else M[a] = M[b]; }); side[a] = side[b]; done(O()("op", "mcopy")("a", a + 1)("b", b + 1), res); }
static void tr(size_t a, size_t b) { std::string res = attempt([&] { M[a] = M[b]->transpose(); }); side[a] = side[b]; done(O()("op", "tr")("a", a + 1)("b", b + 1), res); }
static void mm(size_t a, size_t b, size_t c) { std::string res = attempt([&] { M[a] = M[b]->multMat(*M[c]); }); if (res == "ok") { side[a] = side[b]; unscale(*M[a], side[a], W); } done(O()("op", "mm")("a", a + 1)("b", b + 1)("c", c + 1), res); }
static void mv(size_t a, size_t b, size_t c) { done(O()("op", "mv")("a", a + 1)("b", b + 1)("c", c + 1), attempt([&] { V[a] = M[b]->multVec(V[c]); unscale(V[a], W); })); }
static void marr(size_t a, size_t b) { done(O()("op", "marr")("a", a + 1)("b", b + 1), attempt([&] { V[a] = M[b]->array(); unscale(V[a], W / U); })); }
static void dot(size_t a, size_t b) { double d = 0; std::string res = attempt([&] { d = V[a].dot(V[b]); }); done(O()("op", "dot")("a", a + 1)("b", b + 1)("out", encI(d, U * U)), res); }
static void vq(size_t a) {
    if (bigV(a) > 4000) return; // out of the specification's numbers
    double n = 0; Array at, br; uint32_t len = 0; const Vector &v = V[a];
    std::string res = attempt([&] { n = v.norm(); len = v.length(); for (uint32_t i = 0; i < v.array().size(); ++i) { at.push_back(v.at(i)); br.push_back(v[i]); } });
    done(O()("op", "vq")("a", a + 1)("n2", encI(n * n, U * U, 1e-9))("len", len)("at", encIA(at, U))("br", encIA(br, U)), res);
}
static void unit(size_t a) {
    double n2 = 0; for (double x : V[a].array()) n2 += x / U * (x / U);
    if (n2 == 0) return;
    double L = std::nearbyint(std::sqrt(n2)); int l = L * L == n2 ? int(L) : 0; bool self = false; Vector c;
    std::string res = attempt([&] { c = V[a]; self = &c.normalize() == &c; });
    done(O()("op", "unit")("a", a + 1)("L", l)("self", self)("out", encIA(c.array(), l ? 1.0 / l : 1.0 / 4096, l ? 1e-9 : 0.51)), res);
}
static void mq(size_t a) {
    double t = 0; bool sym = false; Array out; uint32_t len = 0; Ints idx; const Matrix &m = *M[a];
    std::string res = attempt([&] { t = m.trace(); sym = m.isSymmetric(); out = m.array().array(); len = m.length(); for (int i = 0; i < side[a]; ++i) for (int j = 0; j < side[a]; ++j) idx.push_back(int(m.index(uint(i), uint(j)))); });
    done(O()("op", "mq")("a", a + 1)("tr", encI(t, W))("sym", sym)("arr", encIA(out, W))("len", len)("idx", idx), res);
}
static void temp(Rng &r, int m) { // everything a temporary
    int k = r.range(0, 1);
    Ints x = some(r, size_t(m) * m), y = some(r, k ? size_t(m) * (m + 1) / 2 : size_t(m) * m), z = some(r, m); Array out; double t = 0;
    auto B = [&] { return k ? df::symSquaredMatrix(marr_(y)) : df::squaredMatrix(marr_(y)); };
    std::string res = attempt([&] {
        out = Vector(df::squaredMatrix(marr_(x)).transpose().multMat(B()).multVec(Vector(varr(z)))).mult(1 / (W * W)).add(Vector(varr(z))).array();
        t = B().multMat(Matrix(marr_(x), uint(m))).trace();
    });
    done(O()("op", "temp")("x", x)("y", y)("z", z)("k", k)("out", encIA(out, U))("tr", encI(t, W * W)), res);
}
static void begin() { emit(O()("op", "begin")("V", vecs())("M", mats())); }

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    if (!o.cmds.empty()) {
        V.resize(3); M.resize(3); side = {2, 2, 3};
        for (auto &b : script(o)) {
            for (int k = 0; k < 3; ++k) { V[k] = Vector(varr(some(r, k == 2 ? 3 : 2, 4))); side[k] = k == 2 ? 3 : 2; M[k] = Matrix(marr_(some(r, size_t(side[k]) * side[k], 4)), uint(side[k])); }
            begin();
            for (auto &c : b) {
                size_t a = size_t(c.i(1)) - 1, x = size_t(c.i(2)) - 1, y = size_t(c.i(3)) - 1; const auto &op = c.op();
                if (op == "scale") scale(a, c.i(3));
                else if (op == "copy") copy(a, x, true);
                else if (op == "tr") tr(a, x);
                else if (op == "mm") mm(a, x, y);
                else if (op == "mv") mv(a, x, y);
                else if (op == "mat") makeMat(r, a, c.i(3), c.i(2));
                else if (op == "mcopy") mcopy(a, x, false);
                else inPlace(op, a, x, 2);
            }
            vq(0); mq(0); mq(1);
        }
        return 0;
    }
    for (int h = 0; h < 12 * o.scale; ++h) {
        static const std::vector<double> Us{1, 1, 1, 0.25, 1.0 / 1024, 1048576.0 * 4096, 0x1p-40, 0x1p-200, 0x1p200}; U = r.pick(Us); W = r.pick(Us);
        int nv = r.range(2, 4), nm = r.range(2, 3), m = r.chance(15) ? r.range(6, 9) : r.range(1, 5);
        V.assign(nv, Vector()); M.assign(nm, std::nullopt); side.assign(nm, m);
        auto size = [&] { return r.chance(80) ? m : r.range(1, 7); };
        for (int k = 0; k < nm; ++k) M[k] = Matrix(Array(size_t(m) * m, k * W), uint(m));
        begin();
        for (int k = 0; k < nv; ++k) vec(r, size_t(k), some(r, size_t(size())));
        for (int k = 0; k < nm; ++k) makeMat(r, size_t(k), r.chance(80) ? m : r.range(1, 5), r.range(0, 1));
        for (int s = 0; s < 45; ++s) {
            for (int k = 0; k < nv; ++k) if (bigV(size_t(k)) > 1000) vec(r, size_t(k), some(r, size_t(size())));
            for (int k = 0; k < nm; ++k) if (bigM(size_t(k)) > 1000) makeMat(r, size_t(k), r.chance(80) ? m : r.range(1, 5), r.range(0, 1));
            size_t a = r.below(uint32_t(nv)), b = r.chance(20) ? a : r.below(uint32_t(nv)), x = r.below(uint32_t(nm)), y = r.below(uint32_t(nm)), z = r.below(uint32_t(nm));
            static const std::vector<std::string> P{"add", "sub", "mul", "chain"};
            switch (r.range(0, 14)) {
            case 0: case 1: case 2: inPlace(r.pick(P), a, b, r.range(-3, 3)); break;
            case 3: scale(a, r.range(-3, 3)); break;
            case 4: copy(a, b, r.chance(50)); break;
            case 5: mcopy(x, y, r.chance(50)); break;
            case 6: tr(x, y); break;
            case 7: mm(x, y, z); break;
            case 8: mv(a, x, b); break;
            case 9: marr(a, x); break;
            case 10: dot(a, b); break;
            case 11: vq(a); break;
            case 12: unit(a); break;
            case 13: mq(x); break;
            default: if (r.chance(50)) temp(r, m); else if (r.chance(50)) makeMat(r, x, m, r.range(0, 1)); else vec(r, a, some(r, size_t(size()))); break;
            }
        }
    }
}
