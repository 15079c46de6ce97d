// C14: every operation, again and again, on arguments kept in fixed places,
// with the arguments and results recorded before and after.
#include "ops.h"
static bool sameBits(const Array &a, const Array &b) { return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * 8) == 0); }

// The answer of a process that has done nothing else yet.
#include <sys/wait.h>
#include <unistd.h>
static std::string fresh(const OpDef &op, const Args &a, Out &out) {
    int p[2];
    if (pipe(p)) return "unk";
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        Out o; std::string res = attempt([&] { o = op.f(a); });
        std::ostringstream b;
        auto put = [&](const void *d, size_t n) { b.write(static_cast<const char *>(d), std::streamsize(n)); };
        size_t n = res == "ok" ? o.size() : 0; char r8[8] = {0}; std::strncpy(r8, res.c_str(), 7);
        put(r8, 8); put(&n, 8);
        for (size_t k = 0; k < n; ++k) { uint64_t h[4] = {o[k].itemSize(), o[k].dimension(), o[k].asArray().size(), o[k].count()}; put(h, 32); if (h[2]) put(o[k].asArray().data(), h[2] * 8); }
        std::string t = b.str();
        for (size_t w = 0; w < t.size();) { ssize_t k = write(p[1], t.data() + w, t.size() - w); if (k <= 0) break; w += size_t(k); }
        _exit(0);
    }
    close(p[1]);
    std::string t; char buf[65536]; ssize_t k;
    while ((k = read(p[0], buf, sizeof buf)) > 0) t.append(buf, size_t(k));
    close(p[0]);
    int st = 0; waitpid(pid, &st, 0);
    if (t.size() < 16) return "died";
    size_t at = 16, n; std::string res(t.c_str()); std::memcpy(&n, t.data() + 8, 8);
    for (size_t i = 0; i < n && at + 32 <= t.size(); ++i) {
        uint64_t h[4]; std::memcpy(h, t.data() + at, 32); at += 32;
        Array v(h[2]); if (h[2]) std::memcpy(v.data(), t.data() + at, h[2] * 8); at += h[2] * 8;
        Serie s{static_cast<int>(h[0]), static_cast<uint32_t>(h[3]), static_cast<uint>(h[1])}; if (!v.empty()) std::copy(v.begin(), v.end(), s.asArray().begin()); out.push_back(s);
    }
    return res;
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard);
    auto ops = table();
    static Args live; // the fixed places
    auto call = [&](int cas, const OpDef &op, const Args &with, bool stay = false) {
        for (int k = 0; k < 4; ++k) { // in the storage already there when the shape is the same
            Serie &l = live.s[k]; const Serie &w = with.s[k];
            if (l.itemSize() == w.itemSize() && l.count() == w.count() && l.dimension() == w.dimension() && l.size() == w.size()) std::copy(w.asArray().begin(), w.asArray().end(), l.asArray().begin());
            else l = w;
        }
        live.d = with.d;
        const Args &c = live;
        J before = enc(live);
        Out out;
        std::string res = attempt([&] { out = op.f(c); });
        J after = enc(live), first = encAll(out);
        // writing into the results leaves the arguments alone ...
        for (auto &s : out) { for (auto &x : s.asArray()) x = 12345; }
        Out copy = res == "ok" ? out : Out{};
        J poked = enc(live);
        // ... and writing into the arguments leaves a result alone
        Out again; std::string res2 = attempt([&] { again = op.f(c); });
        Out elsewhere = again; std::string res3 = res2; if (r.chance(25)) res3 = attempt([&] { elsewhere = Out{}; elsewhere = op.f(with); }); // equal arguments at another place
        bool move = !stay && r.chance(50);
        for (auto &s : live.s) { for (auto &x : s.asArray()) x = -777; if (move) s.reCount(1); }
        live.d.clear();
        emit(O()("op", "call")("f", op.name)("case", cas)("before", before)("res", res)("out", first)("after", after)("poked", poked)("res2", res2)("kept", encAll(again))("res3", res3)("elsewhere", encAll(elsewhere)));
    };
    if (!o.cmds.empty()) { // histories of operations chosen by the specification
        size_t base = 0;
        for (auto &b : script(o)) {
            for (auto &c : b) { // operation (by its place in the history's own choice of three), argument set
                size_t k = (base + size_t(c.i(1)) * 29) % ops.size();
                Rng z(o.seed * 77 + k * 2 + uint64_t(c.i(2))); Args a; fill(z, ops[k].kind[0], 3, 3, a);
                call(int(k) * 2 + c.i(2), ops[k], a);
            }
            ++base;
        }
        return 0;
    }
    // cases: each operation with several arguments of one shape and some of others
    struct Case { size_t op; Args a; };
    std::vector<Case> cases;
    for (size_t k = 0; k < ops.size(); ++k) {
        if (!o.mine(k)) continue;
        uint32_t n = uint32_t(r.range(1, 5)); uint dim = aDim(r);
        uint64_t shape = r.next();
        // Values nothing recovers from, should a call leave any behind. (Not where
        // the order of values that are not numbers or their place in a table would matter.)
        static const std::set<std::string> finite{"eigen", "decompose", "manager", "bins", "binsOver"};
        for (int v = 0; v < 4 + std::min(o.scale, 3); ++v) {
            Case c; c.op = k; Rng q(shape);
            if (v <= 1 || (v == 2 && !finite.count(ops[k].name))) { // the same shapes, with other values
                fill(q, ops[k].kind[0], n, dim, c.a);
                if (v >= 1 && ops[k].kind != "t") for (int i = 0; i < 4; ++i) {
                    Serie &s = c.a.s[i];
                    Array a = vals(r, s.size());
                    if (v == 2) for (auto &x : a) x = r.pick(std::vector<double>{HUGE_VAL, -HUGE_VAL, 1e308, -1e308, 0.0, 1.0, HUGE_VAL});
                    if (s.isValid()) s = Serie(int(s.itemSize()), a, s.dimension());
                    if (i < 3) c.a.d.set("s" + std::to_string(i), s);
                }
            } else fill(r, ops[k].kind[0], r.chance(20) ? 0 : r.chance(8) ? 130 : uint32_t(r.range(1, 9)), aDim(r), c.a);
            cases.push_back(c);
        }
    }
    for (size_t k = 0; k < cases.size(); ++k) {
        for (int i = 0; i < 4; ++i) live.s[i] = cases[k].a.s[i];
        live.d = cases[k].a.d;
        J before = enc(live); Out out; std::string res = fresh(ops[cases[k].op], live, out);
        emit(O()("op", "fresh")("f", ops[cases[k].op].name)("case", long(k))("before", before)("res", res)("out", encAll(out)));
    }
    std::vector<int> order;
    for (int rep = 0; rep < 3; ++rep) for (size_t k = 0; k < cases.size(); ++k) order.push_back(int(k));
    for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.below(uint32_t(k))]);
    for (int k : order) call(k, ops[cases[k].op], cases[k].a);
    // the same shapes with other values at the same place
    for (size_t k = 0; k + 1 < cases.size(); ++k) if (cases[k].op == cases[k + 1].op && cases[k].a.s[0].size() == cases[k + 1].a.s[0].size()) for (size_t j : {k, k + 1, k, k + 1, k}) call(int(j), ops[cases[j].op], cases[j].a, true);
    for (size_t k = 0; k < cases.size() && int(k) < 12; ++k) call(int(k), ops[cases[k].op], cases[k].a), call(int(k), ops[cases[k].op], cases[k].a); // at once again
}
