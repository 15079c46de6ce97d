// C12: parallel execution. The function records when it starts and ends on
// its part; before each it waits for its turn in a prescribed order (given up
// when the implementation does not let that order happen).
#include "common.h"
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/parallel_execute.h>
using namespace vf;
using df::Serie;
using Clock = std::chrono::steady_clock;
using ms = std::chrono::milliseconds;

static bool gGiveUp = false; static int gMissed = 0;
struct State {
    std::mutex m; std::condition_variable cv;
    std::vector<std::string> log; int jobs = 0, running = 0;
    std::vector<int> order; size_t pos = 0; bool free = false;
    std::map<int, int> starts;        // first value of a part -> its number
    std::set<int> bad; int kind = 0;  // what the bad ones do
    int hold = 0;                     // ms a failure is left alone before the next step
    std::string fn;
    void step(int what, std::unique_lock<std::mutex> &lk) { // wait for the turn
        if (free || order.empty()) return;
        auto mine = [&] { return free || pos >= order.size() || order[pos] == what; };
        if (!cv.wait_for(lk, ms(400), mine)) { free = true; if (++gMissed > 5) gGiveUp = true; cv.notify_all(); return; }
    }
    void done(int what) { if (!free && pos < order.size() && order[pos] == what) ++pos; cv.notify_all(); }
};
using P = std::shared_ptr<State>;
struct Odd {};

static Serie compute(const std::string &fn, const Serie &s) {
    uint32_t is = s.itemSize(), n = s.count();
    Array o;
    if (fn == "id") o = s.asArray();
    for (uint32_t i = 0; i < n; ++i) {
        if (fn == "rev") for (uint32_t j = is; j-- > 0;) o.push_back(s.asArray()[i * is + j]);
        if (fn == "first") o.push_back(s.asArray()[i * is]);
        if (fn == "dup") for (uint32_t j = 0; j < 2 * is; ++j) o.push_back(s.asArray()[i * is + j % is]);
    }
    return Serie(fn == "first" ? 1 : fn == "dup" ? 2 * is : is, o, s.dimension());
}

struct Fun {
    P p;
    Serie operator()(const Serie &s) const {
        P st = p; // outlive whatever the caller does
        int id, k = 0; bool bad; int kind;
        Serie got = s;
        {
            std::unique_lock<std::mutex> lk(st->m);
            if (s.count()) { auto it = st->starts.find(int(s.asArray()[0])); k = it == st->starts.end() ? 0 : it->second; }
            if (k) st->step(k, lk);
            id = st->jobs++; ++st->running;
            bad = st->bad.count(k) || st->bad.count(-1); kind = st->kind;
            st->log.push_back(O()("op", "start")("job", id)("part", encIS(s)).j().t);
            st->done(k);
        }
        Serie r; if (!bad || kind == 2) r = compute(st->fn, s);
        if (bad && kind == 2) { // one item less or more
            Array a = r.asArray();
            if (k % 2 && s.count() > 0) a.resize(a.size() - r.itemSize()); else a.resize(a.size() + r.itemSize(), 0.0);
            r = Serie(r.itemSize(), a, r.dimension());
        }
        std::string how = !bad ? "ok" : kind == 2 ? "short" : "threw";
        int hold = 0;
        {
            std::unique_lock<std::mutex> lk(st->m);
            if (k) st->step(-k, lk);
            st->log.push_back(O()("op", "end")("job", id)("how", how)("out", encIS(r)).j().t);
            --st->running;
            if (bad) hold = st->hold;
            if (!hold) st->done(-k);
        }
        if (hold) { // the failure becomes visible first: the next step comes from another thread, later
            std::thread([st, k, hold] { std::this_thread::sleep_for(ms(hold)); std::unique_lock<std::mutex> lk(st->m); st->done(-k); }).detach();
        }
        if (bad && kind == 0) throw std::runtime_error("part failed");
        if (bad && kind == 1) throw Odd();
        return r;
    }
};

static Serie numbered(int is, uint32_t n, uint dim) { Array a(size_t(is) * n); for (size_t i = 0; i < a.size(); ++i) a[i] = double(i + 1); return Serie(is, a, dim); }
static std::vector<std::thread> gHeld;

// bad: numbers of the misbehaving parts (-1: all)
static void run(const Serie &s, uint cores, const std::string &fn, const std::vector<int> &order, const std::set<int> &bad, int kind, int call, int hold) {
    auto st = std::make_shared<State>();
    st->fn = fn; st->bad = bad; st->kind = kind; st->hold = hold; st->order = gGiveUp ? std::vector<int>{} : order;
    uint32_t n = s.count(), parts = std::max<uint32_t>(1, std::min<uint32_t>(cores, n)), at = 0;
    for (uint32_t k = 0; k < parts && n; ++k) { st->starts[int(s.asArray()[size_t(at) * s.itemSize()])] = int(k) + 1; at += n / parts + (k < n % parts); }
    emit(O()("op", "begin")("in", encIS(s))("cores", int(cores))("fn", fn));
    Serie out; Fun f{st};
    std::string res = attempt([&] {
        if (call == 0) out = df::utils::parallel_execute(f, s, cores);
        else if (call == 1) out = df::utils::parallel_execute(Fun{st}, s, cores);
        else { std::function<Serie(const Serie &)> g = f; out = df::utils::parallel_execute(g, s, cores); }
    });
    {
        std::unique_lock<std::mutex> lk(st->m);
        O e; e("op", "return")("res", res)("out", res == "ok" ? list({encIS(out)}) : list({}))("after", encIS(s));
        st->log.push_back(e.j().t);
    }
    if (res != "ok") std::this_thread::sleep_for(ms(2 + hold));
    auto end = Clock::now() + ms(3000);
    for (;;) { // whatever is still going on shows up after the return
        std::unique_lock<std::mutex> lk(st->m);
        if (!st->running || Clock::now() > end) break;
        st->free = true; st->cv.notify_all();
        lk.unlock(); std::this_thread::sleep_for(ms(1));
    }
    std::unique_lock<std::mutex> lk(st->m);
    for (auto &t : st->log) { std::string x = t + "\n"; fwrite(x.data(), 1, x.size(), vf::out()); }
    fflush(vf::out());
}

int main(int argc, char **argv) {
    Opt o = parse(argc, argv);
    Rng r(o.seed * 1000 + o.shard + 12);
    static const std::vector<std::string> FN{"id", "rev", "first", "dup"};
    if (!o.cmds.empty()) {
        for (auto &b : script(o))
            for (auto &c : b) {
                int parts = c.i(1), kind = c.i(4);
                auto bad = c.l(3);
                uint32_t n = uint32_t(parts) + uint32_t(r.below(4));
                int is = r.range(1, 3);
                uint cores = uint(parts) + (n == uint32_t(parts) ? r.below(3) : 0);
                run(numbered(is, n, aDim(r)), cores, r.pick(FN), c.l(2), {bad.begin(), bad.end()}, kind, r.range(0, 2), bad.empty() ? 0 : 2);
            }
        return 0;
    }
    for (int k = 0; k < 250 * o.scale; ++k) {
        int is = anItemSize(r); uint32_t n = k % 40 == 7 ? uint32_t(r.range(60000, 70000)) / uint32_t(is) : aCount(r, 600);
        if (is > 6 && n > 300) n = 300;
        uint cores = r.chance(3) ? 0 : r.chance(10) ? 1 : r.chance(70) ? r.range(2, 9) : r.range(10, 64);
        if (r.chance(10)) cores = n + uint(r.range(0, 2)) > 64 ? 64 : n + uint(r.range(0, 2));
        uint32_t parts = std::min<uint32_t>(cores, n);
        std::set<int> bad; int kind = 0;
        if (cores > 0 && r.chance(35)) {
            kind = r.range(0, cores == 1 || n == 0 ? 1 : 2);
            if (r.chance(30)) { for (uint32_t i = 1; i <= parts; ++i) bad.insert(int(i)); if (!n) bad.insert(0); }
            else bad.insert(n ? r.range(1, int(parts)) : 0);
        }
        std::vector<int> order;
        if (parts > 1 && parts <= 12 && r.chance(60)) { // a random interleaving
            std::vector<int> todo, running; for (uint32_t i = 1; i <= parts; ++i) todo.push_back(int(i));
            while (!todo.empty() || !running.empty()) {
                bool begin = running.empty() || (!todo.empty() && r.chance(60));
                auto &q = begin ? todo : running; size_t x = r.below(uint32_t(q.size()));
                int v = q[x]; q.erase(q.begin() + long(x));
                order.push_back(begin ? v : -v); if (begin) running.push_back(v);
            }
        }
        run(numbered(is, n, aDim(r)), cores, r.pick(FN), order, bad, kind, r.range(0, 2), order.empty() || bad.empty() ? 0 : 2);
    }
    return 0;
}
