// C10: solver threads of one search under a controlled scheduler
#include "mock_api.hh"
#include "pool.hh"
#include "tsan.hh"
#include <sys/mman.h>
using namespace V;

namespace {

struct Cache {
    std::map<std::string, std::unique_ptr<Ground>> gs;
    Ground const &get(std::string const &text, std::vector<std::string> const &vars, Conf const &conf) {
        auto &g = gs[text + conf.str()];
        if (!g) { g = ground(text, vars, conf); }
        return *g;
    }
} cache;

// cooperative threads; every switch is chosen by the explorer
constexpr size_t STACK = 1 << 19;
struct Co {
    ucontext_t uc;
    char *stack{nullptr};
    std::function<void()> run;
    bool done{true};
    std::string bug, violation;
    std::string error;
};

struct Sched {
    Co co[4];
    ucontext_t main;
    int n{0};
    int cur{-1};
    int holder{-1};          // owner of the model lock
    bool waiting[4];
    int preemptions{0}, max{0};
    uint64_t points{0}, switches{0};
    Chooser *ch{nullptr};
    bool coarse{false};
    Sched() {
        for (auto &c : co) {
            c.stack = static_cast<char *>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            if (c.stack == MAP_FAILED) { throw std::runtime_error("no memory for stacks"); }
        }
    }
    bool runnable(int i) const { return !co[i].done && !(waiting[i] && holder >= 0 && holder != i); }
    void swap(int to) {
        int from = cur;
        if (from == to) { return; }
        ++switches;
        cur = to;
        swapcontext(from < 0 ? &main : &co[from].uc, to < 0 ? &main : &co[to].uc);
    }
    // scheduling point of the running thread
    void point() {
        ++points;
        if (cur < 0 || preemptions >= max) { return; }
        std::vector<int> opts{cur};
        for (int i = 0; i < n; ++i) { if (i != cur && runnable(i)) { opts.push_back(i); } }
        int c = ch->choose(static_cast<int>(opts.size()));
        if (c > 0) { ++preemptions; swap(opts[static_cast<size_t>(c)]); }
    }
    // the running thread cannot continue
    void block() {
        std::vector<int> opts;
        for (int i = 0; i < n; ++i) { if (runnable(i)) { opts.push_back(i); } }
        if (opts.empty()) { swap(-1); return; }
        swap(opts[static_cast<size_t>(ch->choose(static_cast<int>(opts.size())))]);
    }
    static void entry(unsigned lo, unsigned hi) {
        auto *s = reinterpret_cast<Sched *>((static_cast<uintptr_t>(hi) << 32) | lo);
        auto &c = s->co[s->cur];
        try { c.run(); }
        catch (Violation &e) { c.violation = e.what(); }
        catch (std::exception &e) { c.bug = e.what(); }
        c.done = true;
        if (!c.violation.empty() || !c.bug.empty()) { s->swap(-1); }
        s->block();
        std::abort();
    }
    void start(int i, std::function<void()> f) {
        auto &c = co[i];
        getcontext(&c.uc);
        c.uc.uc_stack.ss_sp = c.stack;
        c.uc.uc_stack.ss_size = STACK;
        c.uc.uc_link = nullptr;
        c.run = std::move(f);
        c.done = false;
        c.bug.clear();
        c.violation.clear();
        waiting[i] = false;
        auto p = reinterpret_cast<uintptr_t>(this);
        makecontext(&c.uc, reinterpret_cast<void (*)()>(&Sched::entry), 2, static_cast<unsigned>(p), static_cast<unsigned>(p >> 32));
    }
    void run(int first) {
        cur = -1;
        holder = -1;
        swap(first);
        for (int i = 0; i < n; ++i) {
            if (!co[i].violation.empty()) { throw Violation(co[i].violation); }
            if (!co[i].bug.empty()) { throw Bug(co[i].bug); }
        }
        for (int i = 0; i < n; ++i) { if (!co[i].done) { throw Violation(cat("thread ", i, " is stuck")); } }
    }
};

Sched *sched = nullptr;

struct Setup { int threads{2}; int preempt{1}; bool fine{true}; int strat[4] = {0, 3, 2, 1}; bool monitor{true}; };

void explore(Ctx &ctx, Prog const &pr, std::vector<Sol> const &want, Conf const &conf, Setup const &su) {
    auto const &g = cache.get(text(pr), pr.p.vars, conf);
    std::vector<I> costs;
    for (auto const &s : want) { costs.push_back(pr.obj.empty() ? 0 : cost(pr.obj, s.vals)); }
    Chooser ch;
    ch.depth = static_cast<size_t>(-1);
    static Sched s;
    sched = &s;
    race_thread = &V::race::thread;
    auto one = [&](bool logging) -> std::string {
        Mock m{g};
        Chooser none; // no choices within the search
        m.logging = logging;
        m.ch = &none;
        m.ctx = &ctx;
        m.cost = &costs;
        m.max_steps = 200000;
        s.n = su.threads;
        s.ch = &ch;
        s.max = su.preempt;
        s.preemptions = 0;
        s.points = 0;
        ch.start();
        V::race::thread = -1;
        V::race::reset();
        V::race::enabled = su.monitor;
        std::string res;
        try {
            if (!m.init(want, su.threads)) { return ""; }
            auto out = [&] { int t = V::race::thread; V::race::thread = -1; return t; };
            m.enter = [&](Thr &t) { V::race::thread = static_cast<int>(t.id); };
            m.leave = [&](Thr &) { V::race::thread = -1; if (V::race::found()[0] != 0) { throw Violation(V::race::found()); } };
            m.yield = [&] {
                int t = out();
                bool l = V::race::locked;
                if (su.fine || t < 0) { s.point(); }
                V::race::thread = t;
                V::race::locked = l;
            };
            static std::function<void()> *hook = nullptr;
            static std::function<void()> atomic;
            atomic = [&] { if (s.cur >= 0 && V::race::thread >= 0) { m.yield(); } };
            hook = &atomic;
            V::race::on_atomic = [] { (*hook)(); };
            m.acquire = [&](Thr &t) {
                int i = static_cast<int>(t.id);
                s.point();
                s.waiting[i] = true;
                while (s.holder >= 0 && s.holder != i) { s.block(); }
                s.waiting[i] = false;
                s.holder = i;
                V::race::locked = true;
            };
            m.release = [&](Thr &) { s.holder = -1; V::race::locked = false; s.point(); };
            std::vector<std::vector<Sol>> got(static_cast<size_t>(su.threads));
            bool complete = false;
            for (int i = 0; i < su.threads; ++i) {
                s.start(i, [&, i] {
                    auto &t = m.th[static_cast<size_t>(i)];
                    t.strategy = su.strat[i];
                    V::race::locked = false;
                    m.search(t, [&](Thr &t, Sol const &sol) {
                        ctx.count(SOLS);
                        if (!std::binary_search(want.begin(), want.end(), sol)) { throw Violation(cat("thread ", i, " accepts an assignment that is not a solution: ", V::show(sol, pr.p.vars))); }
                        I c = 0;
                        if (!pr.obj.empty()) {
                            c = cost(pr.obj, sol.vals);
                            if (m.bound && c >= *m.bound) { throw Violation(cat("thread ", i, " accepts a solution with cost ", c, " although ", *m.bound, " is known")); }
                            m.bound = c;
                        }
                        MModel mm{&t, {}};
                        V::race::thread = i;
                        bool ok = clingcon_on_model(m.theory, reinterpret_cast<clingo_model_t *>(&mm));
                        V::race::thread = -1;
                        if (!ok) { throw Violation(cat("error in on_model: ", clingo_error_message())); }
                        std::set<std::string> syms, exp;
                        for (auto x : mm.syms) { syms.insert(Clingo::Symbol{x}.to_string()); }
                        for (size_t k = 0; k < sol.vals.size(); ++k) { exp.insert(cat("__csp(", pr.p.vars[k], ",", sol.vals[k], ")")); }
                        if (!pr.obj.empty()) { exp.insert(cat("__csp_cost(\"", c, "\")")); }
                        if (syms != exp) { throw Violation(cat("thread ", i, " reports other values than the ones of its model")); }
                        got[static_cast<size_t>(i)].push_back(sol);
                        return true;
                    });
                    if (t.done && !pr.obj.empty()) { complete = true; m.stop = true; }
                });
            }
            s.run(s.ch->choose(su.threads));
            V::race::on_atomic = nullptr;
            if (pr.obj.empty()) {
                for (int i = 0; i < su.threads; ++i) {
                    auto &x = got[static_cast<size_t>(i)];
                    std::sort(x.begin(), x.end());
                    if (x != want) { throw Violation(cat("thread ", i, ": ", diff(want, x, pr.p.vars))); }
                }
            } else {
                if (!complete) { throw Violation("no thread completed the search"); }
                if (!want.empty()) {
                    I best = *std::min_element(costs.begin(), costs.end());
                    if (!m.bound) { throw Violation("no solution found"); }
                    if (*m.bound != best) { throw Violation(cat("search ends with cost ", *m.bound, " but the optimum is ", best)); }
                }
            }
            uint64_t h = 0;
            for (auto &t : m.th) { h = h * 31 + static_cast<uint64_t>(t.nvars()) * 1000003 + t.clauses_added; }
            ctx.outcome(hash_str(cat(text(pr), h, m.steps)));
            ctx.count(CHECKS, V::race::accesses());
            ctx.count(EXTRA1, V::race::shared_cells());
        } catch (Violation &e) {
            res = cat(e.what(), logging ? "\n--- execution\n" + m.log : "");
        }
        V::race::thread = -1;
        V::race::on_atomic = nullptr;
        ctx.count(STATES, s.points);
        return res;
    };
    static bool warm = false;
    if (!warm) { warm = true; auto d = ch.depth; ch.depth = 0; one(false); ch.depth = d; ch.path.clear(); }
    do {
        auto r = one(false);
        ctx.count(EXEC);
        if (!r.empty()) {
            auto again = one(true);
            throw Violation(report(text(pr), conf, cat("threads ", su.threads, ", preemptions ", su.preempt, "\n", again.empty() ? r + "\n(not repeated)" : again)));
        }
        ctx.heartbeat();
    } while (ch.next());
}

void c10(Ctx &ctx) {
    auto ps = programs();
    auto cs = confs(-4, 9);
    std::vector<Conf> use{cs[0], cs[1], cs[2], cs[3], cs[0].with("order-heuristic", "max-chain")};
    for (auto &c : use) { c = c.with("sign-value,1", "+").with("refine-introduce,1", "no"); }
    auto go = [&](Prog const &p, Conf const &c, Setup const &su, size_t limit = 100000) {
        ctx.test([&] {
            auto want = brute(p.p);
            if (want.size() > limit || (limit < 10 && want.empty())) { return; }
            explore(ctx, p, want, c, su);
            ctx.count(NONTRIV);
            if (ctx.wants_sample()) { ctx.sample(text(p) + c.str()); } else { ctx.skip_sample(); }
        });
    };
    for (auto const &p : ps) {
        for (auto const &c : use) {
            Setup su;
            su.fine = !p.obj.empty() || ctx.thorough();
            go(p, c, su, ctx.thorough() ? 100000 : p.obj.empty() ? 30 : 60);
            Setup s3;
            s3.threads = 3;
            s3.preempt = p.obj.empty() ? 0 : 1;
            s3.fine = false;
            go(p, c, s3);
            if (!p.obj.empty()) {
                Setup s2;
                s2.preempt = 2;
                s2.monitor = false;
                s2.fine = false;
                go(p, c, s2, ctx.thorough() ? 1000 : 12);
                s2.strat[1] = 0;
                go(p, c, s2, ctx.thorough() ? 1000 : 12);
                s2.fine = true;
                go(p, c, s2, ctx.thorough() ? 1000 : 4);
                if (ctx.thorough()) {
                    s3.preempt = 2;
                    go(p, c, s3, 24);
                    s2.preempt = 3;
                    s2.fine = false;
                    go(p, c, s2, 12);
                }
            }
        }
    }
}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    if (id != "C10") { return 2; }
    auto d = program_check(id, "All schedules of 2 (and 3) solver threads sharing one propagator up to the preemption bound, for every pool program and 5 configurations: a scheduling point precedes every propagator callback, every call back into the solver and every atomic access of the library; enumeration is a depth-first search over all choices. Each thread runs a complete search on its own mock solver. Checked on each schedule: each thread accepts exactly the brute-force solutions, values and costs reported with a model are the ones of the reporting thread, the optimum is right, and no unsynchronised conflicting memory accesses happen (all accesses of the library are instrumented). distinct = hash of program, literals and clauses per thread and steps.", c10);
    d.counters = {{EXEC, "schedules"}, {STATES, "scheduling_points"}, {TRANS, "propagator_calls"}, {SOLS, "models"}, {CHECKS, "memory_accesses_monitored"}, {EXTRA1, "cells_used_by_several_threads"}};
    return run_check(d, argc - 2, argv + 2);
}
