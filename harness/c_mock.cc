// C10 parallel schedules, C11 clauses, C12 backtracking, C13 total checks on a controlled solver
#include "mock_api.hh"
#include "pool.hh"
using namespace V;

namespace {

std::string const RULE = "Every pool program (all constraint types, Boolean parts, objectives) x 10 configurations x search strategies x ALL choice prefixes up to the depth: at each decision point of the controlled solver every unassigned literal and sign, every backjump level and a restart that forgets learnt clauses is tried, then a deterministic search completes the run. The propagator under test is the real library behind a mock of clingo's propagator interface. ";

// ground programs are kept per worker
struct Cache {
    std::map<std::string, std::unique_ptr<Ground>> gs;
    Ground const &get(std::string const &text, std::vector<std::string> const &vars, Conf const &conf) {
        auto &g = gs[text + conf.str()];
        if (!g) { g = ground(text, vars, conf); }
        return *g;
    }
} cache;

struct Setup {
    int depth{2};
    int strategy{0};
    bool single{false};
    bool clauses{false}, restore{false}, final{false}, strength{false}, bounds{false};
};

// {{{ what propagation has to find out before the next decision

using Bounds = std::vector<std::pair<I, I>>;

// linear inequality
struct Ineq {
    std::map<int, I> co;
    I rhs{0};
    I min(Bounds const &b) const { I r = 0; for (auto [v, c] : co) { r += c * (c > 0 ? b[static_cast<size_t>(v)].first : b[static_cast<size_t>(v)].second); } return r; }
    I max(Bounds const &b) const { I r = 0; for (auto [v, c] : co) { r += c * (c > 0 ? b[static_cast<size_t>(v)].second : b[static_cast<size_t>(v)].first); } return r; }
};

// the atom (or its complement) as conjunction of inequalities
bool linear(Atom const &a, bool neg, std::vector<Ineq> &r) {
    if (a.kind != Atom::SUM) { return false; }
    Ineq q;
    auto add = [&](Poly const &p, I sign) {
        for (auto const &m : p) {
            if (m.vars.size() > 1) { return false; }
            if (m.vars.empty()) { q.rhs -= sign * m.co; } else { q.co[m.vars[0]] += sign * m.co; }
        }
        return true;
    };
    for (auto const &e : a.elems) { if (!add(e, 1)) { return false; } }
    if (!add(a.rhs, -1)) { return false; }
    for (auto it = q.co.begin(); it != q.co.end();) { it = it->second == 0 ? q.co.erase(it) : std::next(it); }
    static std::map<std::string, std::string> const comp{{"<=", ">"}, {"<", ">="}, {">", "<="}, {">=", "<"}, {"=", "!="}, {"!=", "="}};
    auto rel = neg ? comp.at(a.rel) : a.rel;
    if (rel == "!=") { return false; }
    auto flip = [](Ineq x, I d) { for (auto &[v, c] : x.co) { c = -c; } x.rhs = -x.rhs + d; return x; };
    if (rel == "<=" || rel == "=") { r.push_back(q); }
    if (rel == "<") { --q.rhs; r.push_back(q); }
    if (rel == ">=" || rel == "=") { r.push_back(flip(q, 0)); }
    if (rel == ">") { r.push_back(flip(q, -1)); }
    return true;
}

struct Strength {
    Program const &p;
    Mock &m;
    // Boolean atoms that are equivalent to a theory atom
    std::map<int, Lit const *> def;
    Strength(Program const &p, Mock &m) : p{p}, m{m} {
        std::map<int, int> n;
        for (int c : p.choice) { ++n[c]; }
        for (auto const &r : p.rules) { if (r.head == Rule::BOOL) { ++n[r.boolean]; if (r.body.size() == 1 && r.body[0].boolean < 0) { def[r.boolean] = &r.body[0]; } } }
        for (auto [b, k] : n) { if (k != 1) { def.erase(b); } }
    }
    std::string show(Bounds const &b) const {
        std::string r;
        for (size_t i = 0; i < b.size(); ++i) { r += cat(i > 0 ? ", " : "", p.vars[i], " in ", b[i].first, "..", b[i].second); }
        return r;
    }
    void active(Atom const &a, bool neg, Bounds const &b, bool bounds) const {
        std::vector<Ineq> qs;
        if (linear(a, neg, qs)) {
            for (auto const &q : qs) {
                I min = q.min(b);
                if (min > q.rhs) { throw Violation(cat("the constraint ", neg ? "not " : "", a.text, " cannot hold but search goes on with ", show(b))); }
                if (!bounds) { continue; }
                for (auto [v, c] : q.co) {
                    auto [l, u] = b[static_cast<size_t>(v)];
                    if (min + (c > 0 ? c : -c) * (u - l) > q.rhs) { throw Violation(cat("the constraint ", neg ? "not " : "", a.text, " does not restrict ", c > 0 ? "the upper" : "the lower", " bound of ", p.vars[static_cast<size_t>(v)], " although it has to: ", show(b))); }
                }
            }
        } else {
            // complete detection once all variables have values
            std::vector<I> x;
            for (auto [l, u] : b) { x.push_back(l); }
            auto fixed = [&](Poly const &e) { for (auto const &t : e) { for (int v : t.vars) { if (b[static_cast<size_t>(v)].first != b[static_cast<size_t>(v)].second) { return false; } } } return true; };
            bool all = fixed(a.rhs);
            for (auto const &e : a.elems) { all = all && fixed(e); }
            if (all && a.holds(x) == neg) { throw Violation(cat("the constraint ", neg ? "not " : "", a.text, " is violated but search goes on with ", show(b))); }
        }
    }
    void operator()(Thr &t, bool bounds) const {
        if (!peek_available()) { return; }
        auto all = m.bounds(t);
        Bounds b;
        for (size_t i : m.idx) { if (i == 0) { return; } b.push_back(all[i - 1]); }
        auto value = [&](Lit const &l) { int v = t.value(m.named[static_cast<size_t>(l.boolean)]); return l.neg ? -v : v; };
        for (auto const &r : p.rules) {
            // rules with Boolean bodies that hold
            bool holds = true;
            Lit const *th = nullptr;
            int n = 0;
            for (auto const &l : r.body) { if (l.boolean >= 0) { holds = holds && value(l) > 0; } else { th = &l; ++n; } }
            if (!holds) { continue; }
            if (r.head == Rule::THEORY && n == 0) { active(r.atom, false, b, bounds); m.ctx->count(CHECKS); }
            if (r.head == Rule::NONE && n == 1) { active(th->atom, !th->neg, b, bounds); m.ctx->count(CHECKS); }
        }
        for (auto [k, l] : def) {
            int v = t.value(m.named[static_cast<size_t>(k)]);
            m.ctx->count(CHECKS);
            if (v != 0) { active(l->atom, (v < 0) != l->neg, b, bounds); continue; }
            for (bool neg : {false, true}) {
                std::vector<Ineq> qs;
                if (!linear(l->atom, neg, qs)) { continue; }
                for (auto const &q : qs) { if (q.min(b) > q.rhs) { throw Violation(cat("the truth value of ", l->atom.text, " is open but it is decided by ", show(b))); } }
            }
        }
    }
};

// }}}

// runs the search for all choice sequences of the given depth
void explore(Ctx &ctx, Prog const &pr, std::vector<Sol> const &want, Conf const &conf, Setup const &su) {
    auto const &g = cache.get(text(pr), pr.p.vars, conf);
    std::vector<I> costs;
    for (auto const &s : want) { costs.push_back(pr.obj.empty() ? 0 : cost(pr.obj, s.vals)); }
    Chooser ch;
    ch.depth = static_cast<size_t>(su.depth);
    auto one = [&](bool logging, bool diagnose = false) -> std::string {
        Mock m{g};
        m.logging = logging;
        m.ch = &ch;
        m.ctx = &ctx;
        m.strategy = su.strategy;
        m.single = su.single;
        m.mon.clauses = su.clauses || diagnose;
        m.mon.restore = su.restore;
        m.cost = &costs;
        Strength strength{pr.p, m};
        if (su.strength) { m.mon.state = [&](Thr &t) { strength(t, su.bounds); }; }
        ch.start();
        try {
            std::vector<Sol> got;
            if (m.init(want, 1)) {
                m.search(m.th[0], [&](Thr &t, Sol const &s) {
                    ctx.count(SOLS);
                    if (su.final && !std::binary_search(want.begin(), want.end(), s)) { throw Violation("accepted a total assignment that is not a solution: " + V::show(s, pr.p.vars)); }
                    if (!pr.obj.empty()) {
                        I c = cost(pr.obj, s.vals);
                        if (su.final && m.bound && c >= *m.bound) { throw Violation(cat("accepted a solution with cost ", c, " although ", *m.bound, " is known")); }
                        m.bound = c;
                        MModel mm{&t, {}};
                        if (!clingcon_on_model(m.theory, reinterpret_cast<clingo_model_t *>(&mm))) { throw Violation(cat("error in on_model: ", clingo_error_message())); }
                    }
                    got.push_back(s);
                    return true;
                });
            }
            if (su.final) {
                if (pr.obj.empty()) {
                    std::sort(got.begin(), got.end());
                    if (got != want) { throw Violation(diff(want, got, pr.p.vars)); }
                } else {
                    if (got.empty() != want.empty()) { throw Violation("wrong verdict"); }
                    if (!want.empty()) {
                        I best = *std::min_element(costs.begin(), costs.end());
                        if (*m.bound != best) { throw Violation(cat("search ends with cost ", *m.bound, " but the optimum is ", best)); }
                    }
                }
            }
            ctx.outcome(hash_str(cat(text(pr), m.steps, m.th.empty() ? 0 : m.th[0].nvars(), m.th.empty() ? 0 : m.th[0].clauses_added)));
            return "";
        } catch (Violation &e) {
            return cat(e.what(), logging ? "\n--- execution\n" + m.log : "");
        }
    };
    do {
        auto r = one(false);
        ctx.count(EXEC);
        if (!r.empty()) {
            auto again = one(true);
            if (!su.clauses) { auto d = one(true, true); if (!d.empty() && d != again) { again += "\n--- first unsound clause\n" + d; } }
            throw Violation(report(text(pr), conf, cat("strategy ", su.strategy, su.single ? " single" : "", ", choices: ", ch.str(), "\n", again.empty() ? r + "\n(not repeated)" : again)));
        }
        ctx.heartbeat();
    } while (ch.next());
}

std::vector<Conf> mconfs() {
    auto cs = confs(-4, 9);
    return {cs[0], cs[1], cs[2], cs[3], cs[4], cs[5], cs[6], cs[7], cs[0].with("order-heuristic", "max-chain"), cs[1].with("order-heuristic", "max-chain").with("refine-reasons", "yes")};
}

void all(Ctx &ctx, Setup const &base, int depth, std::vector<int> const &strategies) {
    auto ps = programs();
    auto cs = mconfs();
    for (auto const &p : ps) {
        std::vector<Sol> want;
        bool have = false;
        for (auto const &c : cs) {
            for (int st : strategies) {
                {
                    ctx.test([&] {
                        if (!have) { want = brute(p.p); have = true; }
                        Setup su = base;
                        su.depth = depth;
                        su.strategy = st;
                        explore(ctx, p, want, c, su);
                        ctx.count(NONTRIV);
                        if (ctx.wants_sample()) { ctx.sample(text(p) + c.str()); } else { ctx.skip_sample(); }
                    });
                }
            }
        }
    }
}

void c11(Ctx &ctx) { Setup s; s.clauses = true; all(ctx, s, ctx.thorough() ? 3 : 2, ctx.thorough() ? std::vector<int>{0, 3, 4} : std::vector<int>{0, 2, 3, 4}); }
void c12(Ctx &ctx) { Setup s; s.restore = true; all(ctx, s, ctx.thorough() ? 3 : 2, {0, 3}); }
void c13(Ctx &ctx) { Setup s; s.final = true; all(ctx, s, ctx.thorough() ? 3 : 2, ctx.thorough() ? std::vector<int>{0, 3, 4} : std::vector<int>{0, 1, 2, 3, 4, 5}); }

void c30(Ctx &ctx) {
    Setup s;
    s.strength = true;
    // all small sums in all roles
    std::vector<std::string> const N{"x", "y", "z"};
    std::vector<I> const cos{-3, -1, 1, 2};
    for (I a : cos) { for (I b : cos) { for (I c : {0, -2, 1}) { for (char const *rel : RELS) { for (I rhs = -3; rhs <= 5; rhs += ctx.thorough() ? 1 : 2) { for (int role = 0; role < 4; ++role) {
        ctx.test([&] {
            Prog p;
            domains(p.p, {N.begin(), N.begin() + (c == 0 ? 2 : 3)}, c == 0 ? std::vector<std::vector<std::pair<I, I>>>{{{-1, 3}}, {{0, 2}, {4, 4}}} : std::vector<std::vector<std::pair<I, I>>>{{{-1, 3}}, {{0, 2}, {4, 4}}, {{0, 3}}});
            std::vector<Mono> ms{{a, {0}}, {b, {1}}};
            if (c != 0) { ms.push_back({c, {2}}); }
            auto atom = sum_atom(p.p.vars, ms, rel, rhs);
            if (role == 1 || role == 2) { p.p.choice = {0}; }
            p.p.rules = {role == 0 ? thead(atom) : role == 1 ? thead(atom, {blit(0)}) : role == 2 ? constraint({tlit(atom), blit(0)}) : bhead(0, {tlit(atom)})};
            auto want = brute(p.p);
            auto cs = mconfs();
            for (size_t i : {0, 1, 2, 4, 5, 9}) {
                for (int st : {0, 3}) {
                    Setup su = s;
                    su.depth = 1;
                    su.strategy = st;
                    su.bounds = i != 4 && i != 5;
                    explore(ctx, p, want, cs[i], su);
                }
            }
            cache.gs.clear();
            ctx.count(NONTRIV);
            if (ctx.wants_sample()) { ctx.sample(text(p)); } else { ctx.skip_sample(); }
        });
    } } } } } }
    for (auto const &p : programs()) {
        std::vector<Sol> want;
        bool have = false;
        auto cs = mconfs();
        for (size_t i = 0; i < cs.size(); ++i) {
            if (i == 7) { continue; } // weight constraints propagate less
            for (int st : {0, 2, 3, 5}) {
                ctx.test([&] {
                    if (!have) { want = brute(p.p); have = true; }
                    Setup su = s;
                    su.depth = ctx.thorough() ? 3 : 2;
                    su.strategy = st;
                    su.bounds = i < 4 || i == 8 || i == 9;
                    explore(ctx, p, want, cs[i], su);
                    ctx.count(NONTRIV);
                    if (ctx.wants_sample()) { ctx.sample(text(p) + cs[i].str()); } else { ctx.skip_sample(); }
                });
            }
        }
    }
}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    auto go = [&](std::string const &rule, std::function<void(Ctx &)> f) {
        auto d = program_check(id, rule, f);
        d.counters = {{EXEC, "executions"}, {STATES, "decisions"}, {TRANS, "propagator_calls"}, {SOLS, "accepted_assignments"}, {CLAUSES, "clause_solution_pairs"}, {CHECKS, "states_compared"}};
        return run_check(d, argc - 2, argv + 2);
    };
    if (id == "C11") { return go(RULE + "Checked: each clause handed to the solver is evaluated under every solution of the program (every better solution for objectives). distinct = hash of program, steps, literals and clauses.", c11); }
    if (id == "C12") { return go(RULE + "Checked: the full observable state of the solver (bounds, levels, active constraints) after each undo equals the state recorded when the level was entered. distinct = hash of program, steps, literals and clauses.", c12); }
    if (id == "C13") { return go(RULE + "Checked: the set of accepted total assignments equals the brute-force solutions, every run terminates. distinct = hash of program, steps, literals and clauses.", c13); }
    if (id == "C30") { return go(RULE + "Checked before every decision: no active constraint whose variables all have values is violated, no active linear constraint is impossible, every bound an active linear constraint implies is derived (constraints kept by the propagator), and reified linear constraints decided by the bounds have a truth value. distinct = hash of program, steps, literals and clauses.", c30); }
    return 2;
}
