// C29: what a search leaves behind for the next step, on a controlled solver
#include "mock_api.hh"
#include "pool.hh"
using namespace V;

namespace {

struct Cache {
    std::map<std::string, std::unique_ptr<Ground>> gs;
    Ground const &get(std::vector<std::string> const &texts, std::vector<std::string> const &vars, Conf const &conf) {
        std::string key = conf.str();
        for (auto const &t : texts) { key += t + "\n"; }
        auto &g = gs[key];
        if (!g) { g = ground(texts, vars, conf); }
        return *g;
    }
} cache;

// a program cut into steps
struct Steps {
    std::vector<std::string> vars;
    struct Step { std::string text; Program all; std::vector<Objective> obj; std::vector<Sol> want; std::vector<I> costs; int threads{1}; bool one{false}; bool absent{false}; };
    std::vector<Step> steps;
    std::string text() const {
        std::string r;
        for (auto const &s : steps) { r += cat(r.empty() ? "" : "\n", "step (", s.threads, s.threads == 1 ? " thread" : " threads", s.absent ? ", second not started" : "", s.one ? ", one model): " : "): ", s.text); }
        return r;
    }
};

// the first choices are made in the step with index first
struct Depth { int first; int depth; int second{0}; };

void explore(Ctx &ctx, Steps const &st, Conf const &conf, int strategy, Depth d) {
    // the pointers below have to stay valid
    if (cache.gs.size() > 200) { cache.gs.clear(); }
    std::vector<Ground const *> gs;
    std::vector<std::string> texts;
    for (auto const &s : st.steps) { texts.push_back(s.text); gs.push_back(&cache.get(texts, st.vars, conf)); }
    Chooser ch;
    auto one = [&](bool logging) -> std::string {
        Mock m{*gs[0]};
        m.root = 1;
        m.logging = logging;
        m.ch = &ch;
        m.ctx = &ctx;
        m.strategy = strategy;
        m.mon.clauses = true;
        m.mon.restore = true;
        ch.start();
        ch.depth = 0;
        try {
            for (size_t k = 0; k < st.steps.size(); ++k) {
                auto const &s = st.steps[k];
                ch.depth = ch.pos + static_cast<size_t>(static_cast<int>(k) == d.first ? d.depth : static_cast<int>(k) == d.first + 1 ? d.second : 0);
                m.cost = &s.costs;
                m.absent = s.absent;
                if (k > 0 && m.unsat) { if (!s.want.empty()) { throw Bug("a later step has more solutions"); } break; }
                bool ok = k == 0 ? m.init(s.want, s.threads) : m.next(*gs[k], s.want, s.threads);
                if (!ok) { continue; }
                for (auto &t : m.th) {
                    if (t.absent) { continue; }
                    std::vector<Sol> got;
                    m.search(t, [&](Thr &t, Sol const &x) {
                        ctx.count(SOLS);
                        if (!std::binary_search(s.want.begin(), s.want.end(), x)) { throw Violation(cat("step ", k + 1, " accepts a total assignment that is not a solution: ", V::show(x, st.vars))); }
                        if (!s.obj.empty()) {
                            I c = cost(s.obj, x.vals);
                            if (m.bound && c >= *m.bound) { throw Violation(cat("step ", k + 1, " accepts a solution with cost ", c, " although ", *m.bound, " is known")); }
                            m.bound = c;
                            MModel mm{&t, {}};
                            if (!clingcon_on_model(m.theory, reinterpret_cast<clingo_model_t *>(&mm))) { throw Violation(cat("error in on_model: ", clingo_error_message())); }
                        }
                        got.push_back(x);
                        return !s.one;
                    });
                    std::sort(got.begin(), got.end());
                    if (s.one ? (&t == &m.th[0] && got.empty() && !s.want.empty()) : s.obj.empty() && got != s.want) { throw Violation(cat("thread ", t.id, " in step ", k + 1, ": ", diff(s.want, got, st.vars))); }
                    if (m.stop) { break; }
                }
                if (!s.one && !s.obj.empty()) {
                    if (m.bound.has_value() == s.want.empty()) { throw Violation(cat("wrong verdict in step ", k + 1)); }
                    if (!s.want.empty()) {
                        I best = *std::min_element(s.costs.begin(), s.costs.end());
                        if (*m.bound != best) { throw Violation(cat("step ", k + 1, " ends with cost ", *m.bound, " but the optimum is ", best)); }
                    }
                }
            }
            ctx.outcome(hash_str(cat(st.text(), m.steps, m.th.empty() ? 0 : m.th[0].nvars(), m.th.empty() ? 0 : m.th[0].clauses_added)));
            return "";
        } catch (Violation &e) {
            return cat(e.what(), logging ? "\n--- execution\n" + m.log : "");
        }
    };
    do {
        auto r = one(false);
        ctx.count(EXEC);
        if (!r.empty()) {
            auto again = one(true);
            throw Violation(report(st.text(), conf, cat("strategy ", strategy, ", choices: ", ch.str(), "\n", again.empty() ? r + "\n(not repeated)" : again)));
        }
        ctx.heartbeat();
    } while (ch.next());
}

Program prefix(Program const &p, size_t n) {
    Program q = p;
    q.rules.resize(n);
    return q;
}

// text of rules [i, j), the first step also gets domains and choices
std::string slice(Program const &p, size_t i, size_t j) {
    Program q = p;
    q.rules.assign(p.rules.begin() + static_cast<long>(i), p.rules.begin() + static_cast<long>(j));
    if (i > 0) { q.extra.clear(); q.choice.clear(); }
    return q.text();
}

std::vector<Conf> mconfs() {
    auto cs = confs(-4, 9);
    return {cs[0], cs[1], cs[2], cs[3], cs[4], cs[5], cs[7], cs[1].with("order-heuristic", "max-chain").with("refine-reasons", "yes").with("add-order-clauses", "yes")};
}

bool undirected = false; // only the search that follows the strategy

void c29(Ctx &ctx) {
    auto cs = mconfs();
    if (!ctx.thorough()) { cs = {cs[0], cs[2], cs[4], cs[7]}; }
    struct Mode { int t1, t2; bool one; int absent{-1}; };
    std::vector<Mode> modes{{1, 1, false}, {1, 1, true}, {1, 2, false}, {2, 2, true}, {2, 1, false}, {2, 2, true, 0}, {2, 2, false, 1}};
    std::vector<Depth> depths = ctx.thorough() ? std::vector<Depth>{{0, 2}, {1, 2}, {0, 1, 1}} : std::vector<Depth>{{0, 1}, {1, 1}};
    if (undirected) { depths = {{0, 0}}; }
    for (auto const &p : programs()) {
        size_t n = p.p.rules.size();
        for (size_t cut = 0; cut <= n; ++cut) {
            // the objective is given in the first or the second step
            for (int o = 0; o < (p.obj.empty() ? 1 : 2); ++o) {
                Steps st;
                st.vars = p.p.vars;
                bool have = false;
                for (auto const &mode : modes) {
                    for (auto const &c : cs) {
                        for (int strategy : {0, 3, 4}) {
                            if ((strategy == 4 || (strategy == 3 && mode.absent >= 0)) && !ctx.thorough()) { continue; }
                            ctx.test([&] {
                                if (!have) {
                                    have = true;
                                    // an empty last step shows what the one before leaves behind
                                    for (size_t k = 0; k < 3; ++k) {
                                        Steps::Step s;
                                        if (k == 0) { s.text = slice(p.p, 0, cut); } else if (k == 1 && cut < n && cut > 0) { s.text = slice(p.p, cut, n); } else if (k == 1 && cut == 0) { Program q = p.p; q.extra.clear(); q.choice.clear(); s.text = q.text(); }
                                        if (k == 2 && cut == n) { break; }
                                        s.all = prefix(p.p, k == 0 ? cut : n);
                                        if (k >= static_cast<size_t>(o)) { s.obj = p.obj; }
                                        if (static_cast<int>(k) == o) { for (auto const &x : p.obj) { s.text += x.text(p.p.vars); } }
                                        s.want = brute(s.all);
                                        for (auto const &w : s.want) { s.costs.push_back(s.obj.empty() ? 0 : cost(s.obj, w.vals)); }
                                        st.steps.push_back(std::move(s));
                                    }
                                }
                                st.steps[0].threads = mode.t1;
                                st.steps[0].one = mode.one;
                                for (size_t k = 1; k < st.steps.size(); ++k) { st.steps[k].threads = mode.t2; }
                                for (size_t k = 0; k < st.steps.size(); ++k) { st.steps[k].absent = static_cast<int>(k) == mode.absent; }
                                for (auto d : depths) { explore(ctx, st, c, strategy, d); }
                                ctx.count(NONTRIV);
                                if (ctx.wants_sample()) { ctx.sample(st.text() + " " + c.str()); } else { ctx.skip_sample(); }
                            });
                        }
                    }
                }
            }
        }
    }
}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    if (id != "C29") { return 2; }
    auto d = program_check(id, "Every pool program cut into steps at every rule (followed by an empty step, objectives given in the first or second step) x 8 configurations x search strategies x modes (threads per step, complete search or interruption after the first model) x ALL choices at one search position of a step: every decision, backjump and restart of the controlled solver, then a deterministic search completes the step and all later ones. At the end of a step all literals added during search are removed together with the constraints over them and their numbers are used again, as in clasp. Checked in every step: clauses are implied, undo restores the state, the accepted assignments of every thread are exactly the brute-force solutions of the accumulated program (optimum for objectives). distinct = hash of steps, literals and clauses.", c29);
    d.counters = {{EXEC, "executions"}, {STATES, "decisions"}, {TRANS, "propagator_calls"}, {SOLS, "accepted_assignments"}, {CLAUSES, "clause_solution_pairs"}, {CHECKS, "states_compared"}};
    return run_check(d, argc - 2, argv + 2);
}
