// C35 other propagators and theories on the same control, C36 solve handles,
// C37 statements without constraints, C38 syntax trees of any origin
#include "pool.hh"
#include <atomic>
#include <mutex>
using namespace V;

namespace {

size_t hash_str(std::string const &s) { return std::hash<std::string>{}(s); }

// solutions of one complete search against the reference
void judge(Prog const &p, std::vector<Sol> const &want, std::vector<Sol> sols, bool exhausted, std::string const &where) {
    auto fail = [&](std::string const &m) { throw Violation(where + "\n" + m); };
    if (!exhausted) { fail("the search space was not exhausted"); }
    if (p.obj.empty()) {
        std::sort(sols.begin(), sols.end());
        if (sols != want) { fail(diff(want, sols, p.p.vars)); }
        return;
    }
    std::optional<I> best, prev;
    for (auto const &s : want) { I c = cost(p.obj, s.vals); if (!best || c < *best) { best = c; } }
    for (auto const &s : sols) {
        if (!std::binary_search(want.begin(), want.end(), s)) { fail("not a solution: " + show(s, p.p.vars)); }
        I c = cost(p.obj, s.vals);
        if (prev && c >= *prev) { fail(cat("cost ", c, " does not improve ", *prev)); }
        prev = c;
    }
    if (prev != best) { fail(cat("wrong optimum ", prev ? cat(*prev) : "none", " instead of ", best ? cat(*best) : "none")); }
}

std::vector<int> booleans(Program const &p) {
    std::set<int> r(p.choice.begin(), p.choice.end());
    for (auto const &x : p.rules) { if (x.head == Rule::BOOL) { r.insert(x.boolean); } }
    return {r.begin(), r.end()};
}

// {{{ C35 coexistence

using BClause = std::vector<std::pair<int, bool>>; // atom, sign

enum Mode { INIT, LEARNT, STATIC, CHECK, FIX, AUX, AUXLATE, DECIDE, UNWATCH, MODES };
char const *const MODE_NAMES[] = {"clause in init", "learnt clause when unit", "static clause when unit", "clause when total", "clause at fixpoint", "auxiliary literal in init", "auxiliary literal during search", "decision heuristic and clause when unit", "watches come and go"};

// enforces a clause over atoms of the program in one of several ways
struct Other : Clingo::Heuristic {
    BClause clause;
    Mode mode;
    bool flip;
    std::vector<Clingo::literal_t> lits; // solver literals
    std::vector<std::pair<Clingo::literal_t, std::vector<std::vector<Clingo::literal_t>>>> aux; // per thread
    Other(BClause c, Mode m, bool flip) : clause{std::move(c)}, mode{m}, flip{flip} {}

    void init(Clingo::PropagateInit &init) override {
        lits.clear();
        for (auto [a, neg] : clause) {
            auto it = init.symbolic_atoms().find(sym(std::string(1, BN[a])));
            Clingo::literal_t l = it != init.symbolic_atoms().end() ? init.solver_literal((*it).literal()) : -1;
            lits.push_back(neg ? -l : l);
        }
        aux.assign(init.number_of_threads(), {});
        init.set_check_mode(mode == CHECK ? Clingo::PropagatorCheckMode::Total : mode == FIX || mode == AUXLATE ? Clingo::PropagatorCheckMode::Both : Clingo::PropagatorCheckMode::None);
        if (mode == INIT) { init.add_clause(lits); }
        if (mode == AUX) {
            auto x = init.add_literal();
            std::vector<Clingo::literal_t> c{lits};
            c.push_back(-x);
            if (!init.add_clause(c)) { return; }
            for (auto l : lits) { if (!init.add_clause({-l, x})) { return; } }
            init.add_clause({x});
        }
        if (mode == LEARNT || mode == STATIC || mode == AUXLATE || mode == DECIDE || mode == UNWATCH) {
            for (auto l : lits) { init.add_watch(-l); }
        }
    }
    bool unit(Clingo::PropagateControl &ctl, Clingo::ClauseType type) {
        auto ass = ctl.assignment();
        size_t open = 0;
        for (auto l : lits) {
            if (ass.is_true(l)) { return true; }
            if (!ass.is_false(l)) { ++open; }
        }
        if (open > 1) { return true; }
        return ctl.add_clause(lits, type) && ctl.propagate();
    }
    // defines a new literal and forbids it to be false
    void late(Clingo::PropagateControl &ctl) {
        auto &[x, todo] = aux[ctl.thread_id()];
        if (x == 0) {
            x = ctl.add_literal();
            ctl.add_watch(x);
            ctl.add_watch(-x);
            for (auto l : lits) { todo.push_back({-l, x}); }
            todo.push_back(lits);
            todo.back().push_back(-x);
        }
        while (!todo.empty()) {
            // definitions must not be forgotten, and adding one can require to backtrack first
            auto c = todo.back();
            todo.pop_back();
            if (!ctl.add_clause(c, Clingo::ClauseType::Static)) { return; }
        }
        if (!ctl.propagate()) { return; }
        if (ctl.assignment().is_false(x)) { ctl.add_clause(lits) && ctl.propagate(); }
    }
    void propagate(Clingo::PropagateControl &ctl, Clingo::LiteralSpan changes) override {
        switch (mode) {
            case LEARNT: case DECIDE: unit(ctl, Clingo::ClauseType::Learnt); break;
            case STATIC: unit(ctl, Clingo::ClauseType::Static); break;
            case UNWATCH:
                // the other literals are watched again by the clause once it is unit
                if (!unit(ctl, Clingo::ClauseType::Learnt)) { return; }
                for (auto l : changes) { if (ctl.assignment().level(l) == 0 && ctl.has_watch(l)) { ctl.remove_watch(l); } }
                for (auto l : lits) { if (!ctl.has_watch(-l)) { ctl.add_watch(-l); } }
                break;
            case AUXLATE: late(ctl); break;
            default: break;
        }
    }
    void check(Clingo::PropagateControl &ctl) override {
        if (mode == AUXLATE && !lits.empty()) { late(ctl); }
        if (mode == CHECK || mode == FIX) { unit(ctl, Clingo::ClauseType::Learnt); }
    }
    Clingo::literal_t decide(Clingo::id_t, Clingo::Assignment const &ass, Clingo::literal_t fallback) override {
        if (mode == DECIDE) { for (auto l : lits) { if (!ass.is_fixed(l) && !ass.is_true(l) && !ass.is_false(l)) { return flip ? -l : l; } } }
        return fallback;
    }
};

char const *const OTHER_THEORY = "#theory other { t { - : 1, unary; + : 0, binary, left; & : 0, binary, left }; &other/1 : t, {<=}, t, any; &other/0 : t, any }. ";

struct Coex {
    Prog const &p;
    std::vector<Sol> want;
    BClause clause;
    Mode mode;
    bool flip, before, theory;
};

void coexist(Ctx &ctx, Coex const &c, Conf const &conf) {
    std::string prg = text(c.p);
    // atoms of another theory are free in bodies and without effect in heads
    if (c.theory) { prg += cat(OTHER_THEORY, "h :- &other(1){ x, -y; a + 2 } <= x. &other { sum; 1 & 2 : a } :- h. a :- a. &other(2) { } :- not h. "); }
    std::string what = cat("another propagator registered ", c.before ? "before" : "after", " clingcon enforces {");
    for (auto [a, neg] : c.clause) { what += cat(" ", neg ? "-" : "", BN[a]); }
    what += cat(" } by ", MODE_NAMES[c.mode], c.flip ? " (flipped)" : "");
    try {
        Other o{c.clause, c.mode, c.flip};
        auto reg = [&](Clingo::Control &ctl) { ctl.register_propagator(static_cast<Clingo::Heuristic &>(o), false); };
        Theory t{conf, quiet, c.before ? std::function<void(Clingo::Control &)>{reg} : nullptr};
        if (!c.before) { reg(t.ctl()); }
        t.add(prg + "#program n. { i }. ");
        auto want = c.want;
        for (int step = 0; step < 3; ++step) {
            // the last step only repeats the second
            if (step < 2) { t.ground(step == 0 ? "base" : "n"); }
            t.prepare();
            if (step == 1) {
                size_t n = want.size();
                for (size_t i = 0; i < n; ++i) { want.push_back(want[i]); want.back().mask |= 1ULL << 8; }
                std::sort(want.begin(), want.end());
            }
            Handler h{t, c.p.p.vars};
            auto res = t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
            ctx.count(EXEC);
            ctx.count(SOLS, h.sols.size());
            judge(c.p, want, h.sols, res.is_exhausted(), report(prg, conf, cat(what, ", step ", step + 1)));
        }
        ctx.count(NONTRIV, !want.empty());
        ctx.outcome(hash_str(prg) + want.size());
    } catch (Violation &) {
        throw;
    } catch (std::exception &e) {
        throw Violation(report(prg, conf, what + "\nerror: " + e.what()));
    }
}

void c35(Ctx &ctx) {
    bool T = ctx.thorough();
    auto ps = programs();
    auto cs = confs(-4, 9);
    cs.push_back(cs[0].arg("-t2"));
    cs.push_back(cs[4].arg("-t2"));
    size_t n = 0;
    for (auto const &p : ps) {
        for (bool theory : {false, true}) {
            Program q = p.p;
            if (theory) { q.choice.push_back(7); }
            auto bs = booleans(q);
            // parts of the pool without atoms get some
            if (bs.empty()) { q.choice = {0, 1}; bs = {0, 1}; }
            auto all = std::make_shared<std::vector<Sol>>();
            auto pr = std::make_shared<Prog>(Prog{q, p.obj});
            if (theory) { pr->p.choice.erase(std::remove(pr->p.choice.begin(), pr->p.choice.end(), 7), pr->p.choice.end()); }
            std::vector<BClause> clauses;
            for (size_t i = 0; i < bs.size(); ++i) {
                for (bool ni : {false, true}) {
                    clauses.push_back({{bs[i], ni}});
                    for (size_t j = i + 1; j < bs.size(); ++j) { for (bool nj : {false, true}) { clauses.push_back({{bs[i], ni}, {bs[j], nj}}); } }
                }
            }
            for (auto const &cl : clauses) {
                for (int m = 0; m < MODES; ++m) {
                    for (bool flip : {false, true}) {
                        if (flip && m != DECIDE) { continue; }
                        for (bool before : {false, true}) {
                            for (size_t ci = 0; ci < cs.size(); ++ci) {
                                bool par = ci >= cs.size() - 2;
                                // clasp does not support several threads, steps, and objectives (see DESIGN.md)
                                if (par && (!p.obj.empty() || m == AUXLATE)) { continue; }
                                ++n;
                                if (!T && (ci + n / cs.size()) % 4 != 0) { continue; }
                                ctx.test([&, ci] {
                                    if (all->empty()) { *all = brute(q); }
                                    std::vector<Sol> want;
                                    for (auto const &s : *all) {
                                        bool sat = false;
                                        for (auto [a, neg] : cl) { sat = sat || (((s.mask >> a) & 1) != 0) != neg; }
                                        if (sat) { want.push_back(s); }
                                    }
                                    coexist(ctx, {*pr, std::move(want), cl, static_cast<Mode>(m), flip, before, theory}, cs[ci]);
                                });
                            }
                        }
                    }
                }
            }
        }
    }
}

// }}}
// {{{ C36 solve handles

struct Stop {
    int mode;  // 0 callback, 1 yield, 2 async, 3 async and yield
    int k;     // after this many models
    int end;   // 0 cancel, 1 close the handle, 2 the callback returns false, 3 interrupt, 4 get
    std::string str() const {
        static char const *const M[] = {"callback", "yield", "async", "async and yield"};
        static char const *const E[] = {"cancel", "close", "callback returns false", "interrupt", "get"};
        return cat(M[mode], ", ", E[end], " after ", k, " models");
    }
};

struct Partial : Handler {
    using Handler::Handler;
    std::mutex m;
    std::atomic<int> seen{0};
    int k{-1};
    bool stop{false}, inter{false};
    bool on_model(Clingo::Model &m) override {
        std::lock_guard<std::mutex> g{this->m};
        Handler::on_model(m);
        ++seen;
        if (seen == k && inter) { t.ctl().interrupt(); }
        return !(seen == k && stop);
    }
};

std::vector<I> current(Theory &t, std::vector<std::string> const &vars, clingo_id_t thread) {
    std::vector<I> r;
    for (auto const &v : vars) {
        size_t idx = 0;
        if (clingcon_lookup_symbol(t.c(), sym(v).to_c(), &idx) && clingcon_assignment_has_value(t.c(), thread, idx)) {
            clingcon_value_t val;
            clingcon_assignment_get_value(t.c(), thread, idx, &val);
            r.push_back(val.int_number);
        } else { r.push_back(UNDEF); }
    }
    return r;
}

void partial(Ctx &ctx, Theory &t, Prog const &p, std::vector<Sol> const &want, Stop const &s, std::string const &where) {
    auto fail = [&](std::string const &m) { throw Violation(where + "\n" + m); };
    Partial h{t, p.p.vars};
    h.k = s.k;
    h.stop = s.end == 2;
    h.inter = s.end == 3;
    bool yield = (s.mode & 1) != 0, async = (s.mode & 2) != 0;
    {
        auto handle = t.ctl().solve(Clingo::LiteralSpan{}, &h, async, yield);
        bool closed = false;
        if (yield) {
            for (int n = 0; n < s.k || s.end >= 2; ++n) {
                handle.resume();
                auto const &m = handle.model();
                if (!static_cast<bool>(m)) { break; }
                std::vector<I> last;
                uint64_t mask;
                {
                    std::lock_guard<std::mutex> g{h.m};
                    if (h.sols.empty()) { fail("a model was yielded before it was reported"); }
                    last = h.sols.back().vals;
                    mask = h.sols.back().mask;
                }
                for (int i = 0; i < 2; ++i) {
                    auto vals = current(t, p.p.vars, m.thread_id());
                    if (vals != last) { fail(cat("values of the current model ", show({mask, vals}, p.p.vars), " differ from the reported ones ", show({mask, last}, p.p.vars))); }
                }
                for (size_t i = 0; i < BN.size(); ++i) { if (m.contains(sym(std::string(1, BN[i]))) != (((mask >> i) & 1) != 0)) { fail("the current model differs from the reported one"); } }
            }
        } else if (async && (s.end == 0 || s.end == 1)) {
            while (h.seen < s.k && !handle.wait(0.0005)) {}
        }
        if (s.end == 0) { handle.cancel(); }
        else if (s.end == 1) { handle.close(); closed = true; }
        if (!closed) {
            auto res = handle.get();
            bool stopped = s.end < 4;
            if (!h.sols.empty() && !res.is_satisfiable()) { fail("satisfiable, but the verdict differs"); }
            // clasp can report an interrupted search as unsatisfiable
            if (res.is_unsatisfiable() && !res.is_interrupted() && !want.empty()) { fail("unsatisfiable, but there are solutions"); }
            if (!stopped && !res.is_exhausted()) { fail("the search was not exhausted"); }
            if (res.is_exhausted() && !res.is_interrupted()) { judge(p, want, h.sols, true, where); }
        }
    }
    ctx.count(EXEC);
    ctx.count(SOLS, h.sols.size());
    std::set<Sol> once;
    std::optional<I> prev;
    for (auto const &x : h.sols) {
        if (!std::binary_search(want.begin(), want.end(), x)) { fail("not a solution: " + show(x, p.p.vars)); }
        if (!once.insert(x).second) { fail("repeated solution: " + show(x, p.p.vars)); }
        if (!p.obj.empty()) {
            I c = cost(p.obj, x.vals);
            if (prev && c >= *prev) { fail("no improvement"); }
            prev = c;
        }
    }
}

void c36(Ctx &ctx) {
    bool T = ctx.thorough();
    auto ps = programs();
    auto cs = confs(-4, 9);
    cs.push_back(cs[0].arg("-t2"));
    cs.push_back(cs[4].arg("-t2"));
    std::vector<Stop> stops;
    for (int mode = 0; mode < 4; ++mode) {
        for (int end = 0; end < 5; ++end) {
            for (int k : {0, 1, 2, 5}) {
                // without models as rendezvous the search may run as long as it likes
                if (k == 0 && (end == 2 || end == 3)) { continue; }
                if (mode == 0 && (end == 0 || end == 1) && k > 0) { continue; }
                if (end == 4 && k > 0) { continue; }
                stops.push_back({mode, k, end});
            }
        }
    }
    auto history = [&](size_t pi, size_t ci, std::vector<Stop> const &hs) {
        bool par = ci >= cs.size() - 2;
        if (par && !ps[pi].obj.empty()) { return; }
        // clasp itself crashes if a parallel search is stopped before its threads are set up (also without any theory)
        if (par && std::any_of(hs.begin(), hs.end(), [](Stop const &s) { return s.mode > 0 && s.end < 2 && s.k == 0; })) { return; }
        ctx.test([&, pi, ci] {
            auto const &p = ps[pi];
            auto want = brute(p.p);
            std::string prg = text(p), where = report(prg, cs[ci], "history:");
            try {
                Theory t{cs[ci]};
                t.add(prg + "#program n. { i }. ");
                t.ground();
                t.prepare();
                for (auto const &s : hs) {
                    where += " " + s.str() + ";";
                    partial(ctx, t, p, want, s, where);
                }
                for (int step = 0; step < 2; ++step) {
                    where += " complete;";
                    Handler h{t, p.p.vars};
                    auto res = t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
                    ctx.count(EXEC);
                    ctx.count(SOLS, h.sols.size());
                    judge(p, want, h.sols, res.is_exhausted(), where);
                    if (step == 0) {
                        where += " extend;";
                        t.ground("n");
                        t.prepare();
                        size_t n = want.size();
                        for (size_t i = 0; i < n; ++i) { want.push_back(want[i]); want.back().mask |= 1ULL << 8; }
                        std::sort(want.begin(), want.end());
                    }
                }
                ctx.count(NONTRIV, !want.empty());
                ctx.outcome(hash_str(where));
            } catch (Violation &) {
                throw;
            } catch (std::exception &e) {
                throw Violation(where + "\nerror: " + e.what());
            }
        });
    };
    for (size_t pi = 0; pi < ps.size(); ++pi) {
        for (size_t ci = 0; ci < cs.size(); ++ci) { for (auto const &s : stops) { history(pi, ci, {s}); } }
    }
    size_t n = 0;
    for (size_t pi = 0; pi < ps.size(); ++pi) {
        for (auto const &s : stops) {
            for (auto const &u : stops) {
                for (size_t ci = 0; ci < cs.size(); ++ci) {
                    ++n;
                    if (T || n % 29 == 0) { history(pi, ci, {s, u}); }
                }
            }
        }
    }
}

// }}}
// {{{ C37 rewriting

std::vector<std::string> statements() {
    return {
        "a.", "a(1;2).", "a(1..3).", "a(X) :- b(X).", "a ; b :- c.", "{ a }.", "{ a; b : c } = 1 :- d.", "1 { a(X) : b(X) } 2.", "{ a(1;2); b(X;Y) : c(X,Y) }.",
        ":- a, not b.", ":- not not a.", ":- a(1;2), b(3;4).", "a :- b(X;Y), c(X,Y).", "a :- b : c.", "a :- b(X) : c(X;X+1), not d(X); e.", "a : b; c : d.",
        "a :- #count { X : b(X) } > 1.", "a :- not 1 #sum { X,Y : b(X,Y), not c; 1;2 } 3.", "a :- #min { X : b(X) } = Y, c(Y).", "#sum+ { 1,x : a : b; 2 : c } = 2 :- d.", "a :- { b; c : d } 1.",
        ":- #sum { 1 : a; 2 : b } >= 2.", ":- X = #max { Y : b(Y) }, X > 2.", "-a :- not -b.", "a(X+1,\"s\",f(X),(X,),-X,|X|,X**2,X\\2,X/2,X&1,X?2,X^3,~X) :- b(X).", "a(X) :- X = 1..3, X != 2, X < 5.", "a :- 1 < X <= 3, b(X).",
        "a(@f(1)).", "a(#inf,#sup).", "a(_) :- b(_,_).", "#true.", "a :- #false.", "#show.", "#show a/1.", "#show -a/1.", "#show X : a(X), not b.", "#show (1;2) : a.", "#minimize { X@2,Y : a(X,Y), not b; 3 : c }.", "#maximize { 1 : a; 2@(1;2) : b }.", ":~ a. [1@2,x]", ":~ a(X;Y). [X@Y]",
        "#program p(k).", "#program base.", "#external a.", "#external a(X) : b(X;Y). [true]", "#edge (X,Y) : a(X,Y).", "#edge (1,2;2,1).", "#heuristic a(X) : b(X). [X@2,true]", "#project a/1.", "#project a(X) : b(X).", "#const n = 3.", "#const m = 2. [override]", "#defined a/1.", "a(n) :- b(n).",
        "#theory t { u { - : 1, unary; + : 0, binary, left }; &foo/0 : u, any; &foo/2 : u, {<=,=}, u, head; &bar/1 : u, body; &baz/0 : u, directive }.",
        "&foo { }.", "&foo { a; b, 1 : c, not d } :- e.", "&foo(1,X) { a + X : b(X) } <= -X :- b(X).", "a :- &foo { 1; 2 }.", ":- not &bar(X) { Y : c(Y) }, b(X).", "a :- not not &foo { f(1,-2); [1,2]; {3}; (4,) }.", "&foo(1;2,3) { 1 }.", "a :- &bar(1;2) { X : b(X;Y) }.", "&baz { 1 }.", ":- &foo { a : b }, &bar(2) { }, c.", "&summary { 1 } <= 2.", "a :- &diffs { 1 } >= 3.", "&sum(1) { 1 } <= 2.",
    };
}

std::vector<std::string> rewrite(Theory &t, std::string const &prg) {
    std::vector<std::string> r;
    struct D { clingcon_theory_t *t; std::vector<std::string> *r; } d{t.c(), &r};
    handle_error(clingo_ast_parse_string(
        prg.c_str(),
        [](clingo_ast_t *ast, void *data) -> bool {
            auto *d = static_cast<D *>(data);
            return clingcon_rewrite_ast(
                d->t, ast,
                [](clingo_ast_t *a, void *data) -> bool {
                    size_t n = 0;
                    if (!clingo_ast_to_string_size(a, &n)) { return false; }
                    std::string s(n, 0);
                    if (!clingo_ast_to_string(a, &s[0], n)) { return false; }
                    s.pop_back();
                    static_cast<D *>(data)->r->push_back(s);
                    return true;
                },
                d);
        },
        &d, nullptr, [](clingo_warning_t, char const *, void *) {}, nullptr, 20));
    return r;
}

std::vector<std::string> unpooled(std::string const &prg) {
    std::vector<std::string> r;
    Clingo::AST::parse_string(prg.c_str(), [&](Clingo::AST::Node const &n) { for (auto const &x : n.unpool()) { r.push_back(x.to_string()); } }, quiet);
    return r;
}

std::vector<std::string> plain_models(std::string const &prg, std::vector<std::string> const &args, bool clingcon, std::vector<std::pair<std::string, std::string>> const &opts, bool &sat) {
    std::vector<std::string> r;
    auto solve = [&](Clingo::Control &ctl, std::function<void(Clingo::Model &)> const &f) {
        struct H : Clingo::SolveEventHandler {
            std::function<void(Clingo::Model &)> f;
            std::vector<std::string> *r;
            bool on_model(Clingo::Model &m) override {
                if (f) { f(m); }
                std::vector<std::string> a;
                for (auto s : m.symbols(Clingo::ShowType::Shown)) { a.push_back(s.to_string()); }
                std::sort(a.begin(), a.end());
                std::string s;
                for (auto const &x : a) { s += x + " "; }
                for (auto c : m.cost()) { s += cat("[", c, "]"); }
                r->push_back(s);
                return true;
            }
        } h;
        h.f = f;
        h.r = &r;
        sat = ctl.solve(Clingo::LiteralSpan{}, &h, false, false).get().is_satisfiable();
    };
    try {
    if (clingcon) {
        Theory t{Conf{args, opts}};
        t.add(prg);
        t.ground();
        t.prepare();
        solve(t.ctl(), [&](Clingo::Model &m) { handle_error(clingcon_on_model(t.c(), m.to_c())); });
    } else {
        std::vector<char const *> a;
        for (auto const &x : args) { a.push_back(x.c_str()); }
        Clingo::Control ctl{Clingo::StringSpan{a.data(), a.size()}, quiet, 20};
        Clingo::AST::with_builder(ctl, [&](Clingo::AST::ProgramBuilder &b) { Clingo::AST::parse_string(prg.c_str(), [&](Clingo::AST::Node const &n) { b.add(n); }, quiet); });
        ctl.ground({{"base", {}}});
        solve(ctl, nullptr);
    }
    } catch (std::exception const &e) {
        throw Violation(cat(clingcon ? "clingcon" : "clingo", " reports an error: ", e.what(), "\n", prg));
    }
    std::sort(r.begin(), r.end());
    return r;
}

void c37(Ctx &ctx) {
    bool T = ctx.thorough();
    auto st = statements();
    std::vector<std::vector<std::pair<std::string, std::string>>> opts{{}, {{"shift-constraints", "no"}}};
    auto check_text = [&](std::string const &prg) {
        for (auto const &o : opts) {
            Theory t{Conf{{}, o}};
            auto got = rewrite(t, prg), want = unpooled(prg);
            ctx.count(EXEC);
            ctx.count(NONTRIV);
            if (got != want) {
                std::string m = "the program is changed to:\n";
                for (auto const &x : got) { m += "  " + x + "\n"; }
                m += "instead of:\n";
                for (auto const &x : want) { m += "  " + x + "\n"; }
                throw Violation(report(prg, Conf{{}, o}, m));
            }
            ctx.outcome(hash_str(prg));
        }
    };
    for (auto const &a : st) {
        ctx.test([&] { check_text(a); });
        for (auto const &b : st) { ctx.test([&] { check_text(a + "\n" + b); }); }
    }
    // answer sets of complete plain programs
    std::string base = "{ p(1..2); q; r }. d(1..3). ";
    std::vector<std::string> rules{
        "a(X) :- d(X), X > 1.", "b ; c :- q.", "{ e(X) : d(X) } 1 :- p(1).", "f(1;2) :- p(1;2).", "g(X) :- p((1;2)), d(X), X < 3.", ":- p(1;3), q.", ":- not p(1), not q.", "a(X) :- #count { Y : p(Y) } = X.", "h :- #sum { X : p(X); 3 : q } >= 3.",
        "k :- p(X) : d(X), X < 3.", "l(X) : p(X) :- r.", "-q :- r.", "#minimize { X@2,x : p(X); 2@1 : q }.", ":~ not p(1). [2@2]", ":~ p(1;2). [1,y]", "#show p/1.", "#show m(X) : p(X;X+1).", "#external z. y :- not z.", "#edge (1,2) : q. #edge (2,1) : r.", "#heuristic q. [1,true]", "#const n = 2. a(n) :- q.",
        "{ s(1;2) } = 1.", "t(X) :- X = #max { Y : p(Y) }.", "u :- 1 { q; r } 1.", "v(X) :- d(X), d(X+1;X+2), p(X).", "w((1;2),X) :- p(X).", "#sum { 1 : q : p(1); 2 : r } = 1 :- p(2).",
        "#theory o { t { }; &o/0 : t, any }. j :- &o { 1 }. &o { X : p(X) } :- q.",
    };
    for (size_t i = 0; i < rules.size(); ++i) {
        for (size_t j = i; j < rules.size(); ++j) {
            for (size_t k = j; k < rules.size(); ++k) {
                // quick: all pairs and the triples of a diagonal band
                if (!T && k != j && k != j + 1) { continue; }
                std::string prg = base + rules[i] + " " + (j != i ? rules[j] : "") + " " + (k != j ? rules[k] : "");
                for (std::vector<std::string> const &args : {std::vector<std::string>{"0", "--opt-mode=enum"}, std::vector<std::string>{"0", "--opt-mode=optN"}, std::vector<std::string>{"0", "-e", "cautious", "--opt-mode=ignore"}}) {
                    ctx.test([&] {
                        // the sequence of improving models is the choice of the solver
                        bool s0 = false, s1 = false;
                        bool optn = args.size() == 2 && args[1] == "--opt-mode=optN" && prg.find("#minimize") + prg.find(":~") != 2 * std::string::npos;
                        bool cautious = args.size() > 2;
                        auto want = plain_models(prg, args, false, {}, s0);
                        auto last = [](std::vector<std::string> v) { return v; };
                        for (auto const &o : opts) {
                            auto got = plain_models(prg, args, true, o, s1);
                            ctx.count(EXEC);
                            ctx.count(SOLS, got.size());
                            if (s0 != s1) { throw Violation(report(prg, Conf{args, o}, "the verdict differs from clingo's")); }
                            if (!optn && !cautious && last(got) != last(want)) { throw Violation(report(prg, Conf{args, o}, cat("clingo has ", want.size(), " and clingcon ", got.size(), " models or they differ"))); }
                            if (cautious && !got.empty() && *std::min_element(got.begin(), got.end(), [](auto const &a, auto const &b) { return a.size() < b.size(); }) != *std::min_element(want.begin(), want.end(), [](auto const &a, auto const &b) { return a.size() < b.size(); })) {
                                throw Violation(report(prg, Conf{args, o}, "the cautious consequences differ"));
                            }
                            if (optn) {
                                std::set<std::string> a(got.begin(), got.end()), b(want.begin(), want.end());
                                // all optimal models are among both
                                auto opt = [](std::set<std::string> const &s) {
                                    auto vec = [](std::string const &m) { std::vector<I> r; for (size_t i = m.find('['); i != std::string::npos; i = m.find('[', i + 1)) { r.push_back(std::stoll(m.substr(i + 1))); } return r; };
                                    std::vector<I> best;
                                    for (auto const &m : s) { auto v = vec(m); if (best.empty() || v < best) { best = v; } }
                                    std::set<std::string> r;
                                    for (auto const &m : s) { if (vec(m) == best) { r.insert(m); } }
                                    return r;
                                };
                                if (opt(a) != opt(b)) { throw Violation(report(prg, Conf{args, o}, "the optimal models differ from clingo's")); }
                            }
                        }
                        ctx.count(NONTRIV, s0);
                        ctx.outcome(hash_str(prg));
                    });
                }
            }
        }
    }
}

// }}}

// {{{ C38 syntax trees of any origin

enum Form { PARSED, SYMBOLIC, DEEP, REPARSED, UNPOOLED, SHARED, DOUBLE, COMPLEMENT, FORMS };
char const *const FORM_NAMES[] = {"as parsed", "names as symbolic terms", "deep copies", "printed and parsed again", "unpooled beforehand", "rewritten before by another theory", "#true and #false doubly negated", "#true and #false as negated complements"};

// writes Boolean constants without sign, with double negation or with negation
struct Constants {
    int sign;
    Clingo::AST::Node operator()(Clingo::AST::Node const &n) const {
        using namespace Clingo::AST;
        if (n.type() == Type::Literal) {
            auto atom = n.get<Node>(Attribute::Atom);
            if (atom.type() == Type::BooleanConstant) {
                bool value = (atom.get<int>(Attribute::Value) != 0) != (n.get<int>(Attribute::Sign) == 1);
                auto ret = n.copy(), ret_atom = atom.copy();
                ret_atom.set(Attribute::Value, static_cast<int>(value != (sign == 1)));
                ret.set(Attribute::Sign, sign);
                ret.set(Attribute::Atom, ret_atom);
                return ret;
            }
        }
        return n.transform_ast(*this);
    }
};

std::vector<Clingo::AST::Node> trees(std::string const &prg, Form form) {
    using namespace Clingo::AST;
    std::vector<Node> r;
    struct Symbolic {
        Node operator()(Node const &n) const {
            if (n.type() == Type::TheoryAtom) {
                auto term = n.get<Node>(Attribute::Term);
                if (term.type() == Type::Function && term.get<NodeVector>(Attribute::Arguments).empty()) {
                    auto ret = n.copy();
                    ret.set(Attribute::Term, Node{Type::SymbolicTerm, term.get<Clingo::Location>(Attribute::Location), Clingo::Function(term.get<char const *>(Attribute::Name), {})});
                    return ret;
                }
            }
            return n.transform_ast(*this);
        }
    };
    parse_string(prg.c_str(), [&](Node const &n) {
        switch (form) {
            case SYMBOLIC: { r.push_back(Symbolic{}(n)); break; }
            case DEEP: { r.push_back(n.deep_copy()); break; }
            case DOUBLE: { r.push_back(Constants{2}(n)); break; }
            case COMPLEMENT: { r.push_back(Constants{1}(n)); break; }
            case UNPOOLED: { for (auto const &x : n.unpool()) { r.push_back(x); } break; }
            default: { r.push_back(n); break; }
        }
    }, quiet);
    if (form == REPARSED) {
        std::string s;
        for (auto const &n : r) { s += n.to_string() + "\n"; }
        r.clear();
        bool first = true;
        parse_string(s.c_str(), [&](Node const &n) { if (!first) { r.push_back(n); } first = false; }, quiet);
    }
    return r;
}

std::vector<Clingo::AST::Node> rewritten(clingcon_theory_t *t, Clingo::AST::Node const &n) {
    std::vector<Clingo::AST::Node> r;
    handle_error(clingcon_rewrite_ast(t, n.to_c(), [](clingo_ast_t *a, void *data) -> bool {
        clingo_ast_acquire(a);
        static_cast<std::vector<Clingo::AST::Node> *>(data)->emplace_back(a);
        return true;
    }, &r));
    return r;
}

std::string print(std::vector<Clingo::AST::Node> const &ns) {
    std::string r;
    for (auto const &n : ns) { r += n.to_string() + "\n"; }
    return r;
}

// rewrites with checks: the input stays and rewriting again gives the same
std::vector<Clingo::AST::Node> checked(Theory &t, Theory *other, Clingo::AST::Node const &n) {
    std::string before = n.to_string();
    if (other != nullptr) { rewritten(other->c(), n); }
    auto r = rewritten(t.c(), n);
    std::string first = print(r);
    if (n.to_string() != before) { throw Violation("rewriting changes its argument\n  " + before + "\nto\n  " + n.to_string()); }
    auto again = rewritten(t.c(), n);
    if (print(again) != first) { throw Violation("rewriting\n  " + before + "\ngives first\n  " + first + "and then\n  " + print(again)); }
    if (print(r) != first) { throw Violation("rewriting\n  " + before + "\nchanges the result of rewriting it before\n  " + first); }
    return r;
}

std::vector<std::string> theory_statements() {
    std::vector<std::string> elems{"", "x", "2*x", "x; y", "x; x", "x : p(X)", "X*x(X) : p(X)", "x; -y : p(X), q(X,Y)", "x(1;2)", "x : p(1;2)", "x : p(X;Y)", "x : not p(_)", "-2*x(X,Y) : q(X,Y); y : p(X); 3", "x : p(X), X > 1"};
    std::vector<std::string> names{"sum", "nsum", "diff", "distinct", "disjoint", "dom", "minimize", "maximize", "show", "sum(a)", "sums", "__sum_h"};
    std::vector<std::string> r;
    for (auto const &name : names) {
        for (auto elem : elems) {
            if (name == "diff") { elem = elem.empty() ? elem : elem == "x" ? "x-y" : "x-y; " + elem; }
            bool rel = name.substr(0, 3) == "sum" || name == "nsum" || name == "diff" || name == "__sum_h";
            auto atom = [&](char const *op, char const *rhs) { return "&" + name + " { " + elem + " }" + (rel || *rhs == 'w' ? cat(" ", op, " ", rhs) : std::string()); };
            for (char const *op : {"<=", "=", "!=", "<"}) {
                if (!rel && op[0] != '=') { continue; }
                if (name == "diff" && (op[0] != '<' || op[1] != '=')) { continue; }
                auto a = atom(op, name == "dom" ? "w" : "3");
                r.push_back(a + ".");
                r.push_back(a + " :- a, not b.");
                if (!rel) { continue; }
                r.push_back("a :- " + a + ".");
                r.push_back("a :- not " + a + ", b.");
                r.push_back("a; b :- not not " + a + ".");
                r.push_back(":- " + a + ".");
                r.push_back(":- b, not " + a + ", not " + a + ".");
                r.push_back("not #false :- " + a + ".");
                r.push_back("#true :- not " + a + ", #true, not #false.");
                r.push_back("#false :- not not " + a + ", c.");
                r.push_back("{ a; b } :- c, " + a + ".");
                r.push_back("&sum { z } > 1 :- " + a + ".");
                r.push_back(":~ " + a + ". [1]");
                r.push_back("#show a : " + a + ".");
                r.push_back("#minimize { 1 : a } . :- #count { 1 : a; 2 : b } > 1, " + a + ".");
            }
        }
    }
    return r;
}

void c38(Ctx &ctx) {
    bool T = ctx.thorough();
    std::vector<std::vector<std::pair<std::string, std::string>>> opts{{}, {{"shift-constraints", "no"}}};
    // texts: the result does not depend on the form
    for (auto const &st : theory_statements()) {
        ctx.test([&] {
            for (auto const &o : opts) {
                // a statement is rewritten or rejected, whatever its form
                std::optional<std::string> want;
                for (int f = 0; f < FORMS; ++f) {
                    Theory t{Conf{{}, o}}, other{Conf{{}, opts[o.empty() ? 1 : 0]}};
                    std::string got;
                    try {
                        for (auto const &n : trees(st, static_cast<Form>(f))) { for (auto const &x : checked(t, f == SHARED ? &other : nullptr, n)) { got += print({Constants{0}(x)}); } }
                    } catch (Violation &v) {
                        throw Violation(report(st, Conf{{}, o}, cat("form: ", FORM_NAMES[f], "\n", v.what())));
                    } catch (std::exception &e) {
                        got = cat("error: ", e.what());
                    }
                    ctx.count(EXEC);
                    if (!want) { want = got; ctx.count(NONTRIV, got.substr(0, 5) != "error"); ctx.outcome(hash_str(got)); }
                    if (*want != got) { throw Violation(report(st, Conf{{}, o}, cat("form: ", FORM_NAMES[f], "\n", got, "instead of\n", *want))); }
                }
            }
        });
    }
    // solutions
    auto ps = programs();
    auto cs = confs(-4, 9);
    size_t n = 0;
    for (auto const &p : ps) {
        for (int f = 1; f < FORMS; ++f) {
            for (size_t ci = 0; ci < cs.size(); ++ci) {
                if (!T && ++n % 3 != 0) { continue; }
                ctx.test([&, f, ci] {
                    auto want = brute(p.p);
                    std::string prg = text(p), where = report(prg, cs[ci], cat("form: ", FORM_NAMES[f]));
                    try {
                        Theory t{cs[ci]}, other{cs[0]};
                        Clingo::AST::with_builder(t.ctl(), [&](Clingo::AST::ProgramBuilder &b) {
                            for (auto const &n : trees(prg, static_cast<Form>(f))) {
                                for (auto const &x : checked(t, f == SHARED ? &other : nullptr, n)) { b.add(x); }
                            }
                        });
                        t.ground();
                        t.prepare();
                        Handler h{t, p.p.vars};
                        auto res = t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
                        ctx.count(EXEC);
                        ctx.count(SOLS, h.sols.size());
                        judge(p, want, h.sols, res.is_exhausted(), where);
                        ctx.count(NONTRIV, !want.empty());
                        ctx.outcome(hash_str(where));
                    } catch (Violation &) {
                        throw;
                    } catch (std::exception &e) {
                        throw Violation(where + "\nerror: " + e.what());
                    }
                });
            }
        }
    }
}

// }}}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    if (id == "C35") { return run_check(program_check(id, "pool programs (alone and with atoms of another theory) together with a second propagator that enforces every clause of at most two literals in nine ways (in init, lazily, on total assignments, with auxiliary literals, as decision heuristic, ...), registered before or after clingcon, over three solve calls; compared with brute force", c35), argc - 2, argv + 2); }
    if (id == "C36") { return run_check(program_check(id, "pool programs under all configurations: every way to start a search (callback, yield, async, both), to end it after 0, 1, 2 or 5 models (cancel, close, callback, interrupt, to the end), pairs of them, followed by complete searches before and after an extension; values of yielded models; compared with brute force", c36), argc - 2, argv + 2); }
    if (id == "C38") { return run_check(program_check(id, "statements with all theory atoms in all positions: every way to obtain their syntax trees (names as symbolic terms, deep copies, unpooled, parsed again, rewritten before, signed Boolean constants) gives the same result and leaves the argument unchanged; pool programs in all forms compared with brute force", c38), argc - 2, argv + 2); }
    if (id == "C37") { return run_check(program_check(id, "all single statements and ordered pairs of statements without clingcon's theory atoms: the rewritten statements are the statements; all pairs (thorough: triples) of plain rules: same answer sets, costs, optima and consequences as clingo alone", c37), argc - 2, argv + 2); }
    return 2;
}
