// C31 answer set semantics around theory atoms, C32 reasoning modes of the
// solver, C33 independence of theory objects
#include "pool.hh"
using namespace V;

// {{{ C31 logic programs

namespace {

std::vector<std::string> const N{"x", "y"};

struct LLit { int neg{0}; int atom{-1}; int theory{-1}; };  // neg: number of nots
struct LRule {
    enum Head { NONE, DISJ, CHOICE, THEORY } head{NONE};
    std::vector<int> heads;
    int theory{-1};
    std::vector<LLit> body;
};

std::vector<Atom> const &theory_atoms() {
    static std::vector<Atom> const r{
        sum_atom(N, {{1, {0}}}, ">", 0),
        sum_atom(N, {{1, {0}}, {1, {1}}}, "<=", 1),
        sum_atom(N, {{1, {0}}, {-1, {1}}}, "=", 0),
        diff_atom(N, 0, 1, 0),
    };
    return r;
}

std::string text(LRule const &r) {
    std::string t;
    bool sep = false;
    if (r.head == LRule::CHOICE) { t += "{ "; }
    for (int h : r.heads) { t += cat(sep ? "; " : "", BN[h]); sep = true; }
    if (r.head == LRule::CHOICE) { t += " }"; }
    if (r.head == LRule::THEORY) { t += theory_atoms()[r.theory].text; }
    if (!r.body.empty() || r.head == LRule::NONE) { t += " :- "; }
    sep = false;
    for (auto const &l : r.body) {
        t += sep ? ", " : "";
        for (int i = 0; i < l.neg; ++i) { t += "not "; }
        t += l.atom >= 0 ? std::string(1, BN[l.atom]) : theory_atoms()[l.theory].text;
        sep = true;
    }
    return t + ". ";
}

// stable models for each assignment of the integer variables
std::vector<Sol> stable(std::vector<LRule> const &rs, int natoms, std::vector<std::vector<I>> const &values) {
    std::vector<Sol> res;
    for (I x : values[0]) {
        for (I y : values[1]) {
            std::vector<I> a{x, y};
            std::vector<bool> tv;
            for (auto const &t : theory_atoms()) { tv.push_back(t.holds(a)); }
            auto lit = [&](LLit const &l, uint64_t m) {
                bool v = l.atom >= 0 ? ((m >> l.atom) & 1) != 0 : tv[l.theory];
                return v != (l.neg % 2 != 0);
            };
            for (uint64_t m = 0; m < (1ULL << natoms); ++m) {
                // is s a model of the reduct w.r.t. m
                auto model = [&](uint64_t s) {
                    for (auto const &r : rs) {
                        bool body = true;
                        for (auto const &l : r.body) { body = body && lit(l, l.atom >= 0 && l.neg == 0 ? s : m); }
                        if (!body) { continue; }
                        bool sat = false;
                        switch (r.head) {
                            case LRule::NONE: break;
                            case LRule::DISJ: for (int h : r.heads) { sat = sat || ((s >> h) & 1) != 0; } break;
                            case LRule::CHOICE: {
                                sat = true;
                                for (int h : r.heads) { sat = sat && (((m >> h) & 1) == 0 || ((s >> h) & 1) != 0); }
                                break;
                            }
                            case LRule::THEORY: sat = tv[r.theory]; break;
                        }
                        if (!sat) { return false; }
                    }
                    return true;
                };
                if (!model(m)) { continue; }
                bool min = true;
                for (uint64_t s = m; s != 0 && min;) {
                    s = (s - 1) & m;
                    min = !model(s);
                }
                if (min) { res.push_back({m, a}); }
            }
        }
    }
    std::sort(res.begin(), res.end());
    return res;
}

std::vector<LRule> lrules(std::vector<LLit> const &lits, size_t maxbody, std::vector<LRule> const &heads) {
    std::vector<std::vector<LLit>> bodies{{}};
    for (auto const &l : lits) { bodies.push_back({l}); }
    if (maxbody > 1) { for (size_t i = 0; i < lits.size(); ++i) { for (size_t j = i + 1; j < lits.size(); ++j) { bodies.push_back({lits[i], lits[j]}); } } }
    std::vector<LRule> res;
    for (auto const &h : heads) {
        for (auto const &b : bodies) {
            if (h.head == LRule::NONE && b.empty()) { continue; }
            res.push_back(h);
            res.back().body = b;
        }
    }
    return res;
}

void c31(Ctx &ctx) {
    bool T = ctx.thorough();
    auto all = confs(0, 2);
    for (auto &c : all) { c.opts.erase(std::remove_if(c.opts.begin(), c.opts.end(), [](auto &o) { return o.first == "check-state"; }), c.opts.end()); }
    std::vector<std::vector<I>> const values{{0, 1, 2}, {0, 1}};
    std::string const dom = "&dom{ 0..2 } = x. &dom{ 0..1 } = y. ";
    auto go = [&](std::vector<LRule> const &rs, int natoms, std::vector<Conf> const &cs) {
        ctx.test([&] {
            std::string t = dom;
            for (auto const &r : rs) { t += text(r); }
            auto want = stable(rs, natoms, values);
            // the equivalence preprocessing of clasp 3.3.10 loses and invents
            // stable models of disjunctive programs with external atoms even
            // without any propagator (see DESIGN.md)
            bool disjunctive = std::any_of(rs.begin(), rs.end(), [](auto &r) { return r.head == LRule::DISJ && r.heads.size() > 1; });
            for (auto const &d : cs) {
                auto c = disjunctive ? d.arg("--eq=0") : d;
                auto r = run(t, N, c);
                ctx.count(EXEC);
                ctx.count(SOLS, r.sols.size());
                if (r.error) { throw Violation(report(t, c, "error: " + r.msg)); }
                if (r.interrupted || r.sols != want) { throw Violation(report(t, c, diff(want, r.sols, N))); }
            }
            if (!want.empty()) { ctx.count(NONTRIV); }
            uint64_t h = 17;
            for (auto const &s : want) { h = h * 1000003 + s.mask; for (I v : s.vals) { h = h * 1000003 + static_cast<uint64_t>(v); } }
            ctx.outcome(h);
        });
    };
    auto A = [](int a, int neg = 0) { LLit l; l.atom = a; l.neg = neg; return l; };
    auto TH = [](int t, int neg = 0) { LLit l; l.theory = t; l.neg = neg; return l; };
    auto D = [](std::vector<int> h) { LRule r; r.head = LRule::DISJ; r.heads = std::move(h); return r; };
    auto C = [](std::vector<int> h) { LRule r; r.head = LRule::CHOICE; r.heads = std::move(h); return r; };
    auto HT = [](int t) { LRule r; r.head = LRule::THEORY; r.theory = t; return r; };
    LRule none;
    std::vector<LLit> lits{A(0), A(0, 1), A(0, 2), A(1), A(1, 1), TH(0), TH(0, 1), TH(1), TH(1, 1)};
    if (T) { lits.push_back(TH(0, 2)); lits.push_back(TH(2)); lits.push_back(TH(3, 1)); lits.push_back(A(1, 2)); }
    auto rs = lrules(lits, 2, {D({0}), D({1}), D({0, 1}), C({0}), C({0, 1}), HT(1), HT(2), none});
    for (auto const &r : rs) { go({r}, 2, all); }
    for (size_t i = 0; i < rs.size(); ++i) {
        for (size_t j = i; j < rs.size(); ++j) {
            go({rs[i], rs[j]}, 2, {all[(i + j) % all.size()]});
        }
    }
    // three rules: recursion through two and three atoms and through constraints
    auto rt = lrules({A(0), A(0, 1), A(1), A(1, 1), TH(0), TH(1, 1)}, T ? 2 : 1, {D({0}), D({1}), C({0}), HT(1), none});
    for (size_t i = 0; i < rt.size(); ++i) {
        for (size_t j = i + 1; j < rt.size(); ++j) {
            for (size_t k = j + 1; k < rt.size(); ++k) {
                go({rt[i], rt[j], rt[k]}, 2, {all[(i + j + k) % all.size()]});
            }
        }
    }
    auto ru = lrules({A(0), A(1), A(2, 1), TH(0), TH(1)}, T ? 2 : 1, {D({0}), D({1, 2}), C({2})});
    for (size_t i = 0; i < ru.size(); ++i) {
        for (size_t j = i + 1; j < ru.size(); ++j) {
            for (size_t k = j + 1; k < ru.size(); ++k) {
                LRule last = D({1});
                last.body = {A(0), TH(0)};
                go({ru[i], ru[j], ru[k], last}, 3, {all[(i * 3 + j + k) % all.size()]});
            }
        }
    }
}

// }}}
// {{{ C32 reasoning modes

struct Weak { std::vector<Lit> body; I weight; I prio; };

std::string text(std::vector<Lit> const &body) {
    std::string t;
    for (auto const &l : body) { t += (t.empty() ? "" : ", ") + std::string(l.neg ? "not " : "") + (l.boolean >= 0 ? std::string(1, BN[l.boolean]) : l.atom.text); }
    return t;
}

bool body_holds(std::vector<Lit> const &body, Sol const &s) {
    for (auto const &l : body) { if (!holds(l, s.mask, s.vals)) { return false; } }
    return true;
}

// costs with the highest priority first
std::vector<I> weak_cost(std::vector<Weak> const &ws, Sol const &s) {
    std::map<I, I, std::greater<>> r;
    for (auto const &w : ws) { r[w.prio] += body_holds(w.body, s) ? w.weight : 0; }
    std::vector<I> v;
    for (auto const &[p, c] : r) { v.push_back(c); }
    return v;
}

int atoms(Program const &p) {
    int n = 0;
    for (int c : p.choice) { n = std::max(n, c + 1); }
    for (auto const &r : p.rules) { if (r.head == Rule::BOOL) { n = std::max(n, r.boolean + 1); } }
    return n;
}

struct Out { Sol sol; std::vector<I> cost; bool proven; std::vector<std::string> shown; };
struct Outcome { std::vector<Out> models; bool sat, unsat, exhausted; std::vector<Clingo::literal_t> core; };

Outcome solve(std::string const &text, std::vector<std::string> const &vars, Conf const &conf, std::function<std::vector<Clingo::literal_t>(Clingo::Control &)> const &assume = nullptr) {
    Outcome r;
    Theory t{conf};
    t.add(text);
    t.ground();
    t.prepare();
    Handler h{t, vars};
    h.hook = [&](Clingo::Model &m, Sol &s) {
        Out o{s, {}, m.optimality_proven(), {}};
        for (auto c : m.cost()) { o.cost.push_back(c); }
        for (auto y : m.symbols(Clingo::ShowType::Shown)) { o.shown.push_back(y.to_string()); }
        std::sort(o.shown.begin(), o.shown.end());
        r.models.push_back(std::move(o));
    };
    std::vector<Clingo::literal_t> ass;
    if (assume) { ass = assume(t.ctl()); }
    auto hd = t.ctl().solve(Clingo::LiteralSpan{ass.data(), ass.size()}, &h, false, false);
    auto res = hd.get();
    r.sat = res.is_satisfiable();
    r.unsat = res.is_unsatisfiable();
    r.exhausted = res.is_exhausted();
    if (r.unsat) { auto c = hd.core(); r.core.assign(c.begin(), c.end()); }
    return r;
}

void c32(Ctx &ctx) {
    bool T = ctx.thorough();
    auto ps = pool();
    auto all = confs(-4, 9);
    std::vector<Conf> cs{all[0], all[4], all[5], all[7], all[1], all[2]};
    auto guard = [](std::string const &t, Conf const &c, auto &&f) {
        auto fail = [&](std::string const &m) { throw Violation(report(t, c, m)); };
        try { f(fail); } catch (Violation &) { throw; } catch (std::exception &e) { fail(std::string("error: ") + e.what()); }
    };
    auto models = [](Outcome const &o, std::vector<std::string> const &vars) {
        std::string t = "\nmodels:";
        for (auto const &m : o.models) {
            t += "\n  " + show(m.sol, vars) + (m.proven ? " proven" : "") + " cost:";
            for (I c : m.cost) { t += cat(" ", c); }
        }
        return t;
    };
    for (size_t pi = 0; pi < ps.size(); ++pi) {
        // choose a further atom such that there are always two Boolean atoms
        Program p = ps[pi];
        if (std::find(p.choice.begin(), p.choice.end(), 7) == p.choice.end()) { p.choice.push_back(7); }
        if (pi % 2 == 0) { p.choice.push_back(8); p.rules.push_back(constraint({blit(7), blit(8)})); }
        auto sols = brute(p);
        std::string const base = p.text();
        int n = atoms(p);
        auto S = [&](std::vector<I> const &co, std::string const &rel, I rhs) {
            std::vector<Mono> ms;
            for (size_t i = 0; i < co.size(); ++i) { if (co[i] != 0) { ms.push_back({co[i], {static_cast<int>(i)}}); } }
            return sum_atom(p.vars, ms, rel, rhs);
        };
        auto t1 = tlit(S({1, 1}, ">", 1)), t2 = tlit(S({1, -1}, "<=", 0)), t3 = tlit(S({0, 1}, "=", 1)), t4 = tlit(S({2, 1}, "!=", 3), true);
        std::vector<int> bs{7};
        for (int i = 0; i < n - 1 && bs.size() < 3; ++i) {
            bool def = std::find(p.choice.begin(), p.choice.end(), i) != p.choice.end();
            for (auto const &r : p.rules) { def = def || (r.head == Rule::BOOL && r.boolean == i); }
            if (def) { bs.push_back(i); }
        }
        if (n > 8) { bs.push_back(8); }
        std::vector<std::vector<Weak>> weak{
            {{{t1}, 1, 0}},
            {{{t2}, 2, 0}, {{blit(7)}, 1, 0}},
            {{{t1, blit(7, true)}, 1, 0}, {{t3}, 2, 0}, {{t2}, 1, 0}},
            {{{t3}, -1, 0}, {{blit(7)}, -2, 0}, {{t4}, 1, 0}},
            {{{t1}, 1, 1}, {{t2}, 1, 0}, {{blit(7, true)}, 1, 0}},
            {{{blit(7)}, 2, 2}, {{t4}, 1, 1}, {{t3, blit(bs.back())}, 3, 0}},
        };
        std::vector<std::vector<std::string>> const optmodes{{"0", "--opt-mode=opt"}, {"0", "--opt-mode=optN"}, {"0", "--opt-mode=optN", "--opt-strategy=usc"}, {"0", "--opt-mode=opt", "--opt-strategy=bb,inc"}, {"0", "--opt-mode=ignore"}, {"0", "--opt-mode=enum,1"}};
        for (size_t wi = 0; wi < weak.size(); ++wi) {
            auto const &ws = weak[wi];
            std::string t = base;
            for (size_t i = 0; i < ws.size(); ++i) { t += cat(":~ ", text(ws[i].body), ". [", ws[i].weight, "@", ws[i].prio, ",", i, "] "); }
            std::vector<I> best;
            for (auto const &s : sols) { auto c = weak_cost(ws, s); if (best.empty() || c < best) { best = c; } }
            for (size_t mi = 0; mi < optmodes.size(); ++mi) {
                bool enumb = mi == 5, ignore = mi == 4, optn = mi == 1 || mi == 2;
                if (enumb && best.size() > 1) { continue; }
                for (auto c : cs) {
                    c.args = optmodes[mi];
                    ctx.test([&] {
                        guard(t, c, [&](auto const &fail_) {
                            auto r = solve(t, p.vars, c);
                            ctx.count(EXEC);
                            ctx.count(SOLS, r.models.size());
                            auto fail = [&](std::string const &m) { fail_(m + models(r, p.vars)); };
                            if (r.sat != !sols.empty() && !enumb) { fail("wrong verdict"); }
                            std::vector<Sol> got;
                            std::vector<I> prev;
                            for (auto const &m : r.models) {
                                if (!std::binary_search(sols.begin(), sols.end(), m.sol)) { fail("not a solution"); }
                                if (!ignore && m.cost != weak_cost(ws, m.sol)) { fail("wrong cost"); }
                                if (ignore || enumb || m.proven) { got.push_back(m.sol); }
                                if (!ignore && !enumb && !optn && !prev.empty() && m.cost >= prev) { fail("no improvement"); }
                                prev = m.cost;
                            }
                            std::sort(got.begin(), got.end());
                            std::vector<Sol> want;
                            for (auto const &s : sols) {
                                auto c = weak_cost(ws, s);
                                if (ignore || (enumb ? c[0] <= 1 : c == best)) { want.push_back(s); }
                            }
                            if (ignore || enumb || optn) {
                                if (got != want) { fail("wrong set of models: " + diff(want, got, p.vars)); }
                            } else if (!sols.empty() && (r.models.empty() || prev != best)) {
                                fail("the last model is not optimal");
                            }
                        });
                        ctx.outcome(hash_str(t) + mi);
                        if (!sols.empty()) { ctx.count(NONTRIV); }
                    });
                }
            }
        }
        // brave, cautious, projection
        uint64_t uni = 0, inter = ~0ULL;
        std::set<uint64_t> masks, two;
        uint64_t const pm = (1ULL << bs[0]) | (1ULL << bs.back());
        for (auto const &s : sols) { uni |= s.mask; inter &= s.mask; masks.insert(s.mask); two.insert(s.mask & pm); }
        for (int mode = 0; mode < 4; ++mode) {
            for (auto c : cs) {
                std::string t = base;
                if (mode == 3) { t += cat("#project ", BN[bs[0]], ". #project ", BN[bs.back()], ". "); }
                c.args = {"0", mode == 0 ? "--enum-mode=brave" : mode == 1 ? "--enum-mode=cautious" : mode == 2 ? "--project=show" : "--project=project"};
                ctx.test([&] {
                    guard(t, c, [&](auto const &fail_) {
                        auto r = solve(t, p.vars, c);
                        ctx.count(EXEC);
                        ctx.count(SOLS, r.models.size());
                        auto fail = [&](std::string const &m) { fail_(m + models(r, p.vars)); };
                        if (r.sat != !sols.empty()) { fail("wrong verdict"); }
                        if (sols.empty()) { return; }
                        if (r.models.empty()) { fail("no model"); }
                        if (mode < 2) {
                            uint64_t want = mode == 0 ? uni : inter;
                            if (r.models.back().sol.mask != want) { fail(cat("wrong consequences, expected ", show({want, {}}, {}))); }
                        } else {
                            std::set<uint64_t> got;
                            for (auto const &m : r.models) {
                                if (!std::binary_search(sols.begin(), sols.end(), m.sol)) { fail("not a solution"); }
                                if (!got.insert(mode == 3 ? m.sol.mask & pm : m.sol.mask).second) { fail("projection repeated"); }
                            }
                            if (got != (mode == 3 ? two : masks)) { fail("wrong projections"); }
                        }
                    });
                    ctx.outcome(hash_str(t) + static_cast<uint64_t>(mode));
                    if (!sols.empty()) { ctx.count(NONTRIV); }
                });
            }
        }
        // statements with theory atoms in their bodies
        std::vector<std::vector<Lit>> bodies{{t1}, {t2}, {t3}, {t4}, {t1, blit(7)}, {t2, blit(7, true)}, {t1, t3}, {tlit(S({1, 1}, ">", 1), true), t4}};
        for (size_t i = 0; i < bodies.size(); ++i) {
            for (size_t j = 0; j < bodies.size(); ++j) {
                for (int kind = 0; kind < 3; ++kind) {
                    for (size_t ci = 0; ci < cs.size(); ++ci) {
                        if (!T && (i + 2 * j + static_cast<size_t>(kind) + ci) % 3 != 0) { continue; }
                        auto c = cs[ci];
                        std::string t = base;
                        if (kind == 0) { t += cat("#show b1 : ", text(bodies[i]), ". #show b2 : ", text(bodies[j]), ". "); }
                        if (kind == 1) { t += cat("#edge (1,2) : ", text(bodies[i]), ". #edge (2,1) : ", text(bodies[j]), ". "); }
                        if (kind == 2) { t += cat("#heuristic ", BN[bs[0]], " : ", text(bodies[i]), ". [1,true] #heuristic ", BN[bs.back()], " : ", text(bodies[j]), ". [2,sign] "); c.args = {"0", "--heuristic=Domain"}; }
                        ctx.test([&] {
                            guard(t, c, [&](auto const &fail_) {
                                auto r = solve(t, p.vars, c);
                                ctx.count(EXEC);
                                ctx.count(SOLS, r.models.size());
                                auto fail = [&](std::string const &m) { fail_(m + models(r, p.vars)); };
                                std::vector<Sol> got, want;
                                for (auto const &m : r.models) {
                                    got.push_back(m.sol);
                                    if (kind == 0) {
                                        auto has = [&](char const *n) { return std::find(m.shown.begin(), m.shown.end(), n) != m.shown.end(); };
                                        if (has("b1") != body_holds(bodies[i], m.sol) || has("b2") != body_holds(bodies[j], m.sol)) { fail("wrong terms shown for " + show(m.sol, p.vars)); }
                                    }
                                }
                                std::sort(got.begin(), got.end());
                                for (auto const &s : sols) { if (kind != 1 || !body_holds(bodies[i], s) || !body_holds(bodies[j], s)) { want.push_back(s); } }
                                if (got != want) { fail(diff(want, got, p.vars)); }
                                if (!want.empty()) { ctx.count(NONTRIV); }
                            });
                            ctx.outcome(hash_str(t));
                        });
                    }
                }
            }
        }
        // unsatisfiable cores
        size_t na = 1;
        for (size_t i = 0; i < bs.size(); ++i) { na *= 3; }
        for (size_t a = 0; a < na; ++a) {
            for (size_t q = 0; q < bodies.size(); ++q) {
                if (!T && q >= 4) { continue; }
                for (size_t ci = 0; ci < cs.size(); ++ci) {
                    if (!T && (a + q + ci) % 2 != 0) { continue; }
                    auto const &c = cs[ci];
                    // an assumption literal that is equivalent to a constraint
                    std::string t = base + cat("g :- ", text(bodies[q]), ". ");
                    ctx.test([&] {
                        guard(t, c, [&](auto const &fail_) {
                            std::vector<std::pair<int, bool>> as{{6, true}};
                            for (size_t i = 0, k = a; i < bs.size(); ++i, k /= 3) { if (k % 3 != 0) { as.emplace_back(bs[i], k % 3 == 1); } }
                            std::vector<Clingo::literal_t> lits;
                            auto r = solve(t, p.vars, c, [&](Clingo::Control &ctl) {
                                for (auto [b, sign] : as) {
                                    auto it = ctl.symbolic_atoms().find(sym(std::string(1, BN[b])));
                                    lits.push_back(it != ctl.symbolic_atoms().end() ? (sign ? it->literal() : -it->literal()) : 0);
                                }
                                auto l = lits;
                                l.erase(std::remove(l.begin(), l.end(), 0), l.end());
                                return l;
                            });
                            ctx.count(EXEC);
                            std::string at = "\nassumptions:";
                            for (auto [b, sign] : as) { at += std::string(" ") + (sign ? "" : "-") + BN[b]; }
                            auto fail = [&](std::string const &m) { fail_(m + at + models(r, p.vars)); };
                            auto sat = [&](std::vector<size_t> const &sel) {
                                std::vector<Sol> w;
                                for (auto s : sols) {
                                    if (body_holds(bodies[q], s)) { s.mask |= 1ULL << 6; }
                                    bool ok = true;
                                    for (size_t i : sel) { if (lits[i] != 0) { ok = ok && (((s.mask >> as[i].first) & 1) != 0) == as[i].second; } }
                                    if (ok) { w.push_back(s); }
                                }
                                std::sort(w.begin(), w.end());
                                return w;
                            };
                            std::vector<size_t> sel;
                            for (size_t i = 0; i < as.size(); ++i) { sel.push_back(i); }
                            auto want = sat(sel);
                            std::vector<Sol> got;
                            for (auto const &m : r.models) { got.push_back(m.sol); }
                            std::sort(got.begin(), got.end());
                            if (got != want) { fail(diff(want, got, p.vars)); }
                            if (r.sat != !want.empty() || r.unsat != want.empty()) { fail("wrong verdict"); }
                            if (r.unsat) {
                                std::vector<size_t> core;
                                for (auto l : r.core) {
                                    auto it = std::find(lits.begin(), lits.end(), l);
                                    if (it == lits.end()) { fail("the core contains a literal that was not assumed"); }
                                    core.push_back(static_cast<size_t>(it - lits.begin()));
                                }
                                if (!sat(core).empty()) { fail("the core is satisfiable"); }
                            } else {
                                ctx.count(NONTRIV);
                            }
                        });
                        ctx.outcome(hash_str(t) + a);
                    });
                }
            }
        }
    }
}

// }}}
// {{{ C33 independent theories

struct Solo {
    Prog const &p;
    Conf conf;
    std::vector<Sol> want;
    std::unique_ptr<Theory> t;
    int phase{0};

    std::string name() const { return text(p) + " [" + conf.str() + "]"; }
    // solves and compares; inner is called at the n-th model
    void solve(Ctx &ctx, int n, std::function<void()> const &inner) {
        Handler h{*t, p.p.vars};
        std::vector<std::optional<I>> csp;
        h.hook = [&](Clingo::Model &m, Sol &s) {
            if (n-- == 0 && inner) { inner(); }
            std::optional<I> c;
            for (auto y : m.symbols(Clingo::ShowType::Theory)) {
                if (y.match("__csp_cost", 1)) { c = std::stoll(y.arguments().front().string()); }
                if (y.match("__csp", 2)) {
                    for (size_t i = 0; i < p.p.vars.size(); ++i) { if (y.arguments()[0].to_string() == p.p.vars[i] && y.arguments()[1].number() != s.vals[i]) { throw Violation(name() + "\nsymbol and value differ"); } }
                }
            }
            csp.push_back(c);
        };
        auto res = t->ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
        ctx.count(EXEC);
        ctx.count(SOLS, h.sols.size());
        auto fail = [&](std::string const &m) { throw Violation(name() + "\n" + m); };
        if (!res.is_exhausted()) { fail("not exhausted"); }
        if (p.obj.empty()) {
            std::sort(h.sols.begin(), h.sols.end());
            if (h.sols != want) { fail(diff(want, h.sols, p.p.vars)); }
        } else {
            std::optional<I> best, prev;
            for (auto const &s : want) { I c = cost(p.obj, s.vals); if (!best || c < *best) { best = c; } }
            for (size_t i = 0; i < h.sols.size(); ++i) {
                if (!std::binary_search(want.begin(), want.end(), h.sols[i])) { fail("not a solution: " + show(h.sols[i], p.p.vars)); }
                I c = cost(p.obj, h.sols[i].vals);
                if (csp[i] && *csp[i] != c) { fail("wrong cost"); }
                if (prev && c >= *prev) { fail("no improvement"); }
                prev = c;
            }
            if (prev != best) { fail("wrong optimum"); }
        }
    }
    // 0 create, 1 add and ground, 2 solve, 3 solve again, 4 destroy
    static constexpr int PHASES = 5;
    void step(Ctx &ctx, int n = -1, std::function<void()> const &inner = nullptr) {
        switch (phase++) {
            case 0: t = std::make_unique<Theory>(conf); break;
            case 1: t->add(text(p)); t->ground(); t->prepare(); break;
            case 2: case 3: solve(ctx, n, inner); break;
            case 4: t.reset(); break;
        }
    }
};

void c33(Ctx &ctx) {
    bool T = ctx.thorough();
    auto ps = programs();
    auto all = confs(-4, 9);
    all.push_back(all[0].with("order-heuristic", "max-chain").with("sign-value", "-").with("split-all", "yes"));
    // all interleavings of the phases of two objects
    std::vector<std::vector<int>> orders;
    std::function<void(std::vector<int>, int, int)> rec = [&](std::vector<int> o, int a, int b) {
        if (a == 0 && b == 0) { orders.push_back(o); return; }
        if (a > 0) { auto c = o; c.push_back(0); rec(c, a - 1, b); }
        if (b > 0) { auto c = o; c.push_back(1); rec(c, a, b - 1); }
    };
    rec({}, Solo::PHASES, Solo::PHASES);
    for (size_t i = 0; i < ps.size(); ++i) {
        for (size_t j = 0; j < ps.size(); ++j) {
            size_t c1 = (i + 2 * j) % all.size(), c2 = (3 * i + j + 1) % all.size();
            for (size_t o = 0; o < orders.size(); ++o) {
                if (!T && (o + i * 5 + j) % 9 != 0) { continue; }
                ctx.test([&] {
                    Solo s[2]{{ps[i], all[c1], brute(ps[i].p), nullptr, 0}, {ps[j], all[c2], brute(ps[j].p), nullptr, 0}};
                    std::string t;
                    try {
                        for (int k : orders[o]) { t += cat(" ", k, ":", s[k].phase); s[k].step(ctx); }
                    } catch (std::exception &e) {
                        throw Violation(cat("two theories\n0: ", s[0].name(), "\n1: ", s[1].name(), "\norder:", t, "\n", e.what()));
                    }
                    ctx.count(NONTRIV, !s[0].want.empty() && !s[1].want.empty());
                    ctx.outcome(cat(i, " ", j));
                });
            }
            // one of them runs completely while the other one reports a model
            for (int n = 0; n < (T ? 5 : 2); ++n) {
                for (int ph = 2; ph < 4; ++ph) {
                    for (int pre = 0; pre < 3; ++pre) {
                        if (!T && (i + j + static_cast<size_t>(n + ph + pre)) % 3 != 0) { continue; }
                        ctx.test([&] {
                            Solo s[2]{{ps[i], all[c1], brute(ps[i].p), nullptr, 0}, {ps[j], all[c2], brute(ps[j].p), nullptr, 0}};
                            try {
                                for (int k = 0; k < pre; ++k) { s[1].step(ctx); }
                                while (s[0].phase < Solo::PHASES) {
                                    if (s[0].phase == ph) { s[0].step(ctx, n, [&] { while (s[1].phase < Solo::PHASES) { s[1].step(ctx); } }); } else { s[0].step(ctx); }
                                }
                                while (s[1].phase < Solo::PHASES) { s[1].step(ctx); }
                            } catch (std::exception &e) {
                                throw Violation(cat("two theories\n0: ", s[0].name(), "\n1: ", s[1].name(), "\n1 runs at model ", n, " of phase ", ph, " after ", pre, " phases\n", e.what()));
                            }
                            ctx.count(NONTRIV, !s[0].want.empty() && !s[1].want.empty());
                            ctx.outcome(cat(i, " ", j));
                        });
                    }
                }
            }
        }
    }
}

// }}}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    if (id == "C31") { return run_check(program_check(id, "every logic program of one, two and (over a smaller alphabet) three rules: normal, disjunctive, choice and theory heads and integrity constraints, bodies of at most two (negated, doubly negated) atoms and theory atoms; compared with the stable models computed for each assignment of the integer variables via the reduct", c31), argc, argv); }
    if (id == "C32") { return run_check(program_check(id, "pool programs under every combination of weak constraints (bodies with theory atoms) and optimisation modes, brave and cautious reasoning, projection, show/edge/heuristic statements with all pairs of bodies, unsatisfiable cores for all assumptions over three atoms and one atom defined by a constraint", c32), argc, argv); }
    if (id == "C33") { return run_check(program_check(id, "all pairs of pool programs in two theory objects: interleavings of create/ground/solve/solve/destroy (thorough: all 252, quick: every ninth), and one object running completely inside a model callback of the other", c33), argc, argv); }
    return 2;
}
