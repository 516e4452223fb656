// C07 optimisation, C08 options, C26 translation limits
#include "pool.hh"
#include <cmath>
using namespace V;

static std::vector<std::string> const N{"x", "y", "z", "w"};

struct ModelInfo {
    Sol sol;
    std::vector<I> clasp_cost;
    std::optional<I> csp_cost;
    bool proven{false};
};

// solve an optimisation problem and collect everything that is reported
struct OptResult {
    std::vector<ModelInfo> models;
    bool error{false}, exhausted{false}, sat{false};
    std::string msg;
};

static OptResult run_opt(std::string const &text, std::vector<std::string> const &vars, Conf const &conf) {
    OptResult r;
    try {
        Theory t{conf};
        t.add(text);
        t.ground();
        t.prepare();
        Handler h{t, vars};
        h.hook = [&](Clingo::Model &m, Sol &s) {
            ModelInfo i;
            i.sol = s;
            for (auto c : m.cost()) { i.clasp_cost.push_back(c); }
            i.proven = m.optimality_proven();
            for (auto s : m.symbols(Clingo::ShowType::Theory)) {
                if (s.match("__csp_cost", 1)) { i.csp_cost = std::stoll(s.arguments().front().string()); }
            }
            r.models.push_back(i);
        };
        auto res = t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
        r.exhausted = res.is_exhausted();
        r.sat = res.is_satisfiable();
    } catch (std::exception &e) {
        r.error = true;
        r.msg = e.what();
    }
    return r;
}

static void check_opt(Ctx &ctx, Program const &p, std::vector<Objective> const &os, std::vector<Sol> const &sols, Conf const &conf) {
    std::string text = p.text();
    for (auto const &o : os) { text += o.text(p.vars); }
    I best = 0;
    std::vector<Sol> opt;
    for (auto const &s : sols) {
        I c = cost(os, s.vals);
        if (opt.empty() || c < best) { best = c; opt.clear(); }
        if (c == best) { opt.push_back(s); }
    }
    bool optn = std::find(conf.args.begin(), conf.args.end(), "--opt-mode=optN") != conf.args.end();
    auto r = run_opt(text, p.vars, conf);
    ctx.count(EXEC);
    auto fail = [&](std::string const &m) {
        std::string t = m + "\noptimum: " + (opt.empty() ? "none" : cat(best)) + "\nmodels:";
        for (auto const &i : r.models) {
            t += "\n  " + show(i.sol, p.vars) + " objective=" + cat(cost(os, i.sol.vals)) + " __csp_cost=" + (i.csp_cost ? cat(*i.csp_cost) : "none") + " cost=" + (i.clasp_cost.empty() ? "none" : cat(i.clasp_cost[0])) + (i.proven ? " proven" : "");
        }
        throw Violation(report(text, conf, t));
    };
    if (r.error) { fail("error: " + r.msg); }
    if (!r.exhausted) { fail("search did not finish"); }
    if (r.sat != !sols.empty()) { fail("wrong verdict"); }
    std::optional<I> prev;
    std::vector<Sol> proven;
    for (auto const &i : r.models) {
        if (!std::binary_search(sols.begin(), sols.end(), i.sol)) { fail("a model is not a solution"); }
        I c = cost(os, i.sol.vals);
        if (i.csp_cost) {
            if (*i.csp_cost != c) { fail("reported cost differs from the objective"); }
            if (!i.clasp_cost.empty()) { fail("cost reported by both theory and solver"); }
        } else if (!i.clasp_cost.empty()) {
            if (i.clasp_cost.size() != 1 || i.clasp_cost[0] != c) { fail("cost of the solver differs from the objective"); }
        } else {
            fail("no cost reported");
        }
        if (i.proven && optn) { proven.push_back(i.sol); }
        else if (!optn || !i.proven) {
            if (prev && c >= *prev) { fail("a model does not improve on the previous one"); }
        }
        prev = c;
    }
    if (!opt.empty()) {
        if (r.models.empty()) { fail("no model"); }
        if (cost(os, r.models.back().sol.vals) != best) { fail("the last model is not optimal"); }
        if (optn && !proven.empty()) {
            std::sort(proven.begin(), proven.end());
            if (proven != opt) { fail(cat("expected ", opt.size(), " optimal models, got ", proven.size())); }
        }
    } else if (!r.models.empty()) {
        fail("unexpected model");
    }
    ctx.count(SOLS, r.models.size());
    ctx.outcome(hash_str(text) ^ static_cast<uint64_t>(best));
}

static std::vector<Conf> opt_confs(I lo = -4, I hi = 9) {
    auto cs = confs(lo, hi);
    auto r = cs;
    r.push_back(cs[0].with("translate-opt", "4294967295"));
    r.push_back(cs[1].with("translate-opt", "4294967295").arg("--opt-mode=optN"));
    r.push_back(cs[6].with("translate-opt", "4294967295").arg("--opt-mode=optN").arg("--opt-strategy=usc"));
    r.push_back(cs[4].with("translate-opt", "8"));
    return r;
}

static std::vector<std::vector<Objective>> objectives(int nvars, bool T) {
    std::vector<std::vector<Objective>> r;
    std::vector<I> cs = T ? std::vector<I>{-3, -2, -1, 0, 1, 2, 3} : std::vector<I>{-2, 0, 1, 3};
    for (int mx = 0; mx < 2; ++mx) {
        product({cs, cs, nvars > 2 ? std::vector<I>{-1, 0, 2} : std::vector<I>{0}, {0, -5, 4}}, [&](auto const &v) {
            Objective o;
            o.maximize = mx != 0;
            for (int i = 0; i < std::min(nvars, 3); ++i) { if (v[i] != 0) { o.elems.push_back({v[i], {i}}); } }
            if (v[3] != 0) { o.elems.push_back({v[3], {}}); }
            if (!o.elems.empty()) { r.push_back({o}); }
        });
    }
    // several directives, repeated variables, cancellation
    for (I a : {-1, 1, 2}) {
        for (I b : {-2, -1, 1}) {
            r.push_back({{false, {{a, {0}}}}, {true, {{b, {1}}, {1, {}}}}});
            r.push_back({{true, {{a, {0}}, {b, {0}}}}, {false, {{1, {1}}}}});
            r.push_back({{false, {{a, {0}}, {-a, {0}}, {3, {}}}}});
            r.push_back({{false, {{a, {0}}}}, {false, {{b, {0}}, {b, {1}}, {2, {}}}}, {true, {{1, {1}}}}});
        }
    }
    return r;
}

static void c07(Ctx &ctx) {
    bool T = ctx.thorough();
    auto ps = pool();
    for (size_t k = 0; k < ps.size(); ++k) {
        std::vector<Sol> sols;
        bool have = false;
        auto os = objectives(static_cast<int>(ps[k].vars.size()), T);
        for (size_t i = 0; i < os.size(); ++i) {
            ctx.test([&] {
                if (!have) { sols = brute(ps[k]); have = true; }
                for (auto const &c : opt_confs()) { check_opt(ctx, ps[k], os[i], sols, c); }
                if (!sols.empty()) { ctx.count(NONTRIV); }
            });
        }
    }
    // wide domains: many improvement steps over several orders of magnitude
    product({{-3, -1, 2}, {-2, 1, 5}, range(0, 3), {0, 1}}, [&](auto const &v) {
        ctx.test([&] {
            Program p;
            domains(p, {"x", "y"}, {{{-20, 20}}, {{-6, -2}, {3, 15}}});
            p.choice = {0};
            p.rules = {thead(sum_atom(N, {{2, {0}}, {3, {1}}}, "<=", 17), {blit(0)}), thead(sum_atom(N, {{1, {0}}, {-4, {1}}}, ">=", -21), {blit(0, true)}),
                       thead(sum_atom(N, {{3, {0}}, {1, {1}}}, RELS[v[2]], 11))};
            auto sols = brute(p);
            std::vector<Objective> os{{v[3] != 0, {{v[0], {0}}, {v[1], {1}}, {7, {}}}}};
            for (auto const &c : opt_confs(-30, 30)) { check_opt(ctx, p, os, sols, c); }
            ctx.count(NONTRIV);
        });
    });
}

static Conf flags(std::vector<std::pair<std::string, std::string>> o, std::vector<std::string> a = {"0"}) {
    Conf c;
    c.args = std::move(a);
    c.opts = std::move(o);
    c.opts.emplace_back("min-int", "-4");
    c.opts.emplace_back("max-int", "9");
    return c;
}

static void c08(Ctx &ctx) {
    bool T = ctx.thorough();
    auto ps = pool();
    std::vector<char const *> onoff{"sort-constraints", "refine-reasons", "refine-introduce", "propagate-chain", "split-all", "literals-only", "add-order-clauses", "shift-constraints"};
    std::vector<std::vector<std::string>> cmd{{}, {"--configuration=frumpy", "--restart-on-model"}, {"--configuration=tweety", "--restarts=F,2", "--deletion=sort,10,activity"}, {"--sign-def=rnd", "--seed=3", "--rand-freq=1.0"},
                                             {"--heuristic=Unit", "--sign-def=pos", "--no-lookback"}, {"--heuristic=Berkmin", "--strengthen=no", "--contraction=1"}, {"--lookahead=atom", "--forget-on-step=15"}, {"--enum-mode=bt", "--heuristic=Vmtf"}};
    auto one = [&](Program const &p, std::vector<Sol> const &want, Conf const &c) {
        compare(ctx, p, want, c);
        uint64_t h = 5;
        for (auto const &s : want) { h = h * 1000003 + s.mask; for (I v : s.vals) { h = h * 1000003 + static_cast<uint64_t>(v); } }
        ctx.outcome(h ^ hash_str(c.str()));
    };
    for (size_t k = 0; k < ps.size(); ++k) {
        std::vector<Sol> want;
        bool have = false;
        auto each = [&](auto &&f) {
            ctx.test([&] {
                if (!have) { want = brute(ps[k]); have = true; }
                f();
                if (!want.empty()) { ctx.count(NONTRIV); }
            });
        };
        // complete product of all Boolean options
        for (int m = 0; m < (1 << onoff.size()); ++m) {
            for (int h = 0; h < 2; ++h) {
                for (int tr = 0; tr < (T ? 4 : 2); ++tr) {
                    each([&] {
                        std::vector<std::pair<std::string, std::string>> o;
                        for (size_t i = 0; i < onoff.size(); ++i) { o.emplace_back(onoff[i], (m >> i) & 1 ? "yes" : "no"); }
                        o.emplace_back("order-heuristic", h ? "max-chain" : "none");
                        char const *tc[] = {"0,0", "1000,10000", "2,7", "5"};
                        o.emplace_back("translate-clauses", tc[tr]);
                        if (tr == 0) { o.emplace_back("translate-pb", "0"); o.emplace_back("translate-distinct", "0"); }
                        o.emplace_back("sign-value", (m + h + tr) % 3 == 0 ? "-" : (m + h + tr) % 3 == 1 ? "+" : "1");
                        one(ps[k], want, flags(o));
                    });
                }
            }
        }
        // solver options against theory options
        for (size_t a = 0; a < cmd.size(); ++a) {
            for (char const *sv : {"-", "+", "0", "2", "-1"}) {
                for (char const *h : {"none", "max-chain"}) {
                    for (int b = 0; b < 8; ++b) {
                        each([&] {
                            std::vector<std::string> args{"0"};
                            args.insert(args.end(), cmd[a].begin(), cmd[a].end());
                            std::vector<std::pair<std::string, std::string>> o{{"sign-value", sv}, {"order-heuristic", h}, {"refine-introduce", b & 1 ? "yes" : "no"}, {"split-all", b & 2 ? "yes" : "no"}, {"check-state", "yes"}, {"check-solution", "yes"}};
                            if (b & 4) { o.insert(o.end(), {{"translate-clauses", "0,0"}, {"translate-pb", "0"}, {"translate-distinct", "0"}}); }
                            one(ps[k], want, flags(o, args));
                        });
                    }
                }
            }
        }
        // several threads with different settings per thread
        for (char const *t : {"-t2,compete", "-t3,compete", "-t2,split", "-t4,split"}) {
            for (int b = 0; b < (T ? 32 : 4); ++b) {
                each([&] {
                    std::vector<std::pair<std::string, std::string>> o{{"refine-introduce", b & 1 ? "yes,0" : "no,0"}, {"refine-reasons", b & 2 ? "no,1" : "yes,1"}, {"order-heuristic", b & 1 ? "none,1" : "none,0"}, {"sign-value", b & 2 ? "+,1" : "-,0"}, {"split-all", b & 1 ? "yes,1" : "no,1"}, {"propagate-chain", b & 2 ? "no,0" : "yes,0"}};
                    if ((b & 4) == 0) { o.insert(o.end(), {{"translate-clauses", "0,0"}, {"translate-pb", "0"}, {"translate-distinct", "0"}}); }
                    one(ps[k], want, flags(o, {"0", t}));
                });
            }
        }
    }
    // options never change the optimum either
    for (size_t k = 0; k < ps.size(); ++k) {
        std::vector<Sol> want;
        bool have = false;
        for (int m = 0; m < (1 << onoff.size()); ++m) {
            if (!T && m % 4 != static_cast<int>(k % 4)) { continue; }
            ctx.test([&] {
                if (!have) { want = brute(ps[k]); have = true; }
                std::vector<std::pair<std::string, std::string>> o;
                for (size_t i = 0; i < onoff.size(); ++i) { o.emplace_back(onoff[i], (m >> i) & 1 ? "yes" : "no"); }
                for (char const *l : {"0", "4294967295"}) {
                    auto c = flags(o);
                    c.opts.emplace_back("translate-opt", l);
                    check_opt(ctx, ps[k], {{m % 2 != 0, {{2, {0}}, {-1, {1}}, {-3, {}}}}}, want, c);
                }
                if (!want.empty()) { ctx.count(NONTRIV); }
            });
        }
    }
}

static void c26(Ctx &ctx) {
    bool T = ctx.thorough();
    auto ps = pool();
    // order atoms of two constraints of every type next to each other
    for (size_t k = 0; k < ps.size(); ++k) {
        std::vector<Sol> want;
        bool have = false;
        auto each = [&](Conf c) {
            ctx.test([&] {
                if (!have) { want = brute(ps[k]); have = true; }
                compare(ctx, ps[k], want, c);
                if (!want.empty()) { ctx.count(NONTRIV); }
                uint64_t h = k;
                for (auto const &s : want) { h = h * 1000003 + s.mask; for (I v : s.vals) { h = h * 1000003 + static_cast<uint64_t>(v); } }
                ctx.outcome(h);
            });
        };
        // every pair of clause limits
        for (int n = 0; n <= (T ? 60 : 24); ++n) {
            for (int m = 0; m <= (T ? 160 : 40); m += (T ? 1 : (m < 12 ? 1 : 7))) {
                for (int f = 0; f < 4; ++f) {
                    each(flags({{"translate-clauses", cat(n, ",", m)}, {"literals-only", f & 1 ? "yes" : "no"}, {"add-order-clauses", f & 2 ? "yes" : "no"}, {"translate-pb", "0"}, {"translate-distinct", n % 2 ? "0" : "100"}, {"check-solution", "yes"}}));
                }
            }
        }
        // every ratio for weight constraints
        for (double r = 0; r <= (T ? 8 : 4); r += (T ? 0.05 : 0.125)) {
            for (char const *n : {"0,0", "2,100", "0,1000"}) {
                for (int f = 0; f < 2; ++f) {
                    each(flags({{"translate-clauses", n}, {"translate-pb", cat(r)}, {"sort-constraints", f ? "yes" : "no"}, {"translate-distinct", f ? "0" : "100"}, {"check-state", "yes"}}));
                }
            }
        }
        // every distinct limit
        for (int n = 0; n <= (T ? 40 : 16); ++n) {
            for (char const *c : {"0,0", "3,50", "1000,10000"}) {
                for (char const *pb : {"0", "100"}) {
                    each(flags({{"translate-clauses", c}, {"translate-pb", pb}, {"translate-distinct", cat(n)}, {"add-order-clauses", n % 2 ? "yes" : "no"}}));
                }
            }
        }
        // every limit for translating objectives
        std::vector<Sol> all;
        bool hall = false;
        for (int n = 0; n <= (T ? 40 : 16); ++n) {
            for (int o = 0; o < 4; ++o) {
                ctx.test([&] {
                    if (!hall) { all = brute(ps[k]); hall = true; }
                    std::vector<Objective> os{{(o & 1) != 0, {{o & 2 ? 3 : -1, {0}}, {2, {1}}, {o - 2, {}}}}};
                    for (char const *c : {"0,0", "4,30", "1000,10000"}) {
                        for (int a = 0; a < 2; ++a) {
                            auto conf = flags({{"translate-clauses", c}, {"translate-opt", cat(n)}}, a ? std::vector<std::string>{"0", "--opt-mode=optN"} : std::vector<std::string>{"0"});
                            check_opt(ctx, ps[k], os, all, conf);
                        }
                    }
                    if (!all.empty()) { ctx.count(NONTRIV); }
                });
            }
        }
    }
    // weight constraints and clauses of a single constraint, over all small coefficients, reified and conditional
    std::vector<I> co = T ? std::vector<I>{-4, -3, -2, -1, 1, 2, 3, 4} : std::vector<I>{-3, -1, 2};
    product({co, co, co, T ? range(-6, 6) : std::vector<I>{-2, 1, 3}, range(0, 5), {0, 1, 3, 4, 7, 8}}, [&](auto const &v) {
        ctx.test([&] {
            Program p;
            domains(p, {"x", "y", "z"}, {{{0, 2}}, {{-1, 0}, {2, 2}}, {{1, 3}}});
            place(p, sum_atom(N, {{v[0], {0}}, {v[1], {1}}, {v[2], {2}}}, RELS[v[4]], v[3]), static_cast<int>(v[5]));
            auto want = brute(p);
            for (char const *c : {"0,0", "1,100", "3,100", "6,100", "12,100", "100,100", "100,5"}) { compare(ctx, p, want, flags({{"translate-clauses", c}, {"translate-pb", "0"}})); }
            for (char const *c : {"0.5", "1", "2", "100"}) { compare(ctx, p, want, flags({{"translate-clauses", "0,100"}, {"translate-pb", c}})); }
            compare(ctx, p, want, flags({{"translate-clauses", "0,100"}, {"literals-only", "yes"}}));
            compare(ctx, p, want, flags({{"translate-clauses", "100,100"}, {"literals-only", "yes"}}));
            if (!want.empty()) { ctx.count(NONTRIV); }
        });
    });
}

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    auto go = [&](char const *rule, void (*f)(Ctx &)) { return run_check(program_check(id, rule, f), argc, argv); };
    if (id == "C07") { return go("every program of the pool with every objective of the listed family, solved under 13 configurations; every reported model and cost is compared with the brute-force optimum", c07); }
    if (id == "C08") { return go("every program of the pool under the complete product of the Boolean options and products of the remaining options, solver options and threads", c08); }
    if (id == "C26") { return go("every program of the pool under every translation limit from nothing translated to everything translated", c26); }
    return 2;
}
