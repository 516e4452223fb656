// C09 multi-shot solving, C20 assignment interface, C22 statistics, C23 assumptions and externals
#include "pool.hh"
#include <cmath>
using namespace V;

static std::vector<std::string> const N{"x", "y", "z", "w"};
static constexpr I LO = -1, HI = 3;

struct Frag {
    std::vector<int> vars;
    std::vector<int> choice;
    std::vector<Rule> rules;
    std::vector<Objective> obj;
    std::string extra;
    std::string text() const {
        std::string t = extra;
        Program p;
        p.choice = choice;
        p.rules = rules;
        t += p.text();
        for (auto const &o : obj) { t += o.text(N); }
        return t;
    }
};

static Atom S(std::vector<I> const &co, std::string const &rel, I rhs) {
    std::vector<Mono> ms;
    for (size_t i = 0; i < co.size(); ++i) { if (co[i] != 0) { ms.push_back({co[i], {static_cast<int>(i)}}); } }
    return sum_atom(N, ms, rel, rhs);
}

static constexpr int NFRAG = 24;
// objectives contain the step because clingo merges identical atoms grounded without solving in between
static Frag frag(int f, int step) {
    int a = 2 * step, b = 2 * step + 1;
    Poly x{{1, {0}}}, y{{1, {1}}}, z{{1, {2}}}, w{{1, {3}}};
    auto NS = [&](std::vector<Mono> const &ms, std::string const &rel, I rhs) { return sum_atom(N, ms, rel, rhs, "nsum"); };
    switch (f) {
        case 0: return {{}, {}, {}, {}, ""};
        case 1: return {{0, 1}, {}, {thead(S({1, -1}, "<=", 0))}, {}, ""};
        case 2: return {{0, 1, 2}, {a}, {thead(S({1, 1, 1}, "<=", 3), {blit(a)})}, {}, ""};
        case 3: return {{0, 2}, {}, {bhead(a, {tlit(S({1, 0, 1}, ">=", 2))})}, {}, ""};
        case 4: return {{0, 1, 2}, {}, {thead(distinct_atom(N, {x, y, z}))}, {}, ""};
        case 5: return {{0, 1, 3}, {a}, {thead(distinct_atom(N, {x, {{1, {1}}, {1, {}}}, w, {{1, {}}}}), {blit(a)})}, {}, ""};
        case 6: return {{0}, {}, {thead(dom_atom(N, 0, {{0, 0}, {2, 3}}))}, {}, ""};
        case 7: return {{1}, {a}, {thead(dom_atom(N, 1, {{-1, -1}, {1, 1}}), {blit(a)})}, {}, ""};
        case 8: return {{0, 1, 2}, {}, {thead(NS({{1, {0, 1}}, {-1, {2}}}, "<=", 1))}, {}, ""};
        case 9: return {{0, 2}, {}, {bhead(a, {tlit(NS({{1, {0, 2}}}, ">=", 2))})}, {}, ""};
        case 10: return {{0, 1, 2}, {}, {thead(disjoint_atom(N, {{0, 1}, {1, 2}, {2, 1}}))}, {}, ""};
        case 11: return {{0, 1}, {}, {}, {{false, {{1, {0}}, {-2, {1}}, {3 + step, {}}}}}, ""};
        case 12: return {{0, 2}, {}, {}, {{true, {{1, {0}}, {1, {2}}, {1 + step, {}}}}}, ""};
        case 13: return {{0}, {a}, {constraint({blit(a), tlit(S({1}, ">", 1))})}, {}, ""};
        case 14: return {{1, 2}, {a}, {thead(diff_atom(N, 1, 2, -1), {blit(a)})}, {}, ""};
        case 15: return {{0, 1, 3}, {}, {thead(S({1, 1, 0, -1}, "=", 0))}, {}, ""};
        case 16: return {{0}, {}, {thead(S({1}, "=", 2))}, {}, ""};
        case 17: return {{0, 1}, {}, {bhead(a, {tlit(S({1, 1}, "=", 2), true)}), bhead(b, {blit(a), tlit(S({1, -1}, "!=", 1))})}, {}, ""};
        case 18: return {{2}, {a}, {thead(S({0, 0, 2}, "<=", 3), {blit(a)}), constraint({blit(a, true), tlit(S({0, 0, 1}, "=", 0))})}, {}, ""};
        case 19: return {{0, 3}, {}, {thead(distinct_atom(N, {x, w})), bhead(b, {tlit(S({1, 0, 0, 1}, "<", 2))})}, {}, ""};
        case 20: return {{1, 2}, {}, {thead(disjoint_atom(N, {{1, 2}, {2, 1}}), {tlit(S({0, 1, 1}, ">", 1))})}, {}, ""};
        case 21: return step > 0 ? Frag{{0, 2}, {}, {thead(S({1, 0, 1}, "=", 2), {blit(8)}), bhead(a, {blit(8, true)})}, {}, ""} : Frag{{0, 1}, {a}, {bhead(b, {tlit(S({2, -1}, ">", 1)), blit(a)})}, {}, ""};
        case 22: return {{3}, {}, {}, {{false, {{2, {3}}, {step, {}}}}, {true, {{-1, {3}}, {4 + step, {}}}}}, ""};
        case 23: return {{0, 1, 2, 3}, {a}, {thead(S({1, 1, -1, 1}, ">=", 1)), thead(S({1, 2, 3, -1}, "<=", 4), {blit(a)})}, {}, ""};
    }
    return {};
}

struct Acc {
    Program p;
    std::set<int> vars;
    std::vector<Objective> obj;
    Acc() {
        p.vars = N;
        p.values.assign(N.size(), {0});
    }
    void add(Frag const &f) {
        for (int v : f.vars) { vars.insert(v); p.values[v] = range(LO, HI); }
        p.choice.insert(p.choice.end(), f.choice.begin(), f.choice.end());
        p.rules.insert(p.rules.end(), f.rules.begin(), f.rules.end());
        obj.insert(obj.end(), f.obj.begin(), f.obj.end());
    }
};

// checks the models reported by one solve call
static void check_models(std::vector<Sol> got, std::vector<I> const &clasp_cost, std::vector<std::optional<I>> const &csp, Acc const &acc, std::vector<Sol> const &want, bool full, bool exhausted,
                         std::function<void(std::string const &)> const &fail) {
    (void)clasp_cost;
    for (auto &s : got) {
        for (size_t i = 0; i < N.size(); ++i) {
            if (acc.vars.count(static_cast<int>(i)) == 0) {
                if (s.vals[i] != UNDEF) { fail("a variable that does not occur has a value: " + show(s, N)); }
                s.vals[i] = 0;
            }
        }
    }
    if (acc.obj.empty()) {
        for (auto const &c : csp) { if (c) { fail("cost reported without objective"); } }
        if (full) {
            std::sort(got.begin(), got.end());
            if (got != want) { fail(diff(want, got, N)); }
        } else {
            if (want.empty() != got.empty()) { fail("wrong verdict"); }
            for (auto const &s : got) { if (!std::binary_search(want.begin(), want.end(), s)) { fail("not a solution: " + show(s, N)); } }
        }
    } else {
        std::optional<I> best, prev;
        for (auto const &s : want) { I c = cost(acc.obj, s.vals); if (!best || c < *best) { best = c; } }
        if (want.empty() != got.empty()) { fail("wrong verdict"); }
        for (size_t i = 0; i < got.size(); ++i) {
            if (!std::binary_search(want.begin(), want.end(), got[i])) { fail("not a solution: " + show(got[i], N)); }
            I c = cost(acc.obj, got[i].vals);
            if (csp[i] && *csp[i] != c) { fail(cat("reported cost ", *csp[i], " but the objective is ", c, ": ", show(got[i], N))); }
            if (prev && c >= *prev) { fail("a model does not improve"); }
            prev = c;
        }
        if (full && !got.empty() && *prev != *best) { fail(cat("the last model has cost ", *prev, " but the optimum is ", *best)); }
    }
    if (full && !exhausted) { fail("search not exhausted"); }
}

enum Mode { FULL, FIRST, NONE };

struct HistHook {
    std::function<std::string(int)> source; // additional statements of a step
    std::set<int> vars;                     // and the variables in these statements
    std::function<void(Theory &, Clingo::Model &, Sol const &, Acc const &)> model;
    std::function<void(Theory &, int, Acc const &, std::vector<Sol> const &, std::vector<std::optional<I>> const &, std::function<void(std::string const &)> const &)> step;
};

// runs a sequence of fragments with given solve modes and numbers of threads
static void history(Ctx &ctx, std::vector<int> const &fs, std::vector<Mode> const &modes, std::vector<int> const &threads, Conf const &conf_, HistHook *hook = nullptr) {
    // clasp loses one direction of half reified weight constraints in threads
    // that are added after the step introducing the constraint (reproducible
    // without clingcon), hence no pb translation in this case
    bool grow = false;
    for (size_t k = 1; k < threads.size(); ++k) { grow = grow || threads[k] > threads[k - 1]; }
    Conf conf = grow ? conf_.with("translate-pb", "0").with("translate-distinct", "0") : conf_;
    Acc acc;
    std::string text;
    auto fail = [&](std::string const &m) { throw Violation(report(text, conf, m)); };
    Theory t{conf};
    for (size_t k = 0; k < fs.size(); ++k) {
        auto f = frag(fs[k], static_cast<int>(k));
        if (hook && k == 0) { f.vars.insert(f.vars.end(), hook->vars.begin(), hook->vars.end()); }
        // fragment 21 refers to an atom of the first step
        if (k == 0 && std::find(fs.begin() + 1, fs.end(), 21) != fs.end()) { f.choice.push_back(8); }
        std::string part = cat("s", k);
        std::string src = cat("#program ", part, ". ", f.text(), hook && hook->source ? hook->source(static_cast<int>(k)) : "", "\n");
        text += src + "  % " + (modes[k] == FULL ? "enumerate" : modes[k] == FIRST ? "first model only" : "do not solve") + (threads[k] > 1 ? cat(", ", threads[k], " threads") : "") + "\n";
        try {
            t.add(src);
            t.ground(part.c_str());
            acc.add(f);
            if (modes[k] == NONE) { continue; }
            auto cfg = t.ctl().configuration();
            cfg["solve"]["parallel_mode"] = threads[k] > 1 ? cat(threads[k], ",compete").c_str() : "1,compete";
            cfg["solve"]["models"] = modes[k] == FULL ? "0" : "1";
            Handler h{t, N};
            std::vector<I> cc;
            std::vector<std::optional<I>> csp;
            h.hook = [&](Clingo::Model &m, Sol &s) {
                cc.push_back(m.cost().size() > 0 ? m.cost()[0] : UNDEF);
                std::optional<I> c;
                for (auto sy : m.symbols(Clingo::ShowType::Theory)) { if (sy.match("__csp_cost", 1)) { c = std::stoll(sy.arguments().front().string()); } }
                csp.push_back(c);
                if (hook && hook->model) { hook->model(t, m, s, acc); }
            };
            auto res = t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
            ctx.count(EXEC);
            ctx.count(SOLS, h.sols.size());
            auto want = brute(acc.p);
            check_models(h.sols, cc, csp, acc, want, modes[k] == FULL, res.is_exhausted(), [&](std::string const &m) { fail(cat("step ", k, ": ", m)); });
            if (hook && hook->step) { hook->step(t, static_cast<int>(k), acc, h.sols, csp, [&](std::string const &m) { fail(cat("step ", k, ": ", m)); }); }
            uint64_t o = k;
            for (auto const &s : want) { o = o * 1000003 + s.mask; for (I v : s.vals) { o = o * 31 + static_cast<uint64_t>(v); } }
            ctx.outcome(o);
            if (!want.empty()) { ctx.count(NONTRIV); }
        } catch (Violation &) {
            throw;
        } catch (std::exception &e) {
            fail(cat("step ", k, ": error: ", e.what()));
        }
    }
}

static std::vector<Conf> hconfs() {
    auto cs = confs(LO, HI);
    return {cs[0], cs[1], cs[2], cs[4], cs[5], cs[7], cs[0].with("translate-opt", "4294967295"), cs[4].with("translate-opt", "8")};
}

static void c09(Ctx &ctx) {
    bool T = ctx.thorough();
    auto cs = hconfs();
    std::vector<std::vector<Mode>> modes{{FULL, FULL, FULL}, {FIRST, FULL, FULL}, {FULL, FIRST, FULL}, {NONE, FULL, FULL}, {FULL, NONE, FULL}, {FIRST, FIRST, FULL}};
    // two steps: everything
    for (int f = 0; f < NFRAG; ++f) {
        for (int g = 0; g < NFRAG; ++g) {
            for (size_t m = 0; m < 3; ++m) {
                for (size_t c = 0; c < cs.size(); ++c) {
                    for (int th = 0; th < 4; ++th) {
                        if (!T && th > 0 && (f + g + static_cast<int>(m + c)) % 4 != 0) { continue; }
                        ctx.test([&] {
                            std::vector<std::vector<int>> ts{{1, 1}, {1, 2}, {2, 1}, {2, 3}};
                            history(ctx, {f, g}, {m == 0 ? FULL : m == 1 ? FIRST : NONE, FULL}, ts[th], cs[c]);
                        });
                    }
                }
            }
        }
    }
    // translation of constraints of earlier steps: the limits are such that
    // constraints can be translated only once their bounds became tighter
    for (int f : {2, 4, 5, 10, 15, 17, 19, 23}) {
        for (int g : {0, 1, 6, 7, 13, 16, 18}) {
            for (int m = 0; m < 2; ++m) {
                for (int th = 0; th < 3; ++th) {
                    for (int lim = 0; lim < 16; ++lim) {
                        for (int s = 0; s < (T ? 4 : 2); ++s) {
                            ctx.test([&] {
                                std::vector<std::vector<int>> ts{{1, 1}, {2, 2}, {2, 1}};
                                auto conf = Conf{{"0"}, {{"min-int", cat(LO)}, {"max-int", cat(HI)}}}.with("translate-distinct", cat(lim)).with("translate-pb", lim % 3 == 0 ? "0" : cat(lim / 3)).with("translate-clauses", lim % 2 == 0 ? "0" : cat(4 * lim));
                                if (s % 2 == 1) { conf = conf.arg("--sign-def=pos"); }
                                if (s / 2 == 1) { conf = conf.with("split-all", "yes").arg("--heuristic=Berkmin"); }
                                history(ctx, {f, g}, {m == 0 ? FULL : FIRST, FULL}, ts[th], conf);
                            });
                        }
                    }
                }
            }
        }
    }
    // three steps
    for (int f = 1; f < NFRAG; ++f) {
        for (int g = 0; g < NFRAG; ++g) {
            for (int h = 0; h < NFRAG; ++h) {
                for (size_t m = 0; m < (T ? modes.size() : 1); ++m) {
                    for (size_t c = 0; c < (T ? cs.size() : 2); ++c) {
                        ctx.test([&] {
                            size_t r = static_cast<size_t>(f * 7 + g * 3 + h);
                            auto const &mo = modes[T ? m : r % modes.size()];
                            std::vector<int> th = (r + c) % 5 == 0 ? std::vector<int>{2, 1, 2} : std::vector<int>{1, 1, 1};
                            history(ctx, {f, g, h}, mo, th, cs[T ? c : (r + c * 3) % cs.size()]);
                        });
                    }
                }
            }
        }
    }
    // four steps over the fragments that change bounds or objectives
    std::vector<int> sub{2, 3, 5, 6, 7, 11, 12, 13, 15, 16, 21};
    if (!T) { sub = {3, 6, 7, 11, 12, 15, 21}; }
    for (int a : sub) { for (int b : sub) { for (int c : sub) { for (int d : sub) {
        ctx.test([&] {
            size_t r = static_cast<size_t>(a + 3 * b + 5 * c + 7 * d);
            history(ctx, {a, b, c, d}, {r % 2 ? FULL : FIRST, r % 3 ? FULL : NONE, r % 5 ? FULL : FIRST, FULL}, {1, 1, 1, 1}, cs[r % cs.size()]);
        });
    } } } }
}

static void c20(Ctx &ctx) {
    bool T = ctx.thorough();
    auto cs = hconfs();
    // shows: the variables shown by the statement of the first step or none
    auto go = [&](std::vector<int> const &fs, std::vector<int> const &th, Conf const &conf, std::optional<std::set<std::string>> const &shows = {}) {
        std::map<std::string, size_t> index;
        std::string prob;
        HistHook hk;
        if (shows) {
            for (size_t i = 0; i < N.size(); ++i) { if (shows->count(N[i]) > 0) { hk.vars.insert(static_cast<int>(i)); } }
            hk.source = [&](int k) {
                std::string r = "&show{ ";
                for (auto const &n : *shows) { r += (r.size() > 7 ? "; " : "") + n; }
                return k == 0 ? r + " }. " : std::string{};
            };
        }
        auto inspect = [&](Theory &t, uint32_t tid, Acc const &acc, Sol const *sol) -> std::string {
            std::map<std::string, size_t> seen;
            size_t idx = 0, steps = 0;
            clingcon_assignment_begin(t.c(), tid, &idx);
            while (clingcon_assignment_next(t.c(), tid, &idx)) {
                if (++steps > 1000) { return "iteration does not terminate"; }
                if (!clingcon_assignment_has_value(t.c(), tid, idx)) { return "iterated variable has no value"; }
                Clingo::Symbol s{clingcon_get_symbol(t.c(), idx)};
                size_t back = 0;
                if (!clingcon_lookup_symbol(t.c(), s.to_c(), &back) || back != idx) { return cat("lookup of ", s.to_string(), " does not return its index"); }
                if (!seen.emplace(s.to_string(), idx).second) { return cat(s.to_string(), " visited twice"); }
                if (sol) {
                    clingcon_value_t v;
                    clingcon_assignment_get_value(t.c(), tid, idx, &v);
                    if (v.type != clingcon_value_type_int) { return "unexpected value type"; }
                    for (size_t i = 0; i < N.size(); ++i) { if (s.to_string() == N[i] && v.int_number != sol->vals[i]) { return "value differs"; } }
                }
            }
            std::set<std::string> names;
            for (int v : acc.vars) { names.insert(N[v]); }
            std::set<std::string> got;
            for (auto const &[n, i] : seen) { got.insert(n); }
            if (names != got) {
                std::string r = "iteration visits:";
                for (auto const &n : got) { r += " " + n; }
                return r;
            }
            for (auto const &[n, i] : seen) {
                auto [it, ins] = index.emplace(n, i);
                if (!ins && it->second != i) { return cat("index of ", n, " changed"); }
            }
            for (char const *n : {"u", "x(1)", "1", "-x", "\"x\""}) {
                size_t i = 0;
                if (clingcon_lookup_symbol(t.c(), sym(n).to_c(), &i)) { return cat("lookup of unknown symbol ", n, " succeeds"); }
            }
            return "";
        };
        hk.model = [&](Theory &t, Clingo::Model &m, Sol const &s, Acc const &acc) {
            std::map<std::string, I> shown;
            for (auto y : m.symbols(Clingo::ShowType::Theory)) {
                if (y.match("__csp", 2)) {
                    if (!shown.emplace(y.arguments()[0].to_string(), y.arguments()[1].number()).second) { prob = "variable shown twice"; }
                }
            }
            for (size_t i = 0; i < N.size(); ++i) {
                bool in = acc.vars.count(static_cast<int>(i)) > 0;
                bool vis = in && (!shows || shows->count(N[i]) > 0);
                if (vis != (shown.count(N[i]) > 0)) { prob = "model does not contain exactly the named variables"; }
                if (vis && shown[N[i]] != s.vals[i]) { prob = cat("model shows ", N[i], "=", shown[N[i]], " but the interface returns ", s.vals[i]); }
            }
            for (auto const &[n, i] : shown) { if (std::find(N.begin(), N.end(), n) == N.end()) { prob = "model shows additional variables"; } }
            auto r = inspect(t, m.thread_id(), acc, &s);
            if (!r.empty()) { prob = r; }
            ctx.count(CHECKS);
        };
        hk.step = [&](Theory &t, int, Acc const &acc, std::vector<Sol> const &, std::vector<std::optional<I>> const &, std::function<void(std::string const &)> const &fail) {
            if (!prob.empty()) { fail(prob); }
            auto r = inspect(t, 0, acc, nullptr);
            if (!r.empty()) { fail("after solving: " + r); }
        };
        history(ctx, fs, std::vector<Mode>(fs.size(), FULL), th, conf, &hk);
    };
    for (int f = 0; f < NFRAG; ++f) {
        for (int g = 0; g < NFRAG; ++g) {
            for (size_t c = 0; c < cs.size(); ++c) {
                for (int th = 0; th < 2; ++th) { ctx.test([&] { go({f, g}, th ? std::vector<int>{1, 3} : std::vector<int>{1, 1}, cs[c]); }); }
            }
            // hidden variables are named variables, too
            for (auto const &sh : std::vector<std::set<std::string>>{{}, {"x"}, {"y", "w"}}) {
                ctx.test([&] { go({f, g}, {1, 1}, cs[static_cast<size_t>(f + g) % cs.size()], sh); });
            }
            for (int h = 0; h < NFRAG; h += T ? 1 : 5) {
                for (size_t c = 0; c < (T ? cs.size() : 1); ++c) { ctx.test([&] { go({f, g, h}, {1, 2, 1}, cs[T ? c : static_cast<size_t>(f + g + h) % cs.size()]); }); }
            }
        }
    }
    // variable names of every kind
    // (-x is not a name but an operator applied to x)
    std::vector<std::string> names{"x", "x(1)", "f(x,1)", "\"s\"", "(1,2)", "(a,)", "\"a\\\"b\\\\n\\n\"", "g(\"s\",(1,2))", "f(f(f(x,1)))", "longer_name'"};
    for (size_t i = 0; i < names.size(); ++i) {
        for (size_t j = 0; j < names.size(); ++j) {
            if (i == j) { continue; }
            for (auto const &conf : confs(LO, HI)) {
                ctx.test([&] {
                    std::string text = cat("&sum{ ", names[i], "; ", names[j], " } = 1. &dom{ 0..1 } = ", names[i], ".");
                    Program p;
                    p.vars = {names[i], names[j]};
                    auto r = run(text, p.vars, conf);
                    ctx.count(EXEC);
                    std::vector<Sol> want;
                    { for (I a = 0; a <= 1; ++a) { want.push_back({0, {a, 1 - a}}); } }
                    for (auto &s : r.sols) { s.mask = 0; }
                    std::sort(r.sols.begin(), r.sols.end());
                    if (r.error || r.sols != want) { throw Violation(report(text, conf, r.error ? r.msg : diff(want, r.sols, p.vars))); }
                    ctx.outcome(text);
                });
            }
        }
    }
}

static void c22(Ctx &ctx) {
    bool T = ctx.thorough();
    auto cs = hconfs();
    for (auto &c : cs) { c.args.emplace_back("--stats=2"); }
    struct Flat {
        static void rec(Clingo::Statistics s, std::string const &path, std::map<std::string, double> &out) {
            switch (s.type()) {
                case Clingo::StatisticsType::Value: out[path] = s.value(); break;
                case Clingo::StatisticsType::Array: for (size_t i = 0; i < s.size(); ++i) { rec(s[i], cat(path, "/", i), out); } break;
                case Clingo::StatisticsType::Map: for (auto const *k : s.keys()) { rec(s[k], path + "/" + k, out); } break;
                default: break;
            }
        }
    };
    auto go = [&](std::vector<int> const &fs, std::vector<int> const &th, Conf const &conf) {
        std::map<std::string, double> total;
        std::set<int> known;
        std::optional<I> last_cost;
        HistHook hk;
        int prev = -1;
        hk.step = [&](Theory &t, int k, Acc const &acc, std::vector<Sol> const &, std::vector<std::optional<I>> const &csp, std::function<void(std::string const &)> const &fail) {
            std::map<std::string, double> step, accu;
            auto st = t.ctl().statistics();
            Flat::rec(st["user_step"]["Clingcon"], "", step);
            Flat::rec(st["user_accu"]["Clingcon"], "", accu);
            ctx.count(CHECKS, step.size() + accu.size());
            std::optional<I> c;
            if (!csp.empty()) { c = csp.back(); }
            auto has = [](std::map<std::string, double> const &m, std::string const &key) { return m.count(key) > 0; };
            for (char const *key : {"/Init time in seconds/Total", "/Init time in seconds/Simplify", "/Init time in seconds/Translate", "/Problem/Constraints", "/Problem/Variables", "/Problem/Clauses", "/Problem/Literals", "/Translate/Constraints removed",
                                    "/Translate/Constraints added", "/Translate/Clauses", "/Translate/Weight constraints", "/Translate/Literals"}) {
                if (!has(step, key) || !has(accu, key)) { fail(cat("statistics lack ", key)); }
            }
            // cost: of the last model of the step, and the latest one overall
            if (c) {
                last_cost = c;
                if (!has(step, "/Cost") || step["/Cost"] != static_cast<double>(*c)) { fail("step cost is not the cost of the last model"); }
            } else if (has(step, "/Cost") && (!last_cost || step["/Cost"] != static_cast<double>(*last_cost))) {
                // clingo offers no means to remove a key added in an earlier step
                fail("step cost without model");
            }
            if (last_cost) {
                if (!has(accu, "/Cost") || accu["/Cost"] != static_cast<double>(*last_cost)) { fail("accumulated cost is not the latest cost"); }
            } else if (has(accu, "/Cost")) { fail("accumulated cost without model"); }
            // variables introduced since the last statistics
            int nv = 0;
            for (int v : acc.vars) { if (known.insert(v).second) { ++nv; } }
            if (step["/Problem/Variables"] != nv) { fail(cat("step reports ", step["/Problem/Variables"], " variables instead of ", nv)); }
            if (accu["/Problem/Variables"] != static_cast<double>(known.size())) { fail(cat("accumulated statistics report ", accu["/Problem/Variables"], " variables instead of ", known.size())); }
            // one entry per thread
            for (int i = 0; i < th[k]; ++i) {
                for (char const *key : {"Time in seconds/Total", "Time in seconds/Propagation", "Time in seconds/Check", "Time in seconds/Undo", "Refined reason", "Introduced reason", "Literals introduced"}) {
                    if (!has(step, cat("/Thread/", i, "/", key)) || !has(accu, cat("/Thread/", i, "/", key))) { fail(cat("no statistics '", key, "' for thread ", i)); }
                }
            }
            // sums
            for (auto const &[key, v] : step) { if (key != "/Cost") { total[key] += v; } if (v < 0 && key != "/Cost" && key != "/Problem/Constraints") { fail(cat("negative value for ", key)); } }
            for (auto const &[key, v] : accu) {
                if (key == "/Cost") { continue; }
                double w = total.count(key) ? total[key] : 0;
                if (std::abs(w - v) > 1e-6 * std::max(1.0, std::abs(v)) + 1e-9) { fail(cat("accumulated value of ", key, " is ", v, " but the steps sum up to ", w)); }
            }
            for (auto const &[key, v] : total) { if (accu.count(key) == 0 && v != 0) { fail(cat("no accumulated value for ", key)); } }
            // thread totals are the sum of their parts
            for (auto const &m : {step, accu}) {
                for (int i = 0; i < th[k]; ++i) {
                    auto g = [&](char const *x) { return m.at(cat("/Thread/", i, "/Time in seconds/", x)); };
                    if (std::abs(g("Total") - g("Propagation") - g("Check") - g("Undo")) > 1e-6) { fail("total time is not the sum of its parts"); }
                }
            }
            prev = k;
        };
        std::vector<Mode> modes(fs.size(), FULL);
        if ((fs[0] + fs.back()) % 3 == 0) { modes[0] = FIRST; }
        history(ctx, fs, modes, th, conf, &hk);
    };
    for (int f = 0; f < NFRAG; ++f) {
        for (int g = 0; g < NFRAG; ++g) {
            for (size_t c = 0; c < cs.size(); ++c) {
                for (int th = 0; th < 3; ++th) { ctx.test([&] { go({f, g}, th == 0 ? std::vector<int>{1, 1} : th == 1 ? std::vector<int>{1, 2} : std::vector<int>{3, 1}, cs[c]); }); }
            }
            for (int h = 0; h < NFRAG; h += T ? 1 : 4) {
                for (size_t c = 0; c < (T ? cs.size() : 1); ++c) { ctx.test([&] { go({f, g, h}, {1, 1, 1}, cs[T ? c : static_cast<size_t>(f + g + h) % cs.size()]); }); }
            }
        }
    }
    // the constraints of a step are counted exactly if nothing is translated or simplified away
    for (int f : {1, 2, 3, 4, 5, 8, 9, 10, 14, 15, 23, 11, 12}) {
        for (int g : {0, 1, 2, 4, 8, 10, 11, 12, 15, 23}) {
            ctx.test([&] {
                std::map<int, int> num{{0, 0}, {1, 1}, {2, 1}, {3, 2}, {4, 1}, {5, 1}, {8, 1}, {9, 2}, {10, 1}, {14, 1}, {15, 2}, {23, 2}, {11, 1}, {12, 1}};
                auto conf = cs[0];
                std::vector<double> got;
                HistHook hk;
                hk.step = [&](Theory &t, int, Acc const &, std::vector<Sol> const &, std::vector<std::optional<I>> const &, std::function<void(std::string const &)> const &) {
                    got.push_back(t.ctl().statistics()["user_step"]["Clingcon"]["Problem"]["Constraints"].value());
                };
                history(ctx, {f, g}, {FULL, FULL}, {1, 1}, conf, &hk);
                bool of = f == 11 || f == 12, og = g == 11 || g == 12;
                (void)og;
                // an existing objective is merged with a new one
                double w0 = num[f], w1 = num[g] - (of && og ? 1 : 0);
                if (got.size() != 2 || got[0] != w0 || got[1] != w1) { throw Violation(report(frag(f, 0).text() + "\n" + frag(g, 1).text(), conf, cat("expected ", w0, " and ", w1, " constraints in the steps but got ", got.at(0), " and ", got.at(1)))); }
            });
        }
    }
    // objectives are merged over steps and count as one constraint
    std::vector<std::string> const obj{"", "&minimize{x}.", "&minimize{x;y}.", "&maximize{y}.", "&minimize{3}.", "&minimize{2*x; -x}.", "&minimize{x; -x}.", "&sum{x;y} <= 5.", "&minimize{x}. &maximize{y;3}."};
    size_t n = obj.size();
    for (size_t i = 0; i < n * n * n; ++i) {
        for (int th = 1; th < 3; ++th) {
            ctx.test([&] {
                auto conf = cs[0];
                if (th > 1) { conf.args.emplace_back("-t2"); }
                std::vector<size_t> fs{i % n, i / n % n, i / n / n};
                std::string text;
                Theory t{conf};
                bool had = false;
                for (int k = 0; k < 3; ++k) {
                    std::string part = cat("#program p", k, ". ", k == 0 ? "&dom{0..3}=x. &dom{0..3}=y. " : "", obj[fs[k]], " step(", k, ").");
                    text += cat("step ", k, ": ", part, "\n");
                    t.add(part);
                    t.ground(cat("p", k).c_str());
                    t.prepare();
                    Handler h{t, {"x", "y"}};
                    t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
                    ctx.count(EXEC);
                    bool isobj = obj[fs[k]].find("imize") != std::string::npos;
                    int want = fs[k] == 7 ? 1 : isobj && !had ? 1 : 0;
                    had = had || isobj;
                    double got = t.ctl().statistics()["user_step"]["Clingcon"]["Problem"]["Constraints"].value();
                    if (got != want) { throw Violation(report(text, conf, cat("expected ", want, " constraints in step ", k, " but got ", got))); }
                }
                ctx.count(NONTRIV);
                ctx.outcome(i);
            });
        }
    }
}

static void c23(Ctx &ctx) {
    bool T = ctx.thorough();
    auto ps = pool();
    struct Call { std::vector<std::pair<int, bool>> as; int ext; }; // ext: 0 keep, 1 true, 2 false, 3 free
    auto cs = confs(-4, 9);
    std::vector<Conf> sel{cs[0], cs[2], cs[4], cs[5], cs[7]};
    for (size_t k = 0; k < ps.size(); ++k) {
        auto p = ps[k];
        std::set<int> atoms(p.choice.begin(), p.choice.end());
        for (auto const &r : p.rules) { if (r.head == Rule::BOOL) { atoms.insert(r.boolean); } }
        // an external switching on an additional constraint
        p.extra += "#external h. ";
        p.choice.push_back(7);
        int nv = static_cast<int>(p.vars.size());
        (void)nv;
        p.rules.push_back(thead(S({1, 1}, "<=", 1), {blit(7)}));
        if (atoms.empty()) { p.choice.push_back(6); atoms.insert(6); p.rules.push_back(thead(S({1, -1}, ">=", 0), {blit(6)})); }
        std::string text = p.text();
        // the external is not a choice
        auto pos = text.find("{h}. ");
        text.erase(pos, 5);
        std::vector<Call> calls;
        std::vector<int> av(atoms.begin(), atoms.end());
        for (int e = 0; e < 4; ++e) {
            calls.push_back({{}, e});
            for (size_t i = 0; i < std::min<size_t>(av.size(), 2); ++i) {
                for (bool b : {false, true}) {
                    if (e == 0 || i == 0) { calls.push_back({{{av[i], b}}, e}); }
                    for (size_t j = 0; j < i; ++j) { for (bool c : {false, true}) { if (e == 0) { calls.push_back({{{av[i], b}, {av[j], c}}, e}); } } }
                }
            }
        }
        std::vector<Sol> all;
        bool have = false;
        int n = static_cast<int>(calls.size());
        for (int obj = 0; obj < 3; ++obj) {
            std::vector<Objective> os;
            if (obj == 1) { os = {{false, {{1, {0}}, {-2, {1}}}}}; }
            if (obj == 2) { os = {{true, {{2, {0}}, {1, {1}}, {1, {}}}}}; }
            for (int c1 = 0; c1 < n; ++c1) { for (int c2 = 0; c2 < n; ++c2) { for (int c3 = 0; c3 < n; ++c3) {
                if (!T && (c1 + 2 * c2 + 3 * c3 + obj) % 7 != 0) { continue; }
                ctx.test([&] {
                    if (!have) { all = brute(p); have = true; }
                    size_t ci = static_cast<size_t>(c1 + c2 + c3 + obj);
                    for (size_t q = 0; q < (T ? sel.size() : 1); ++q) {
                        auto conf = sel[(ci + q) % sel.size()];
                        std::string t2 = text;
                        for (auto const &o : os) { t2 += o.text(N); }
                        std::string hist;
                        try {
                            Theory t{conf};
                            t.add(t2);
                            t.ground();
                            t.prepare();
                            int ext = 2;
                            for (int ii : {c1, c2, c3}) {
                                auto const &call = calls[ii];
                                std::vector<Clingo::SymbolicLiteral> as;
                                hist += "\nsolve(";
                                for (auto [a, b] : call.as) {
                                    as.emplace_back(sym(std::string(1, BN[a])), b);
                                    hist += cat(b ? "" : "not ", BN[a], " ");
                                }
                                if (call.ext != 0) {
                                    ext = call.ext;
                                    t.ctl().assign_external(sym("h"), ext == 1 ? Clingo::TruthValue::True : ext == 2 ? Clingo::TruthValue::False : Clingo::TruthValue::Free);
                                }
                                hist += cat(") with external ", ext == 1 ? "true" : ext == 2 ? "false" : "free");
                                std::vector<Sol> want;
                                for (auto const &s : all) {
                                    bool ok = ext == 3 || ((s.mask >> 7) & 1) == (ext == 1);
                                    for (auto [a, b] : call.as) { ok = ok && ((s.mask >> a) & 1) == b; }
                                    if (ok) { want.push_back(s); }
                                }
                                Handler h{t, p.vars};
                                std::vector<std::optional<I>> csp;
                                h.hook = [&](Clingo::Model &m, Sol &) {
                                    std::optional<I> c;
                                    for (auto sy : m.symbols(Clingo::ShowType::Theory)) { if (sy.match("__csp_cost", 1)) { c = std::stoll(sy.arguments().front().string()); } }
                                    csp.push_back(c);
                                };
                                auto res = t.ctl().solve(Clingo::SymbolicLiteralSpan{as.data(), as.size()}, &h, false, false).get();
                                ctx.count(EXEC);
                                auto fail = [&](std::string const &m) { throw Violation(report(t2 + hist, conf, m)); };
                                if (os.empty()) {
                                    std::sort(h.sols.begin(), h.sols.end());
                                    if (h.sols != want) { fail(diff(want, h.sols, p.vars)); }
                                } else {
                                    std::optional<I> best, prev;
                                    for (auto const &s : want) { I c = cost(os, s.vals); if (!best || c < *best) { best = c; } }
                                    if (want.empty() != h.sols.empty()) { fail("wrong verdict"); }
                                    for (size_t i = 0; i < h.sols.size(); ++i) {
                                        if (!std::binary_search(want.begin(), want.end(), h.sols[i])) { fail("not a solution: " + show(h.sols[i], p.vars)); }
                                        I c = cost(os, h.sols[i].vals);
                                        if (csp[i] && *csp[i] != c) { fail("wrong cost"); }
                                        prev = c;
                                    }
                                    if (best && *prev != *best) { fail(cat("last cost ", *prev, " instead of ", *best)); }
                                }
                                if (!res.is_exhausted()) { fail("search not exhausted"); }
                                if (!want.empty()) { ctx.count(NONTRIV); }
                                ctx.outcome(k * 1000003ULL + want.size() * 131 + static_cast<uint64_t>(ii));
                            }
                        } catch (Violation &) {
                            throw;
                        } catch (std::exception &e) {
                            throw Violation(report(t2 + hist, conf, cat("error: ", e.what())));
                        }
                    }
                });
            } } }
        }
    }
}

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    auto go = [&](char const *rule, void (*f)(Ctx &)) { return run_check(program_check(id, rule, f), argc, argv); };
    if (id == "C09") { return go("all sequences of program fragments (24 fragments) up to the listed length with solve modes, thread counts and configurations; after every step the answer is compared with brute force on the accumulated program", c09); }
    if (id == "C20") { return go("all sequences of program fragments; after every model and step the complete assignment is iterated through the C interface; all variable names of a list", c20); }
    if (id == "C22") { return go("all sequences of program fragments with thread counts; after every step the statistics tree is compared with the models and with the sum over all steps", c22); }
    if (id == "C23") { return go("all sequences of three solve calls over all assumption sets of size at most two and all external values, with and without objective, for every program of the pool", c23); }
    return 2;
}
