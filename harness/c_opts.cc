// C19: options, per thread and per theory
#include "mock_api.hh"
#include "pool.hh"
using namespace V;

namespace {

// {{{ captured options

struct Option {
    std::string group, desc;
    bool (*parse)(char const *, void *){nullptr};
    void *data{nullptr};
    bool multi{false};
    std::string arg;
    bool *flag{nullptr};
};

struct Options {
    std::map<std::string, Option> opts;
    std::vector<std::string> errors;
};

} // namespace

extern "C" bool clingo_options_add(clingo_options_t *o, char const *group, char const *option, char const *description, bool (*parse)(char const *value, void *data), void *data, bool multi, char const *argument) {
    auto &os = *reinterpret_cast<Options *>(o);
    Option x;
    x.group = group; x.desc = description; x.parse = parse; x.data = data; x.multi = multi; x.arg = argument != nullptr ? argument : "";
    std::string name = option;
    name = name.substr(0, name.find(','));
    if (!os.opts.emplace(name, x).second) { os.errors.push_back("option " + name + " added twice"); }
    return true;
}
extern "C" bool clingo_options_add_flag(clingo_options_t *o, char const *group, char const *option, char const *description, bool *target) {
    auto &os = *reinterpret_cast<Options *>(o);
    Option x;
    x.group = group; x.desc = description; x.flag = target;
    std::string name = option;
    name = name.substr(0, name.find(','));
    if (!os.opts.emplace(name, x).second) { os.errors.push_back("option " + name + " added twice"); }
    return true;
}

namespace {

Options reg(clingcon_theory_t *t) {
    Options o;
    handle_error(clingcon_register_options(t, reinterpret_cast<clingo_options_t *>(&o)));
    if (!o.errors.empty()) { throw Violation(o.errors[0]); }
    return o;
}

// the value that the help text shows in brackets
std::string shown(Options const &o, std::string const &name) {
    auto it = o.opts.find(name);
    if (it == o.opts.end()) { throw Violation("option " + name + " is not registered"); }
    auto const &d = it->second.desc;
    auto b = d.find('['), e = d.find(']', b);
    if (b == std::string::npos || e == std::string::npos) { throw Violation("description of " + name + " has no default"); }
    return d.substr(b + 1, e - b - 1);
}

struct Th {
    clingcon_theory_t *t{nullptr};
    Th() { handle_error(clingcon_create(&t)); }
    Th(Th const &) = delete;
    ~Th() { clingcon_destroy(t); }
};

// }}}
// {{{ traces

struct Set { std::string opt, val; int thread{-1}; std::string text() const { return thread < 0 ? val : cat(val, ",", thread); } };
std::string show(std::vector<Set> const &s) { std::string r; for (auto const &x : s) { r += "--" + x.opt + "=" + x.text() + " "; } return r; }

struct Model { std::string text; std::vector<std::string> vars; };
Model const M{"&dom{ -3..3 } = x. &dom{ -3..3 } = y. &dom{ -2..(-1); 1..3 } = z. &dom{ -3..2 } = w. {a}. &sum{ 3*x; 2*y; -1*z } <= 1. &sum{ x; y; z } >= -1 :- a. &sum{ -1*w; 2*x; -2*z; 5*y } <= 3. &distinct{ x; y; z+1 }. b :- &sum{ 2*x; -1*w } <= 0. &sum{ 5*x; 3*y; 2*z; w } >= 2. &sum{ -3*x; 4*w; 7*z } <= 11 :- a. :- not a, &sum{ x; w } > 1.", {"x", "y", "z", "w"}};

struct Bench {
    std::unique_ptr<Ground> g;
    std::vector<Sol> none;
    std::map<std::string, std::string> memo;
    Ground const &ground() {
        if (!g) {
            Conf c{{"0"}, {{"translate-clauses", "0,0"}, {"translate-pb", "0"}, {"translate-distinct", "0"}, {"min-int", "-3"}, {"max-int", "3"}}};
            g = mock::ground(M.text, M.vars, c);
        }
        return *g;
    }
} bench;

// what thread t does (its complete search) after the given configuration
std::string trace(Ctx &ctx, std::function<void(clingcon_theory_t *)> conf, int t, int threads, std::function<void(Mock &)> const &after = {}) {
    Mock m{bench.ground()};
    Chooser ch;
    m.ch = &ch;
    m.ctx = &ctx;
    m.logging = true;
    m.max_steps = 400000;
    m.configure = std::move(conf);
    static std::vector<Sol> const none;
    std::string r;
    try {
        if (m.init(none, threads)) {
            auto &th = m.th[static_cast<size_t>(t)];
            int n = 0;
            m.search(th, [&](Thr &, Sol const &) { return ++n < 60; });
        }
    } catch (Violation &e) { r = cat("error: ", e.what(), "\n"); }
    if (after) { after(m); }
    std::istringstream in{m.log};
    std::string pre = cat("thread ", t, ":");
    for (std::string l; std::getline(in, l);) { r += (l.compare(0, pre.size(), pre) == 0 ? l.substr(pre.size()) : l) + "\n"; }
    r += m.cb.decide != nullptr ? "decide registered\n" : "no decide\n";
    ctx.count(EXEC);
    ctx.count(STATES, m.steps);
    return r;
}

std::string clip(std::string const &a, std::string const &b) {
    std::istringstream x{a}, y{b};
    std::string l, k;
    int n = 0;
    while (true) {
        bool p = !!std::getline(x, l), q = !!std::getline(y, k);
        if (!p && !q) { return "equal"; }
        if (!p) { l = "(end)"; }
        if (!q) { k = "(end)"; }
        if (l != k) { return cat("first difference in line ", n, ":\n  expected ", l, "\n  got      ", k); }
        ++n;
    }
}

void configure(clingcon_theory_t *t, std::vector<Set> const &s) {
    for (auto const &x : s) { if (!clingcon_configure(t, x.opt.c_str(), x.text().c_str())) { throw Violation(cat("configure rejects ", x.opt, "=", x.text(), ": ", clingo_error_message())); } }
}
void cli(clingcon_theory_t *t, std::vector<Set> const &s) {
    auto o = reg(t);
    for (auto const &x : s) {
        auto it = o.opts.find(x.opt);
        if (it == o.opts.end()) { throw Violation("option " + x.opt + " is not registered"); }
        if (it->second.flag != nullptr) { *it->second.flag = x.val == "yes"; }
        else if (!it->second.parse(x.text().c_str(), it->second.data)) { throw Violation("option --" + x.opt + "=" + x.text() + " is rejected"); }
    }
    if (!clingcon_validate_options(t)) { throw Violation(cat("validation fails: ", clingo_error_message())); }
}

// }}}

std::vector<std::pair<std::string, std::vector<std::string>>> const TOPTS{
    {"refine-reasons", {"yes", "no"}}, {"refine-introduce", {"yes", "no"}}, {"propagate-chain", {"yes", "no"}},
    {"split-all", {"no", "yes"}}, {"order-heuristic", {"none", "max-chain"}}, {"sign-value", {"1", "+", "-2", "-"}},
};
constexpr int NT = 3;

using Vec = std::map<std::string, std::vector<std::string>>; // option -> value per thread

std::string dflt(std::string const &o) {
    static auto const d = [] { Th t; return reg(t.t); }();
    return V::cat(shown(d, o));
}

// effective values: default, then global, then thread specific
Vec effective(std::vector<Set> const &s, bool commandline) {
    Vec r;
    std::map<std::string, std::vector<std::string>> specific;
    for (auto const &[o, vs] : TOPTS) { r[o] = std::vector<std::string>(NT, dflt(o)); specific[o] = std::vector<std::string>(NT, ""); }
    for (auto const &x : s) {
        if (x.thread < 0) { r[x.opt] = std::vector<std::string>(NT, x.val); if (!commandline) { specific[x.opt] = std::vector<std::string>(NT, ""); } }
        else if (x.thread < NT) { specific[x.opt][static_cast<size_t>(x.thread)] = x.val; }
    }
    for (auto &[o, vs] : r) { for (size_t i = 0; i < NT; ++i) { if (!specific[o][i].empty()) { vs[i] = specific[o][i]; } } }
    return r;
}

// reference trace: thread 0 determines the initialization, thread t its own search
std::string reference(Ctx &ctx, Vec const &v, int t) {
    auto ut = static_cast<size_t>(t);
    std::vector<Set> s;
    std::string key = cat(t, ":");
    bool chain = false;
    for (auto const &[o, vs] : v) {
        s.push_back({o, vs[0], -1});
        key += vs[0] + "/" + vs[ut] + " ";
        if (o == "order-heuristic") { chain = std::count(vs.begin(), vs.end(), "max-chain") > 0; }
    }
    for (auto const &[o, vs] : v) { if (vs[ut] != vs[0]) { s.push_back({o, vs[ut], t}); } }
    auto &r = bench.memo[key];
    if (r.empty()) { r = trace(ctx, [&](clingcon_theory_t *th) { configure(th, s); }, t, NT); r = r.substr(0, r.size() - (r.size() >= 10 && r.substr(r.size() - 10) == "no decide\n" ? 10 : 18)); }
    return r + (chain ? "decide registered\n" : "no decide\n");
}

void compare(Ctx &ctx, std::vector<Set> const &s, bool commandline) {
    auto v = effective(s, commandline);
    for (int t = 0; t < NT; ++t) {
        auto want = reference(ctx, v, t);
        auto got = trace(ctx, [&](clingcon_theory_t *th) { if (commandline) { cli(th, s); } else { configure(th, s); } }, t, NT);
        ctx.count(CHECKS);
        if (want != got) { throw Violation(cat(commandline ? "command line: " : "configure: ", show(s), "\nthread ", t, " does not behave as configured, ", clip(want, got))); }
    }
    ctx.count(NONTRIV);
    ctx.outcome(cat(show(s), commandline));
    if (ctx.wants_sample()) { ctx.sample(cat(commandline ? "command line " : "configure ", show(s))); } else { ctx.skip_sample(); }
}

void rejected(Ctx &ctx, std::string const &o, std::string const &val, bool commandline) {
    Th t;
    auto before = reg(t.t);
    bool ok = true;
    std::string err;
    if (commandline) {
        auto it = before.opts.find(o);
        if (it == before.opts.end() || it->second.parse == nullptr) { return; }
        try { ok = it->second.parse(val.c_str(), it->second.data) && clingcon_validate_options(t.t); } catch (std::exception &) { ok = false; }
    } else { ok = clingcon_configure(t.t, o.c_str(), val.c_str()); }
    ctx.count(EXEC);
    if (ok) { throw Violation(cat(commandline ? "command line: " : "configure: ", "accepted --", o, "=", val)); }
    auto after = reg(t.t);
    for (auto const &[n, x] : before.opts) { if (shown(after, n) != shown(before, n)) { throw Violation(cat("rejected --", o, "=", val, " changed ", n)); } }
    ctx.count(CHECKS);
}

struct Global { std::string opt; std::vector<std::pair<std::string, std::string>> vals; bool flag; }; // text, shown value

std::vector<Global> globals() {
    std::vector<Global> r;
    for (char const *o : {"shift-constraints", "sort-constraints", "literals-only", "add-order-clauses", "check-solution", "check-state"}) { r.push_back({o, {{"yes", "yes"}, {"no", "no"}, {"true", "yes"}, {"false", "no"}, {"1", "yes"}, {"0", "no"}}, true}); }
    r.push_back({"translate-clauses", {{"0,0", "0,0"}, {"7,100", "7,100"}, {"1000,10000", "1000,10000"}, {"3,0", "3,0"}, {"4000000000,5", "4000000000,5"}, {"max,12", "4294967295,12"}}, false});
    r.push_back({"translate-pb", {{"0", "0"}, {"2.5", "2.5"}, {"100", "100"}, {"0.125", "0.125"}}, false});
    r.push_back({"translate-distinct", {{"0", "0"}, {"17", "17"}, {"4294967295", "4294967295"}, {"max", "4294967295"}}, false});
    r.push_back({"translate-opt", {{"0", "0"}, {"17", "17"}, {"max", "4294967295"}}, false});
    r.push_back({"min-int", {{"-3", "-3"}, {"-1", "-1"}, {"-1073741823", "-1073741823"}, {"min", "-1073741823"}}, false});
    r.push_back({"max-int", {{"3", "3"}, {"2", "2"}, {"1073741823", "1073741823"}, {"max", "1073741823"}}, false});
    return r;
}

void c19(Ctx &ctx) {
    bool T = ctx.thorough();
    // 1. sequences of settings of one option
    for (auto const &[o, vs] : TOPTS) {
        std::vector<Set> pool;
        for (auto const &v : vs) { for (int t = -1; t < NT; ++t) { pool.push_back({o, v, t}); } }
        size_t len = vs.size() > 2 && !T ? 2 : 3;
        std::function<void(std::vector<Set>)> rec = [&](std::vector<Set> c) {
            bool dup = false;
            for (size_t i = 0; i < c.size(); ++i) { for (size_t j = i + 1; j < c.size(); ++j) { dup = dup || c[i].thread == c[j].thread; } }
            if (!dup) { ctx.test([&] { compare(ctx, c, true); }); }
            else {
                // the same option cannot be given twice for the same thread
                ctx.test([&] {
                    Th t;
                    auto os = reg(t.t);
                    bool ok = true;
                    for (auto const &x : c) { auto const &p = os.opts.at(x.opt); ok = ok && p.parse(x.text().c_str(), p.data); }
                    if (ok) { throw Violation("command line: repeated option accepted: " + show(c)); }
                    ctx.count(EXEC);
                });
            }
            ctx.test([&] { compare(ctx, c, false); });
            if (c.size() < len) { for (auto const &x : pool) { auto d = c; d.push_back(x); rec(d); } }
        };
        rec({});
    }
    // 2. pairs of settings of different options, in both orders
    std::vector<Set> all;
    for (auto const &[o, vs] : TOPTS) { for (size_t k = 1; k < vs.size(); k += 2) { for (int t = -1; t < NT; ++t) { all.push_back({o, vs[k], t}); } } }
    for (auto const &a : all) { for (auto const &b : all) { if (a.opt != b.opt) { for (bool c : {false, true}) { ctx.test([&] { compare(ctx, {a, b}, c); }); } } } }
    // 3. every value changes the behaviour (a trace that ignores the option proves nothing)
    for (auto const &[o, vs] : TOPTS) {
        ctx.test([&] {
            for (int t = 0; t < NT; ++t) {
                std::map<std::string, std::string> seen;
                for (auto const &v : vs) {
                    auto r = trace(ctx, [&](clingcon_theory_t *th) { configure(th, {{o, v, t}}); }, t, NT);
                    auto [it, ins] = seen.emplace(r, v);
                    if (!ins) { throw Violation(cat("thread ", t, " behaves the same under --", o, "=", v, " and --", o, "=", it->second)); }
                    ctx.count(CHECKS);
                }
            }
        });
        // a thread only depends on its own values and on those of thread 0
        for (auto const &v : vs) {
            for (auto const &u : vs) {
                ctx.test([&] {
                    std::string first;
                    for (auto const &z : vs) {
                        auto r = trace(ctx, [&](clingcon_theory_t *th) { configure(th, {{o, v, 0}, {o, u, 2}, {o, z, 1}}); }, 2, NT);
                        if (o == "order-heuristic") { r = r.substr(0, r.rfind('\n', r.size() - 2)); }
                        if (first.empty()) { first = r; } else if (r != first) { throw Violation(cat("--", o, "=", z, ",1 changes the behaviour of thread 2: ", clip(first, r))); }
                        auto s = trace(ctx, [&](clingcon_theory_t *th) { configure(th, {{o, u, 2}, {o, v, 0}, {o, z, 1}}); }, 0, NT);
                        auto w = trace(ctx, [&](clingcon_theory_t *th) { configure(th, {{o, v, -1}}); }, 0, NT);
                        if (o == "order-heuristic") { s = s.substr(0, s.rfind('\n', s.size() - 2)); w = w.substr(0, w.rfind('\n', w.size() - 2)); }
                        if (s != w) { throw Violation(cat("options for threads 1 and 2 change the behaviour of thread 0 or --", o, "=", v, ",0 differs from --", o, "=", v, ": ", clip(w, s))); }
                        ctx.count(CHECKS, 2);
                    }
                });
            }
        }
        // the last thread
        for (auto const &v : vs) {
            ctx.test([&] {
                for (bool c : {false, true}) {
                    auto set = [&](std::vector<Set> const &s, int t) { return trace(ctx, [&](clingcon_theory_t *th) { if (c) { cli(th, s); } else { configure(th, s); } }, t, 64); };
                    std::vector<Set> s{{o, vs[0], -1}, {o, v, 63}};
                    auto a = set(s, 63), b = trace(ctx, [&](clingcon_theory_t *th) { configure(th, {{o, vs[0], -1}, {o, v, 2}}); }, 2, NT);
                    if (a != b) { throw Violation(cat("--", o, "=", v, ",63 does not take effect: ", clip(b, a))); }
                    auto x = set(s, 62), y = set({{o, vs[0], -1}}, 62);
                    if (o == "order-heuristic") { x = x.substr(0, x.rfind('\n', x.size() - 2)); y = y.substr(0, y.rfind('\n', y.size() - 2)); }
                    if (x != y) { throw Violation(cat("--", o, "=", v, ",63 affects thread 62: ", clip(y, x))); }
                    ctx.count(CHECKS, 2);
                }
            });
        }
    }
    // synonyms
    for (auto const &o : {"refine-reasons", "refine-introduce", "propagate-chain", "split-all"}) {
        for (auto const &[a, b] : std::vector<std::pair<std::string, std::string>>{{"true", "yes"}, {"1", "yes"}, {"false", "no"}, {"0", "no"}}) {
            for (bool c : {false, true}) {
                for (int t = -1; t < NT; ++t) {
                    ctx.test([&] {
                        auto x = trace(ctx, [&, a = a](clingcon_theory_t *th) { std::vector<Set> s{{o, a, t}}; if (c) { cli(th, s); } else { configure(th, s); } }, std::max(t, 0), NT);
                        auto y = trace(ctx, [&, b = b](clingcon_theory_t *th) { configure(th, {{o, b, t}}); }, std::max(t, 0), NT);
                        if (x != y) { throw Violation(cat("--", o, "=", a, " differs from --", o, "=", b)); }
                        ctx.count(CHECKS);
                    });
                }
            }
        }
    }
    // 4. sign of order literals
    for (int n = -4; n <= 4; ++n) {
        for (int t = -1; t < NT; ++t) {
            ctx.test([&] {
                if (!peek_available()) { return; }
                trace(ctx, [&](clingcon_theory_t *th) { configure(th, {{"sign-value", "-", -1}, {"sign-value", cat(n), t}}); }, std::max(t, 0), NT, [&](Mock &m) {
                    for (size_t k = 0; k < m.idx.size(); ++k) {
                        for (int v = -3; v < 3; ++v) {
                            int l = peek_literal(m.data, static_cast<unsigned>(std::max(t, 0)), static_cast<unsigned>(m.idx[k] - 1), v);
                            int a = t > 0 ? peek_literal(m.data, 0, static_cast<unsigned>(m.idx[k] - 1), v) : 0; // literals of the initialization
                            if (l == 0 || std::abs(l) == 1 || a == l) { continue; }
                            ctx.count(CHECKS);
                            if ((l < 0) != (v >= n)) { throw Violation(cat("--sign-value=", n, ": literal ", l, " for ", M.vars[k], "<=", v, " in thread ", t)); }
                        }
                    }
                });
            });
        }
    }
    // 5. global options: the shown value and the behaviour
    auto gs = globals();
    for (auto const &g : gs) {
        for (auto const &[text, value] : g.vals) {
            for (bool c : {false, true}) {
                ctx.test([&, text = text, value = value] {
                    Th t, other;
                    auto before = reg(t.t);
                    if (c && before.opts.at(g.opt).flag == nullptr && g.flag) { throw Violation(g.opt + " is not a flag"); }
                    if (c && g.flag && text != "yes" && text != "no") { return; }
                    if (c) { cli(t.t, {{g.opt, text, -1}}); } else { configure(t.t, {{g.opt, text, -1}}); }
                    auto after = reg(t.t), oth = reg(other.t);
                    for (auto const &[n, x] : before.opts) {
                        auto want = n == g.opt ? value : shown(before, n);
                        if (shown(after, n) != want) { throw Violation(cat("--", g.opt, "=", text, " sets ", n, " to ", shown(after, n), " instead of ", want)); }
                        if (shown(oth, n) != shown(before, n)) { throw Violation(cat("--", g.opt, "=", text, " changes ", n, " of another theory")); }
                        ctx.count(CHECKS);
                    }
                    ctx.count(EXEC);
                });
            }
        }
    }
    // partial value keeps the total
    for (bool c : {false, true}) {
        ctx.test([&] {
            Th t;
            if (c) { cli(t.t, {{"translate-clauses", "7,100", -1}}); cli(t.t, {{"translate-clauses", "9", -1}}); } else { configure(t.t, {{"translate-clauses", "7,100", -1}, {"translate-clauses", "9", -1}}); }
            if (shown(reg(t.t), "translate-clauses") != "9,100") { throw Violation("--translate-clauses=9 after 7,100 gives " + shown(reg(t.t), "translate-clauses")); }
            ctx.count(EXEC);
        });
    }
    // pairs of global options in both orders and interfaces, including the default of thread options
    std::vector<std::pair<Set, std::string>> vals;
    for (auto const &g : gs) { for (auto const &[text, value] : g.vals) { if (!g.flag || text == "yes" || text == "no") { vals.emplace_back(Set{g.opt, text, -1}, value); } } }
    for (auto const &[o, vs] : TOPTS) { for (auto const &v : vs) { if (o != "sign-value") { vals.emplace_back(Set{o, v, -1}, v); } } }
    for (auto const &a : vals) {
        for (auto const &b : vals) {
            if (a.first.opt == b.first.opt) { continue; }
            ctx.test([&] {
                for (bool c : {false, true}) {
                    Th t, other;
                    auto before = reg(t.t);
                    std::vector<Set> s{a.first, b.first};
                    if (c) { cli(t.t, s); } else { configure(t.t, s); }
                    auto after = reg(t.t), oth = reg(other.t);
                    for (auto const &[n, x] : before.opts) {
                        auto want = n == a.first.opt ? a.second : n == b.first.opt ? b.second : shown(before, n);
                        if (shown(after, n) != want) { throw Violation(cat(c ? "command line: " : "configure: ", show(s), "sets ", n, " to ", shown(after, n), " instead of ", want)); }
                        if (shown(oth, n) != shown(before, n)) { throw Violation(cat(show(s), "changes ", n, " of another theory")); }
                        ctx.count(CHECKS);
                    }
                    ctx.count(EXEC);
                }
                ctx.outcome(show({a.first, b.first}));
            });
        }
    }
    // behaviour under global options is the same for both interfaces and orders
    for (auto const &a : vals) {
        for (auto const &b : vals) {
            if (a.first.opt >= b.first.opt || a.first.opt == "translate-opt" || b.first.opt == "translate-opt") { continue; }
            if ((a.first.opt == "min-int" || a.first.opt == "max-int" || b.first.opt == "max-int" || b.first.opt == "min-int") && !T) { continue; }
            ctx.test([&] {
                auto x = trace(ctx, [&](clingcon_theory_t *th) { configure(th, {a.first, b.first}); }, 0, 1);
                auto y = trace(ctx, [&](clingcon_theory_t *th) { configure(th, {b.first, a.first}); }, 0, 1);
                auto z = trace(ctx, [&](clingcon_theory_t *th) { cli(th, {b.first, a.first}); }, 0, 1);
                ctx.count(CHECKS, 2);
                if (x != y) { throw Violation(cat("order of ", show({a.first, b.first}), "matters: ", clip(x, y))); }
                if (x != z) { throw Violation(cat("command line and configure differ for ", show({a.first, b.first}), clip(x, z))); }
            });
        }
    }
    // every value of these options changes the behaviour
    for (auto const &[o, vs] : std::vector<std::pair<std::string, std::vector<std::vector<Set>>>>{
             {"translate-clauses", {{{"translate-clauses", "0,0", -1}}, {{"translate-clauses", "1000,10000", -1}}, {{"translate-clauses", "10,10000", -1}}}},
             {"clauses total", {{{"translate-clauses", "1000,0", -1}}, {{"translate-clauses", "1000,5", -1}}, {{"translate-clauses", "1000,10000", -1}}}},
             {"translate-pb", {{{"translate-pb", "0", -1}}, {{"translate-pb", "100", -1}}}},
             {"translate-distinct", {{{"translate-distinct", "0", -1}}, {{"translate-distinct", "1000", -1}}}},
             {"literals-only", {{{"translate-clauses", "1000,10000", -1}}, {{"translate-clauses", "1000,10000", -1}, {"literals-only", "yes", -1}}}},
             {"add-order-clauses", {{{"translate-clauses", "1000,10000", -1}, {"literals-only", "yes", -1}}, {{"translate-clauses", "1000,10000", -1}, {"literals-only", "yes", -1}, {"add-order-clauses", "yes", -1}}}},
             {"sort-constraints", {{{"sort-constraints", "yes", -1}}, {{"sort-constraints", "no", -1}}}}}) {
        ctx.test([&, o = o, vs = vs] {
            for (bool c : {false, true}) {
                std::map<std::string, std::string> seen;
                for (auto const &s : vs) {
                    auto r = trace(ctx, [&](clingcon_theory_t *th) { if (c) { cli(th, s); } else { configure(th, s); } }, 0, 1);
                    auto [it, ins] = seen.emplace(r, show(s));
                    if (!ins) { throw Violation(cat("same behaviour under ", show(s), "and ", it->second)); }
                    ctx.count(CHECKS);
                }
            }
        });
    }
    // translation of objectives: never with 0, always with max, and otherwise if there are less than n literals
    std::vector<std::pair<int, int>> const doms{{0, 0}, {2, 2}, {0, 1}, {-1, 1}, {-2, 2}};
    for (auto const &x : doms) {
        for (auto const &y : doms) {
            for (char const *obj : {"&minimize{ x; y }.", "&maximize{ 2*x; -1*y }.", "&minimize{ x; -y+3 }.", "&minimize{ x }."}) {
                std::string text = cat("&dom{ ", x.first, "..", x.second, " } = x. &dom{ ", y.first, "..", y.second, " } = y. ", obj);
                ctx.test([&] {
                    auto g = mock::ground(text, {"x", "y"}, Conf{{"0"}, {{"min-int", "-3"}, {"max-int", "3"}}});
                    int n = x.second - x.first + (std::strchr(obj, 'y') != nullptr ? y.second - y.first : 0);
                    for (char const *v : {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "4294967294", "max"}) {
                        for (bool c : {false, true}) {
                            Mock m{*g};
                            Chooser ch;
                            m.ch = &ch;
                            m.ctx = &ctx;
                            m.allow_minimize = true;
                            m.configure = [&](clingcon_theory_t *th) { std::vector<Set> s{{"translate-opt", v, -1}}; if (c) { cli(th, s); } else { configure(th, s); } };
                            static std::vector<Sol> const none;
                            if (!m.init(none, 1)) { throw Violation("initialization of " + text + " fails"); }
                            bool want = v[0] == 'm' || n < std::stoll(v);
                            if (want == m.minimize.empty()) { throw Violation(cat("--translate-opt=", v, want ? " does not translate " : " translates ", text, " needing ", n, " literals")); }
                            ctx.count(EXEC);
                            ctx.count(CHECKS);
                        }
                    }
                    ctx.outcome(text);
                });
            }
        }
    }
    // 6. values outside of the documented ranges
    std::map<std::string, std::vector<std::string>> bad;
    for (auto const &[o, vs] : TOPTS) {
        std::vector<std::string> b{"maybe", "2x", "yess", "none1", vs[0] + ",64", vs[0] + ",-1", vs[0] + ",x", vs[0] + ",1x", vs[0] + ",0,0", vs[0] + ",1.5", vs[0] + " ", vs[0] + ", 1", vs[0] + ",4294967296", vs[0] + ",99999999999999999999"};
        if (o == "sign-value") { b.insert(b.end(), {"2147483648", "-2147483649", "++", "+-", "1.5"}); }
        if (o == "order-heuristic") { b.insert(b.end(), {"yes", "max-chain2", "min-chain"}); }
        bad[o] = b;
    }
    for (char const *o : {"shift-constraints", "sort-constraints", "literals-only", "add-order-clauses", "check-solution", "check-state"}) { bad[o] = {"maybe", "2", "yes1", "yes,0", "no ", "-1", "onn"}; }
    bad["translate-clauses"] = {"x", "1x", "1,x", "1,2,3", "1,2x", "1.5", "4294967296", "1 ,2", "1, 2", "1,99999999999"};
    bad["translate-pb"] = {"x", "1x", "1,2", "1 "};
    bad["translate-distinct"] = bad["translate-opt"] = {"x", "1x", "1,2", "4294967296", "1.5", "1 "};
    bad["min-int"] = bad["max-int"] = {"x", "1x", "1073741824", "-1073741824", "2147483648", "1,2", "1.5", "99999999999999999999"};
    for (auto const &[o, bs] : bad) { for (auto const &v : bs) { for (bool c : {false, true}) { ctx.test([&, o = o] { rejected(ctx, o, v, c); ctx.outcome(o + v); }); } } }
    for (int lo = -3; lo <= 3; ++lo) {
        for (int hi = -3; hi <= 3; ++hi) {
            ctx.test([&] {
                for (bool c : {false, true}) {
                    Th t;
                    bool ok = true;
                    if (c) { auto o = reg(t.t); for (auto const &[n, v] : {std::pair("min-int", lo), std::pair("max-int", hi)}) { auto const &x = o.opts.at(n); ok = ok && x.parse(cat(v).c_str(), x.data); } }
                    else { configure(t.t, {{"min-int", cat(lo), -1}, {"max-int", cat(hi), -1}}); }
                    ok = clingcon_validate_options(t.t) && ok;
                    if (ok != (lo <= hi)) { throw Violation(cat("--min-int=", lo, " --max-int=", hi, ok ? " is accepted" : " is rejected")); }
                    ctx.count(EXEC);
                }
            });
        }
    }
    // 7. theories do not influence each other
    for (auto const &a : all) {
        ctx.test([&] {
            for (bool c : {false, true}) {
                auto base = trace(ctx, {}, a.thread < 0 ? 0 : a.thread, NT);
                Th first;
                if (c) { cli(first.t, {a}); } else { configure(first.t, {a}); }
                auto r = trace(ctx, {}, a.thread < 0 ? 0 : a.thread, NT);
                if (r != base) { throw Violation(cat("--", a.opt, "=", a.text(), " changes the behaviour of a theory created later: ", clip(base, r))); }
                Th second;
                auto so = reg(second.t);
                std::unique_ptr<Th> third;
                auto q = trace(ctx, [&](clingcon_theory_t *) { third = std::make_unique<Th>(); if (c) { cli(third->t, {a}); } else { configure(third->t, {a}); } }, a.thread < 0 ? 0 : a.thread, NT);
                if (q != base) { throw Violation(cat("--", a.opt, "=", a.text(), " changes the behaviour of a theory created earlier: ", clip(base, q))); }
                ctx.count(CHECKS, 2);
            }
        });
    }
}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    if (id == "C19") {
        auto d = program_check(id, "All sequences of up to 3 settings of each thread option (value x {global, thread 0, 1, 2}) and all ordered pairs of settings of different options, given by command line parsers and by configure: the complete search of every thread on a controlled solver must equal the one of a directly configured theory with the effective values (default < global < thread). All values and ordered pairs of the global options: value shown by the help text, behaviour, other theories. Values outside of the documented ranges are rejected and change nothing. distinct = option settings.", c19);
        d.counters = {{EXEC, "executions"}, {NONTRIV, "configurations"}, {STATES, "solver_steps"}, {CHECKS, "comparisons"}};
        return run_check(d, argc - 2, argv + 2);
    }
    return 2;
}
