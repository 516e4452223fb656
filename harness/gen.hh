// Generators for bounded program families.
#pragma once
#include "cc.hh"

namespace V {

inline std::string mono(I co, std::vector<std::string> const &names, std::vector<int> const &vars) {
    std::string r = cat(co);
    if (vars.empty()) { return co < 0 ? "(" + r + ")" : r; }
    r = co == 1 ? "" : co < 0 ? cat("(", co, ")*") : cat(co, "*");
    bool sep = false;
    for (int v : vars) { r += (sep ? "*" : "") + names[v]; sep = true; }
    return r;
}

inline std::string polytext(Poly const &p, std::vector<std::string> const &names) {
    if (p.empty()) { return "0"; }
    std::string r;
    for (auto const &m : p) {
        if (!r.empty()) { r += "+"; }
        r += mono(m.co, names, m.vars);
    }
    return r;
}

// &sum/&nsum/&diff atom from monomials, one element each
inline Atom sum_atom(std::vector<std::string> const &names, std::vector<Mono> const &ms, std::string const &rel, I rhs,
                     std::string const &kind = "sum") {
    Atom a;
    a.kind = Atom::SUM;
    a.rel = rel;
    a.rhs = {{rhs, {}}};
    std::string t = "&" + kind + "{";
    bool sep = false;
    for (auto const &m : ms) {
        a.elems.push_back({m});
        t += (sep ? "; " : " ") + mono(m.co, names, m.vars);
        sep = true;
    }
    a.text = t + " } " + rel + " " + cat(rhs);
    return a;
}

inline Atom diff_atom(std::vector<std::string> const &names, int x, int y, I rhs) {
    Atom a;
    a.rel = "<=";
    a.elems = {{{1, {x}}, {-1, {y}}}};
    a.rhs = {{rhs, {}}};
    a.text = cat("&diff{ ", names[x], "-", names[y], " } <= ", rhs);
    return a;
}

inline Atom dom_atom(std::vector<std::string> const &names, int x, std::vector<std::pair<I, I>> const &d) {
    Atom a;
    a.kind = Atom::DOM;
    a.elems = {{{1, {x}}}};
    a.dom = d;
    std::string t;
    for (auto [l, r] : d) { t += (t.empty() ? "" : "; ") + (l == r ? cat(l) : cat(l, "..", r < 0 ? cat("(", r, ")") : cat(r))); }
    a.text = "&dom{ " + t + " } = " + names[x];
    return a;
}

inline Atom distinct_atom(std::vector<std::string> const &names, std::vector<Poly> const &es) {
    Atom a;
    a.kind = Atom::DISTINCT;
    a.elems = es;
    std::string t;
    for (auto const &e : es) { t += (t.empty() ? "" : "; ") + polytext(e, names); }
    a.text = "&distinct{ " + t + " }";
    return a;
}

inline Atom disjoint_atom(std::vector<std::string> const &names, std::vector<std::pair<int, I>> const &es) {
    Atom a;
    a.kind = Atom::DISJOINT;
    std::string t;
    for (auto [v, l] : es) {
        a.elems.push_back({{1, {v}}});
        a.len.push_back(l);
        t += (t.empty() ? "" : "; ") + cat(names[v], "@", l < 0 ? cat("(", l, ")") : cat(l));
    }
    a.text = "&disjoint{ " + t + " }";
    return a;
}

// declares the domains of the given variables as facts
inline void domains(Program &p, std::vector<std::string> const &names, std::vector<std::vector<std::pair<I, I>>> const &ds) {
    p.vars = names;
    p.values.clear();
    for (size_t i = 0; i < ds.size(); ++i) {
        std::set<I> vals;
        for (auto [l, r] : ds[i]) { for (I v = l; v <= r; ++v) { vals.insert(v); } }
        p.values.emplace_back(vals.begin(), vals.end());
        p.extra += dom_atom(names, static_cast<int>(i), ds[i]).text + ". ";
    }
}

inline Lit blit(int b, bool neg = false) { Lit l; l.boolean = b; l.neg = neg; return l; }
inline Lit tlit(Atom a, bool neg = false) { Lit l; l.atom = std::move(a); l.neg = neg; return l; }
inline Rule constraint(std::vector<Lit> body) { Rule r; r.body = std::move(body); return r; }
inline Rule bhead(int b, std::vector<Lit> body) { Rule r; r.head = Rule::BOOL; r.boolean = b; r.body = std::move(body); return r; }
inline Rule thead(Atom a, std::vector<Lit> body = {}) { Rule r; r.head = Rule::THEORY; r.atom = std::move(a); r.body = std::move(body); return r; }

// Puts an atom into every syntactic position.
constexpr int NPOS_HEAD = 3;
constexpr int NPOS = 11;
inline void place(Program &p, Atom const &a, int pos) {
    switch (pos) {
        case 0: p.rules.push_back(thead(a)); break;
        case 1: p.choice = {0}; p.rules.push_back(thead(a, {blit(0)})); break;
        case 2: p.choice = {0}; p.rules.push_back(thead(a, {blit(0, true)})); break;
        case 3: p.rules.push_back(bhead(1, {tlit(a)})); break;
        case 4: p.rules.push_back(bhead(1, {tlit(a, true)})); break;
        case 5: p.rules.push_back(constraint({tlit(a)})); break;
        case 6: p.rules.push_back(constraint({tlit(a, true)})); break;
        case 7: p.choice = {0}; p.rules.push_back(bhead(1, {blit(0), tlit(a)})); break;
        case 8: p.choice = {0}; p.rules.push_back(constraint({blit(0), tlit(a)})); break;
        case 9: p.choice = {0}; p.rules.push_back(constraint({tlit(a, true), blit(0, true)})); break;
        case 10: p.choice = {0}; p.rules.push_back(thead(a, {blit(0)})); p.rules.push_back(bhead(1, {tlit(a)})); break;
    }
}

// clingcon configurations that steer the solver through its different code paths
inline std::vector<Conf> confs(I lo = -4, I hi = 4) {
    Conf none{{"0"}, {{"translate-clauses", "0,0"}, {"translate-pb", "0"}, {"translate-distinct", "0"}, {"translate-opt", "0"}, {"min-int", cat(lo)}, {"max-int", cat(hi)}}};
    Conf dflt{{"0"}, {{"min-int", cat(lo)}, {"max-int", cat(hi)}}};
    return {
        none.with("sort-constraints", "no").with("check-solution", "yes").with("check-state", "yes"),
        none.with("refine-reasons", "no").with("refine-introduce", "no").with("propagate-chain", "no").with("order-heuristic", "none").with("shift-constraints", "no"),
        none.with("refine-introduce", "no").with("split-all", "yes").with("sign-value", "-"),
        none.with("propagate-chain", "no").with("sign-value", "+").arg("--restart-on-model"),
        dflt,
        dflt.with("translate-clauses", "1000,10000").with("add-order-clauses", "yes").with("check-solution", "yes"),
        dflt.with("translate-clauses", "1000,10000").with("literals-only", "yes").with("sign-value", "2"),
        none.with("translate-clauses", "0,10000").with("translate-pb", "100").with("translate-distinct", "1000"),
        none.with("translate-clauses", "3,10").with("sort-constraints", "no").arg("--configuration=frumpy").arg("--restarts=F,1"),
    };
}

// A program is one case; it is solved under all given configurations.
inline void test_program(Ctx &ctx, std::vector<Conf> const &cs, std::function<Program()> const &make) {
    ctx.test([&] {
        Program p = make();
        auto want = brute(p);
        std::string text = p.text();
        for (auto const &c : cs) {
            compare(ctx, p, want, c);
            ctx.count(CHECKS);
        }
        if (!want.empty()) { ctx.count(NONTRIV); }
        uint64_t h = 17;
        for (auto const &s : want) { h = h * 1000003 + s.mask; for (I v : s.vals) { h = h * 1000003 + static_cast<uint64_t>(v); } }
        ctx.outcome(h);
        if (ctx.wants_sample()) { ctx.sample(cat(text, " => ", want.size(), " solutions")); } else { ctx.skip_sample(); }
    });
}

inline CheckDef program_check(std::string id, std::string rule, std::function<void(Ctx &)> f) {
    CheckDef d;
    d.id = std::move(id);
    d.level = "exploration";
    d.rule = std::move(rule);
    d.counters = {{EXEC, "executions"}, {NONTRIV, "satisfiable_programs"}, {SOLS, "solutions_compared"}};
    d.enumerate = std::move(f);
    d.assumptions = {"clingo 5.7.1 grounds and searches correctly", "the brute-force evaluator in harness/ref.hh is the intended semantics",
                     "small-scope: nothing is claimed for programs outside the enumerated bounds"};
    return d;
}

template <class F> void product(std::vector<std::vector<I>> const &sets, F &&f) {
    std::vector<I> cur(sets.size());
    std::function<void(size_t)> rec = [&](size_t i) {
        if (i == sets.size()) { f(cur); return; }
        for (I v : sets[i]) { cur[i] = v; rec(i + 1); }
    };
    rec(0);
}

} // namespace V
