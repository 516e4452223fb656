// C21: shown variables and cost symbols
#include "gen.hh"
using namespace V;

namespace {

constexpr I LO = -3, HI = 4;

// element of a show directive: text in the program and what it selects
struct Elem {
    std::string text;
    std::vector<std::string> names;                       // variables
    std::vector<std::pair<std::string, int>> sigs;        // signatures
};

std::vector<Elem> const ELEMS{
    {"x", {"x"}, {}},
    {"f(1)", {"f(1)"}, {}},
    {"f(1,2)", {"f(1,2)"}, {}},
    {"\"s\"", {"\"s\""}, {}},
    {"(1,2)", {"(1,2)"}, {}},
    {"g(f(1),\"s\")", {"g(f(1),\"s\")"}, {}},
    {"f/1", {}, {{"f", 1}}},
    {"f/2", {}, {{"f", 2}}},
    {"x/0", {}, {{"x", 0}}},
    {"g/2", {}, {{"g", 2}}},
    {"f/0", {}, {{"f", 0}}},
    {"h/1", {}, {{"h", 1}}},
    {"f(X) : p(X)", {"f(1)", "f(3)"}, {}},
    {"f(X,X+1) : p(X)", {"f(1,2)", "f(3,4)"}, {}},
    {"f/X : p(X)", {}, {{"f", 1}, {"f", 3}}},
    {"f(1+2)", {"f(3)"}, {}},
    {"zz", {"zz"}, {}},
};

struct Sel {
    bool any{false};
    std::set<std::string> names;
    std::set<std::pair<std::string, int>> sigs;
    void add(Elem const &e) { names.insert(e.names.begin(), e.names.end()); sigs.insert(e.sigs.begin(), e.sigs.end()); }
    bool shown(std::string const &name) const {
        if (!any) { return true; }
        if (names.count(name) > 0) { return true; }
        auto s = sym(name);
        return s.type() == Clingo::SymbolType::Function && sigs.count({s.name(), static_cast<int>(s.arguments().size())}) > 0;
    }
};

struct Obj { std::string text; std::function<I(std::vector<I> const &)> value; };

std::vector<std::string> const VARS{"x", "f(1)", "f(3)", "f(1,2)", "f(3,4)", "\"s\"", "(1,2)", "g(f(1),\"s\")"};

Program base(int k) {
    Program p;
    std::vector<std::vector<std::pair<I, I>>> d{{{-1, 0}}, {{1, 2}}, {{3, 3}}, {{0, 0}, {4, 4}}, {{4, 4}}, {{-3, -3}}, {{0, 1}}, {{2, 2}}};
    std::vector<std::string> vs = VARS;
    if (k == 1) { vs = {"f(1)", "f(3)", "x"}; d = {{{0, 2}}, {{1, 2}}, {{-2, -2}, {2, 2}}}; }
    if (k == 2) { vs = {"f(1,2)", "(1,2)", "\"s\""}; d = {{{0, 1}}, {{-1, -1}, {3, 3}}, {{0, 1}}}; }
    domains(p, vs, d);
    p.extra += "p(1). p(3). ";
    if (k == 0) {
        place(p, sum_atom(vs, {{1, {0}}, {1, {1}}, {-1, {6}}}, "<=", 1), 7);
        p.rules.push_back(thead(sum_atom(vs, {{2, {0}}, {3, {1}}}, "!=", 4)));
    }
    if (k == 1) { p.choice = {0}; p.rules.push_back(thead(distinct_atom(vs, {{{1, {0}}, {1, {1}}}, {{1, {1}}, {1, {2}}}, {{2, {2}}}}), {blit(0)})); }   // auxiliary variables
    if (k == 2) { place(p, sum_atom(vs, {{1, {0, 2}}, {-1, {1}}}, "<=", 0, "nsum"), 3); }
    return p;
}

using Model = std::pair<Sol, std::set<std::string>>;

std::string theory_symbol(std::string const &n, I v) { return "__csp(" + n + "," + cat(v) + ")"; }

// checks one solve call; `sols` are the expected solutions over p.vars
void check_models(Ctx &ctx, Theory &t, std::string const &text, Conf const &conf, Program const &p, std::vector<Sol> const &sols,
                  Sel const &sel, std::optional<Obj> const &obj) {
    std::vector<std::string> const &vars = p.vars;
    std::vector<Sol> want = sols;
    std::sort(want.begin(), want.end());
    Handler h{t, vars};
    I last = 0;
    bool first = true;
    h.hook = [&](Clingo::Model &m, Sol &s) {
        std::multiset<std::string> got, exp;
        for (auto const &x : m.symbols(Clingo::ShowType::Theory)) { got.insert(x.to_string()); }
        for (size_t i = 0; i < vars.size(); ++i) { if (sel.shown(vars[i])) { exp.insert(theory_symbol(vars[i], s.vals[i])); } }
        if (obj) {
            I v = obj->value(s.vals);
            auto c = m.cost();
            bool theory = c.empty();
            if (theory) { exp.insert("__csp_cost(\"" + cat(v) + "\")"); }
            else if (c.size() != 1 || c[0] != v) { throw Violation(report(text, conf, cat("cost of the solver is wrong for value ", v))); }
            if (!first && v >= last) { throw Violation(report(text, conf, "models do not improve")); }
            last = v;
            first = false;
        }
        ctx.count(CHECKS);
        if (got != exp) {
            std::string e, g;
            for (auto const &x : exp) { e += " " + x; }
            for (auto const &x : got) { g += " " + x; }
            throw Violation(report(text, conf, "expected symbols:" + e + "\ngot:             " + g));
        }
    };
    t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
    ctx.count(EXEC);
    ctx.count(SOLS, want.size());
    auto got = h.sols;
    std::sort(got.begin(), got.end());
    if (!obj) {
        if (got != want) { throw Violation(report(text, conf, diff(want, got, vars))); }
    } else {
        for (auto const &s : got) { if (!std::binary_search(want.begin(), want.end(), s)) { throw Violation(report(text, conf, "not a solution: " + show(s, vars))); } }
        std::optional<I> best;
        for (auto const &s : want) { I v = obj->value(s.vals); if (!best || v < *best) { best = v; } }
        if (best ? (first || last != *best) : !first) { throw Violation(report(text, conf, "optimum is wrong")); }
    }
    if (!want.empty()) { ctx.count(NONTRIV); }
}

std::vector<Conf> show_confs() {
    auto cs = confs(LO, HI);
    return {cs[0], cs[4], cs[5].with("translate-opt", "1000"), cs[7].arg("--project=show")};
}

void c21(Ctx &ctx) {
    bool T = ctx.thorough();
    auto cs = show_confs();
    cs.back().args = {"0"};
    std::vector<std::vector<int>> subsets{{}};
    int n = static_cast<int>(ELEMS.size());
    for (int i = 0; i < n; ++i) {
        subsets.push_back({i});
        for (int j = i + 1; j < n; ++j) {
            subsets.push_back({i, j});
            for (int k = j + 1; k < n; ++k) { subsets.push_back({i, j, k}); if (T) { for (int l = k + 1; l < n; ++l) { subsets.push_back({i, j, k, l}); } } }
        }
    }
    std::vector<std::vector<Sol>> sols;
    std::vector<Program> ps;
    for (int k = 0; k < 3; ++k) { ps.push_back(base(k)); sols.push_back(brute(ps.back())); }
    // variables that are only mentioned in show directives get values, too
    auto extend = [&](Program p, std::vector<Sol> s, std::vector<int> const &e) {
        std::set<std::string> add;
        for (int i : e) { for (auto const &v : ELEMS[static_cast<size_t>(i)].names) { if (std::find(p.vars.begin(), p.vars.end(), v) == p.vars.end()) { add.insert(v); } } }
        for (auto const &v : add) {
            p.vars.push_back(v);
            std::vector<Sol> t;
            for (auto const &x : s) { for (I y = LO; y <= HI; ++y) { auto z = x; z.vals.push_back(y); t.push_back(z); } }
            s = t;
        }
        std::sort(s.begin(), s.end());
        return std::pair(p, s);
    };
    auto obj = [](int o) -> std::optional<Obj> {
        switch (o) {
            case 1: return Obj{"&minimize{ 2*x; 3 }. ", [](auto const &v) { return 2 * v[0] + 3; }};
            case 2: return Obj{"&maximize{ x; f(1) : p(1) }. ", [](auto const &v) { return -(v[0] + v[1]); }};
            case 3: return Obj{"&minimize{ f(1); -1*f(3) }. ", [](auto const &v) { return v[0] - v[1]; }};
            case 4: return Obj{"&minimize{ 1 }. ", [](auto const &) { return I{1}; }};
            default: return std::nullopt;
        }
    };
    for (size_t k = 0; k < ps.size(); ++k) {
        for (int o = 0; o < 5; ++o) {
            if ((k == 0 && o == 3) || (k == 1 && (o == 1 || o == 2)) || (k == 2 && o > 0 && o < 4)) { continue; }
            for (int d = -1; d < static_cast<int>(subsets.size()); ++d) {
                // one directive, or one for each element
                for (int split = 0; split < 2; ++split) {
                    if (split == 1 && (d < 0 || subsets[static_cast<size_t>(d)].size() < 2)) { continue; }
                    ctx.test([&] {
                        Sel sel;
                        std::string text;
                        std::vector<int> es;
                        if (d >= 0) {
                            es = subsets[static_cast<size_t>(d)];
                            sel.any = true;
                            if (split == 0) {
                                text += "&show{ ";
                                bool sep = false;
                                for (int i : es) { text += (sep ? "; " : "") + ELEMS[static_cast<size_t>(i)].text; sep = true; }
                                text += " }. ";
                            } else { for (int i : es) { text += "&show{ " + ELEMS[static_cast<size_t>(i)].text + " }. "; } }
                            for (int i : es) { sel.add(ELEMS[static_cast<size_t>(i)]); }
                        }
                        auto [p, s] = extend(ps[k], sols[k], es);
                        if (s.size() > (T ? 2000 : 600)) { return; }
                        auto ob = obj(o);
                        text = p.text() + (ob ? ob->text : "") + text;
                        for (auto const &c : cs) {
                            if (d >= 0 && subsets[static_cast<size_t>(d)].size() > 2 && &c != &cs[d % 4]) { continue; }
                            try {
                                Theory t{c};
                                t.add(text);
                                t.ground();
                                t.prepare();
                                check_models(ctx, t, text, c, p, s, sel, ob);
                            } catch (Violation &) { throw; }
                            catch (std::exception &e) { throw Violation(report(text, c, cat("error: ", e.what()))); }
                        }
                        std::string oc;
                        for (auto const &v : p.vars) { if (sel.shown(v)) { oc += v + " "; } }
                        ctx.outcome(cat(k, o, oc));
                        if (ctx.wants_sample()) { ctx.sample(text); } else { ctx.skip_sample(); }
                    });
                }
            }
        }
    }
    // directives that arrive step by step: every sequence of up to three (four) steps over show elements
    std::vector<std::vector<int>> seqs;
    std::vector<int> pool{-1, -2, 0, 1, 6, 7, 9, 12};
    int len = T ? 4 : 3;
    std::function<void(std::vector<int>)> rec = [&](std::vector<int> c) {
        if (!c.empty()) { seqs.push_back(c); }
        if (static_cast<int>(c.size()) < len) { for (int i : pool) { auto x = c; x.push_back(i); rec(x); } }
    };
    rec({});
    for (auto const &q : seqs) {
        for (int late = 0; late < 2; ++late) {
            ctx.test([&] {
                // late: the variables f(1), f(3) and x of the program only arrive in the last step
                for (auto const &c : {cs[0], cs[1]}) {
                    std::string all = "#program base. " + ps[1].text();
                    Theory t{c};
                    Sel sel;
                    Program none;
                    std::vector<Sol> nosol{{0, {}}};
                    std::string text;
                    bool have = false;
                    Program p;
                    std::vector<Sol> s;
                    std::set<std::string> extra;
                    try {
                        for (size_t i = 0; i < q.size(); ++i) {
                            auto part = cat("s", i);
                            std::string prg = "#program " + part + ". p(1). p(3). ";
                            if (!have && (late == 0 || i + 1 == q.size())) { prg += ps[1].text(); have = true; }
                            if (q[i] == -2) { prg += "&show{}. "; sel.any = true; }
                            if (q[i] >= 0) { auto const &e = ELEMS[static_cast<size_t>(q[i])]; prg += "&show{ " + e.text + " }. "; sel.any = true; sel.add(e); extra.insert(e.names.begin(), e.names.end()); }
                            text += "%% step\n" + prg + "\n";
                            t.add(prg);
                            t.ground(part.c_str());
                            t.prepare();
                            p = have ? ps[1] : Program{};
                            s = have ? sols[1] : nosol;
                            for (auto const &v : extra) {
                                if (std::find(p.vars.begin(), p.vars.end(), v) != p.vars.end()) { continue; }
                                p.vars.push_back(v);
                                std::vector<Sol> u;
                                for (auto const &x : s) { for (I y = LO; y <= HI; ++y) { auto z = x; z.vals.push_back(y); u.push_back(z); } }
                                s = u;
                            }
                            check_models(ctx, t, text, c, p, s, sel, std::nullopt);
                        }
                    } catch (Violation &) { throw; }
                    catch (std::exception &e) { throw Violation(report(text, c, cat("error: ", e.what()))); }
                }
                ctx.count(STATES, q.size());
            });
        }
    }
}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    if (id == "C21") {
        auto d = program_check(id, "every set of up to 3 (thorough: 4) of 17 show elements (names of every symbol type, signatures, elements produced by grounding, unknown names) in one or several directives, with and without objectives, on 3 programs with variables of every symbol type and auxiliary variables under 4 configurations; and every sequence of up to 3 (4) steps adding directives before or after the variables. Theory symbols of every model are compared with the expected set, solutions with brute force. distinct = program, objective and set of shown variables.", c21);
        d.counters = {{EXEC, "executions"}, {NONTRIV, "satisfiable_programs"}, {SOLS, "solutions_compared"}, {CHECKS, "models_compared"}, {STATES, "steps"}};
        return run_check(d, argc, argv);
    }
    return 2;
}
