// C17 arithmetic terms, C18 multiset semantics and shifting, C24 malformed atoms
#include "gen.hh"
using namespace V;

namespace {

enum Expect { EXACT, MAY, MUST }; // no error, an error is acceptable, there must be an error

void expect(Ctx &ctx, std::string const &text, std::vector<std::string> const &vars, std::function<std::vector<Sol>()> const &want, Conf const &conf, Expect ex) {
    auto r = run(text, vars, conf);
    ctx.count(EXEC);
    if (r.error) {
        ctx.count(EXTRA1);
        if (ex == EXACT) { throw Violation(report(text, conf, "error: " + r.msg)); }
        return;
    }
    if (ex == MUST) { throw Violation(report(text, conf, cat("accepted although it is not in the language or has no value; ", r.sols.size(), " solutions"))); }
    if (r.interrupted) { throw Violation(report(text, conf, "solving was interrupted")); }
    auto w = want();
    ctx.count(SOLS, w.size());
    if (r.sols != w) { throw Violation(report(text, conf, diff(w, r.sols, vars))); }
}

// ---------------------------------------------------------------- expressions

using Key = std::vector<int>;
struct E {
    std::string text;
    std::map<Key, W> p;      // value
    bool sym{false};         // contains a variable
    bool must{false};        // has no value or is not in the language
    bool nl{false};          // a product of terms with variables, even if it cancels
    bool may{false};
    size_t deg() const { size_t d = 0; for (auto const &[k, c] : p) { d = std::max(d, k.size()); } return d; }
    W val() const { auto it = p.find({}); return it == p.end() ? 0 : it->second; }
};

constexpr W LIMIT = (W{1} << 30) - 1; // values beyond may be rejected
void norm(E &e) {
    for (auto it = e.p.begin(); it != e.p.end();) {
        if (it->second > LIMIT || it->second < -LIMIT) { e.may = true; }
        if (it->second == 0) { it = e.p.erase(it); } else { ++it; }
    }
}
E num(I v) { E e; e.text = cat(v); e.p[{}] = v; norm(e); return e; }
E var(int i, std::string const &n) { E e; e.text = n; e.p[{i}] = 1; e.sym = true; return e; }
E flags(E const &a, E const &b) { E e; e.sym = a.sym || b.sym; e.must = a.must || b.must; e.nl = a.nl || b.nl; e.may = a.may || b.may; return e; }
E neg(E const &a) { E e{a}; for (auto &[k, c] : e.p) { c = -c; } return e; }
char const *const OPS[] = {"+", "-", "*", "/", "\\", "**"};
E apply(int op, E const &a, E const &b) {
    E e = flags(a, b);
    switch (op) {
        case 0: case 1: e.p = a.p; for (auto const &[k, c] : b.p) { e.p[k] += op == 0 ? c : -c; } break;
        case 2:
            for (auto const &[k, c] : a.p) { for (auto const &[l, d] : b.p) { Key m = k; m.insert(m.end(), l.begin(), l.end()); std::sort(m.begin(), m.end()); e.p[m] += c * d; } }
            if (a.sym && b.sym) { e.nl = true; }
            break;
        default:
            if (e.sym) { e.must = true; break; }
            if (e.must) { break; }
            W x = a.val(), y = b.val();
            if (op == 3) { if (y == 0) { e.must = true; } else { e.p[{}] = x / y; } }
            if (op == 4) { if (y == 0) { e.must = true; } else { e.p[{}] = x % y; } }
            if (op == 5) {
                if (y < 0) { if (x == 0) { e.must = true; } else if (x == 1 || x == -1) { e.p[{}] = y % 2 == 0 ? 1 : x; } else { e.may = true; e.p[{}] = 0; } break; } // a fraction
                W r = 1;
                bool big = false;
                for (W i = 0; i < y && !big && r != 0 && !(x == 1); ++i) { r *= x; big = r > (W{1} << 62) || r < -(W{1} << 62); if (x == -1 && i > 4) { r = y % 2 == 0 ? 1 : -1; break; } }
                if (big) { e.must = true; } else { e.p[{}] = r; }
            }
    }
    norm(e);
    return e;
}
E un(E const &a) { E e = neg(a); e.text = "(-" + a.text + ")"; return e; }
E bin(int op, E const &a, E const &b) { E e = apply(op, a, b); e.text = "(" + a.text + " " + OPS[op] + " " + b.text + ")"; return e; }

Poly poly(E const &e) { Poly r; for (auto const &[k, c] : e.p) { r.push_back({static_cast<I>(c), k}); } return r; }
// a linear sum constraint can hold the expression
Expect lin(E const &e) { return e.must || e.deg() > 1 ? MUST : e.nl || e.may ? MAY : EXACT; }
Expect nonlin(E const &e) {
    if (e.must || e.deg() > 2) { return MUST; }
    int q = 0, l = 0;
    for (auto const &[k, c] : e.p) { q += k.size() == 2; l += k.size() == 1; }
    return q > 1 || l > 1 ? MUST : e.may ? MAY : EXACT;
}
Expect cst(E const &e) { return e.must || e.sym ? MUST : e.may ? MAY : EXACT; }

std::vector<E> level1(std::vector<E> const &leaves) {
    std::vector<E> r = leaves;
    for (auto const &a : leaves) { r.push_back(un(a)); }
    for (auto const &a : leaves) { for (auto const &b : leaves) { for (int op = 0; op < 6; ++op) { r.push_back(bin(op, a, b)); } } }
    return r;
}

Program xy() { Program p; domains(p, {"x", "y"}, {{{-2, 2}}, {{-1, 1}}}); return p; }

Conf conf0() { return confs(-4, 4)[4]; }

void pos_test(Ctx &ctx, E const &e, int pos) {
    auto conf = conf0();
    Program p = xy();
    Atom a;
    auto done = [&](Expect ex) {
        expect(ctx, p.text(), p.vars, [&] { return brute(p); }, conf, ex);
        ctx.outcome(hash_str(cat(pos, "|", e.text)));
        if (e.must) { ctx.count(NONTRIV); }
        if (ctx.wants_sample()) { ctx.sample(p.text()); } else { ctx.skip_sample(); }
    };
    auto worse = [](Expect a, Expect b) { return std::max(a, b); };
    switch (pos) {
        case 0: // element of a sum
            a.elems = {poly(e)}; a.rhs = {{1, {}}}; a.rel = "<="; a.text = "&sum{ " + e.text + " } <= 1";
            p.rules.push_back(thead(a));
            return done(lin(e));
        case 1: // right-hand side
            a.elems = {{{1, {0}}}}; a.rhs = poly(e); a.rel = "="; a.text = "&sum{ x } = " + e.text;
            p.rules.push_back(bhead(0, {tlit(a)}));
            return done(lin(e));
        case 2: // nonlinear sum
            a.elems = {poly(e)}; a.rhs = {{-1, {}}}; a.rel = ">"; a.text = "&nsum{ " + e.text + " } > -1";
            p.rules.push_back(thead(a));
            return done(nonlin(e));
        case 3: // bound of a difference constraint
            a.elems = {{{1, {0}}, {-1, {1}}}}; a.rhs = poly(e); a.text = "&diff{ x-y } <= " + e.text;
            p.rules.push_back(thead(a));
            return done(cst(e));
        case 4: // bounds of a domain
            a.kind = Atom::DOM; a.elems = {{{1, {0}}}};
            if (cst(e) != MUST) { a.dom = {{static_cast<I>(e.val()), 1}}; }
            a.text = "&dom{ " + e.text + "..1 } = x";
            p.rules.push_back(thead(a));
            return done(cst(e));
        case 5:
            a.kind = Atom::DOM; a.elems = {{{1, {0}}}};
            if (cst(e) != MUST) { a.dom = {{-1, static_cast<I>(e.val())}, {static_cast<I>(e.val()), static_cast<I>(e.val())}}; }
            a.text = "&dom{ -1.." + e.text + "; " + e.text + " } = x";
            p.rules.push_back(thead(a));
            return done(cst(e));
        case 6: // element of a distinct constraint
            a.kind = Atom::DISTINCT; a.elems = {{{1, {1}}}, poly(e)}; a.text = "&distinct{ y; " + e.text + " }";
            p.rules.push_back(thead(a));
            return done(lin(e));
        case 7: // length of an interval
            a.kind = Atom::DISJOINT; a.elems = {{{1, {0}}}, {{1, {1}}}}; a.len = {static_cast<I>(e.val()), 1}; a.text = "&disjoint{ x@" + e.text + "; y@1 }";
            p.rules.push_back(thead(a));
            return done(cst(e));
        case 8: { // argument in the name of a variable
            if (cst(e) != MUST) { p.vars[0] = cat("f(", static_cast<I>(e.val()), ")"); }
p.extra = "&dom{ -1..1 } = y. ";
            conf = confs(-2, 2)[4];
            a.elems = {{{1, {0}}, {1, {1}}}}; a.rhs = {{0, {}}}; a.rel = ">="; a.text = "&sum{ f(" + e.text + ")+y } >= 0";
            p.rules.push_back(thead(a));
            if (e.sym && !e.must) { run(p.text(), p.vars, conf); return; } // a name with a symbolic argument or an error
            return done(e.must ? MUST : worse(EXACT, cst(e)));
        }
        case 9: { // objective: the optimum tells the value
            std::string text = p.text() + "&minimize{ " + e.text + " }.";
            I best = 0;
            bool first = true;
            if (lin(e) != MUST) { for (auto const &s : brute(p)) { I c = static_cast<I>(eval(poly(e), s.vals)); if (first || c < best) { best = c; first = false; } } }
            for (auto const &c : {conf, confs(-4, 4)[0]}) {
                std::vector<I> costs;
                bool err = false;
                std::string msg;
                try {
                    Theory t{c};
                    t.add(text);
                    t.ground();
                    t.prepare();
                    Handler h{t, p.vars};
                    t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
                    for (auto const &s : h.sols) { costs.push_back(static_cast<I>(eval(poly(e), s.vals))); }
                } catch (std::exception &x) { err = true; msg = x.what(); }
                ctx.count(EXEC);
                auto ex = lin(e);
                if (err) { ctx.count(EXTRA1); if (ex == EXACT) { throw Violation(report(text, c, "error: " + msg)); } continue; }
                if (ex == MUST) { throw Violation(report(text, c, "accepted although it is not in the language or has no value")); }
                if (costs.empty() || costs.back() != best) { throw Violation(report(text, c, cat("last model has value ", costs.empty() ? 0 : costs.back(), " but the optimum is ", best))); }
            }
            ctx.outcome(hash_str(cat(pos, "|", e.text)));
            return;
        }
        case 10: { // shown variable
            if (e.sym || e.must || e.may) { return; }
            return;
        }
    }
}

// {{{ names of variables

struct Name { std::string text; std::optional<Clingo::Symbol> val; };

std::vector<Name> names(bool T) {
    using Clingo::Function;
    using Clingo::Number;
    std::vector<Name> base{{"g", Function("g", {})}, {"3", Number(3)}, {"0", Number(0)}, {"\"s\"", Clingo::String("s")}, {"(1,g)", Function("", {Number(1), Function("g", {})})},
                           {"()", Function("", {})}, {"(2,)", Function("", {Number(2)})}, {"h(1)", Function("h", {Number(1)})}, {"h(-k,(-1))", Function("h", {Function("k", {}, false), Number(-1)})}};
    auto neg = [](Name const &n) {
        Name r{"-(" + n.text + ")", {}};
        if (n.val && n.val->type() == Clingo::SymbolType::Number) { r.val = Number(-n.val->number()); }
        if (n.val && n.val->type() == Clingo::SymbolType::Function && *n.val->name() != 0) { r.val = Function(n.val->name(), n.val->arguments(), !n.val->is_positive()); }
        return r;
    };
    auto app = [](char const *f, std::vector<Name> const &as) {
        Name r{f + std::string("("), {}};
        Clingo::SymbolVector v;
        bool ok = true, sep = false;
        for (auto const &a : as) { r.text += (sep ? "," : "") + a.text; sep = true; if (a.val) { v.push_back(*a.val); } else { ok = false; } }
        r.text += *f == 0 && as.size() == 1 ? ",)" : ")";
        if (ok) { r.val = Function(f, {v.data(), v.size()}); }
        return r;
    };
    std::vector<Name> all = base, last = base;
    for (int d = 0; d < (T ? 3 : 2); ++d) {
        std::vector<Name> next;
        for (auto const &n : last) {
            next.push_back(neg(n));
            next.push_back(app("f", {n}));
            next.push_back(app("", {n}));
            for (auto const &b : {base[0], base[2]}) { next.push_back(app("f", {b, n})); if (d == 0 || T) { next.push_back(app("", {n, b})); } }
        }
        all.insert(all.end(), next.begin(), next.end());
        last = std::move(next);
    }
    return all;
}

void name_test(Ctx &ctx, Name const &n, int pos) {
    std::string v = "v(" + n.text + ")", w = n.val ? Clingo::Function("v", {*n.val}).to_string() : v, prg;
    I want = 3;
    switch (pos) {
        case 0: prg = "&sum{ " + v + " } = 3."; break;
        case 1: prg = "&dom{ 3..3 } = " + v + "."; break;
        case 2: prg = "&sum{ " + v + "; " + w + " } = 6."; break;
        case 3: prg = "&diff{ " + v + "-0 } <= 3. &sum{ " + w + " } >= 3."; break;
        case 4: prg = "&sum{ " + w + " } >= 3. &sum{ " + w + " } <= 4. &dom{ 3..3 } = y. &disjoint{ " + v + "@1; y@1 }."; want = 4; break;
        case 5: prg = "&sum{ " + w + " } >= 3. &sum{ " + w + " } <= 4. &distinct{ " + v + "; 3 }."; want = 4; break;
        case 6: prg = "&sum{ " + w + " } >= 0. &sum{ " + w + " } <= 5. &nsum{ " + v + "*" + w + " } = 9."; break;
        case 7: prg = "&sum{ " + w + " } >= 3. &sum{ " + w + " } <= 4. &minimize{ " + v + " }."; break;
        case 8: prg = "&sum{ " + w + " } >= 3. &sum{ " + w + " } <= 3. &dom{ 0..0 } = u. &show{ " + v + " }."; break;
        case 9: prg = "&sum{ 1 } <= " + v + "-2. :- &sum{ " + v + " } > 3."; break;
    }
    auto conf = confs(-9, 9)[4];
    std::vector<std::string> shown;
    std::vector<Sol> sols;
    std::string err;
    ctx.count(EXEC);
    try {
        Theory t{conf};
        t.add(prg);
        t.ground();
        t.prepare();
        std::vector<std::string> vars{n.val ? w : "v"};
        Handler h{t, vars};
        h.hook = [&](Clingo::Model &m, Sol &) {
            shown.clear();
            for (auto s : m.symbols(Clingo::ShowType::Theory)) { if (s.match("__csp", 2)) { shown.push_back(s.to_string()); } }
        };
        t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
        sols = h.sols;
    } catch (std::exception const &e) { err = e.what(); }
    // the grammar has no operators in the names of domain constraints
    if (!n.val || (pos == 1 && n.text.find('-') != std::string::npos)) {
        ctx.count(EXTRA1);
        if (err.empty()) { throw Violation(report(prg, conf, "accepted although the name has no value or is not in the language")); }
    } else {
        if (!err.empty()) { throw Violation(report(prg, conf, "error: " + err)); }
        if (sols.empty() || sols.back().vals[0] != want || (pos != 7 && sols.size() != 1)) { throw Violation(report(prg, conf, cat("expected a model with ", w, "=", want, ", got ", sols.size(), " models", sols.empty() || sols.back().vals[0] == UNDEF ? " without a value" : cat(" and ", sols.back().vals[0])))); }
        if (pos == 8 && (shown.size() != 1 || shown[0] != "__csp(" + w + ",3)")) { throw Violation(report(prg, conf, cat("expected to show ", w, ", shown: ", shown.empty() ? "nothing" : shown[0]))); }
    }
    ctx.outcome(hash_str(cat("name", pos, "|", n.text)));
}

// }}}

void c17(Ctx &ctx) {
    for (auto const &n : names(ctx.thorough())) { for (int pos = 0; pos < 10; ++pos) { ctx.test([&] { name_test(ctx, n, pos); }); } }
    std::vector<E> leaves{var(0, "x"), var(1, "y"), num(0), num(1), num(2), num(3)};
    auto l1 = level1(leaves);
    // all trees of depth one in all positions, all trees of depth two in some
    for (auto const &e : l1) { for (int pos = 0; pos < 10; ++pos) { ctx.test([&] { pos_test(ctx, e, pos); }); } }
    std::vector<E> small{var(0, "x"), num(0), num(2), num(3)};
    auto s1 = level1(small);
    auto const &a1 = ctx.thorough() ? l1 : s1;
    size_t k = 0;
    for (auto const &a : a1) {
        for (auto const &b : a1) {
            for (int op = 0; op < 6; ++op) {
                ++k;
                // one case per position; the position rotates through the pairs in quick mode
                for (int pos = 0; pos < 10; ++pos) {
                    if (!ctx.thorough() && pos != 0 && static_cast<size_t>(pos) != 1 + k % 9) { continue; }
                    if (!ctx.next()) { continue; }
                    ctx.begin();
                    pos_test(ctx, bin(op, a, b), pos);
                    ctx.end();
                    if (ctx.only_ >= 0) { throw Ctx::Stop{}; }
                }
            }
        }
    }
    // constants of depth three
    std::vector<E> nums{num(0), num(2), num(3)};
    auto n1 = level1(nums);
    std::vector<E> n2 = n1;
    for (auto const &a : n1) { for (auto const &b : nums) { for (int op = 0; op < 6; ++op) { n2.push_back(bin(op, a, b)); n2.push_back(bin(op, b, a)); } } }
    for (auto const &a : n2) {
        for (int pos : {4, 5, 7, 8}) { ctx.test([&] { pos_test(ctx, a, pos); }); }
        ctx.test([&] { pos_test(ctx, un(a), 3); });
        for (auto const &b : {num(2), un(num(3))}) { for (int op = 0; op < 6; ++op) { ctx.test([&] { pos_test(ctx, bin(op, a, b), 1); }); ctx.test([&] { pos_test(ctx, bin(op, b, a), 3); }); } }
    }
    // without parentheses: unary minus binds stronger than **, which is right associative; * / \ before + -
    std::vector<E> fl{var(0, "x"), num(2), num(3)};
    struct Tok { E e; bool neg; };
    auto flat = [&](std::vector<Tok> const &ts, std::vector<int> const &ops) {
        std::vector<E> vs;
        std::string text;
        for (size_t i = 0; i < ts.size(); ++i) {
            E e = ts[i].neg ? neg(ts[i].e) : ts[i].e;
            text += (i == 0 ? "" : cat(" ", OPS[ops[i - 1]], " ")) + (ts[i].neg ? "- " : "") + ts[i].e.text;
            vs.push_back(e);
        }
        std::vector<int> os = ops;
        for (size_t i = os.size(); i-- > 0;) { if (os[i] == 5) { vs[i] = apply(5, vs[i], vs[i + 1]); vs.erase(vs.begin() + static_cast<long>(i) + 1); os.erase(os.begin() + static_cast<long>(i)); } }
        for (size_t i = 0; i < os.size();) { if (os[i] >= 2) { vs[i] = apply(os[i], vs[i], vs[i + 1]); vs.erase(vs.begin() + static_cast<long>(i) + 1); os.erase(os.begin() + static_cast<long>(i)); } else { ++i; } }
        E r = vs[0];
        for (size_t i = 0; i < os.size(); ++i) { r = apply(os[i], r, vs[i + 1]); }
        r.text = text;
        return r;
    };
    std::vector<Tok> toks;
    for (auto const &e : fl) { toks.push_back({e, false}); toks.push_back({e, true}); }
    for (auto const &a : toks) { for (auto const &b : toks) { for (auto const &c : toks) { for (int o = 0; o < 6; ++o) { for (int q = 0; q < 6; ++q) { for (int pos : {0, 3}) {
        ctx.test([&] { pos_test(ctx, flat({a, b, c}, {o, q}), pos); });
    } } } } } }
    if (ctx.thorough()) {
        for (auto const &a : toks) { for (auto const &b : toks) { for (auto const &c : toks) { for (auto const &d : toks) { for (int o = 0; o < 216; ++o) {
            ctx.test([&] { pos_test(ctx, flat({a, b, c, d}, {o % 6, o / 6 % 6, o / 36}), 1); });
        } } } } }
    }
    // equivalent spellings of one linear constraint
    std::vector<std::vector<std::string>> groups{
        {"&sum{ x; x } <= 2", "&sum{ 2*x } <= 2", "&sum{ x+x } <= 2", "&sum{ 3*x-x } <= 2", "&sum{ x*2 } <= 2", "&sum{ (1+1)*x } <= 2", "&sum{ x } <= 2-x", "&sum{ 0 } <= 2-2*x", "&sum{ x; x; 0*y } <= 2", "&sum{ x; x; y; -y } <= 2", "&sum{ -2*x } >= -2", "&sum{ 2 } >= 2*x", "&sum{ x; x; 3 } <= 5", "&sum{ x; x } < 3"},
        {"&sum{ x; -2*y } = 1", "&sum{ x } = 1+2*y", "&sum{ x-y-y } = 1", "&sum{ x-2*y-1 } = 0", "&sum{ 2*(x-y) } = 2+2*y", "&sum{ -(2*y-x) } = 1", "&sum{ 1+2*y } = x", "&sum{ 3*x; -6*y } = 3"},
        {"&sum{ x+y } != 1", "&sum{ x } != 1-y", "&sum{ 1 } != x+y", "&sum{ -x-y } != -1", "&sum{ 2*(x+y)-1 } != 1", "&sum{ x; y; 1; -1 } != 1"},
        {"&sum{ x; y } > 0", "&sum{ x; y } >= 1", "&sum{ -x } < y", "&sum{ 0 } < x+y", "&sum{ 2*x; 2*y } > 1", "&sum{ -(x+y) } <= -1"}};
    std::vector<Poly> lhs{{{2, {0}}}, {{1, {0}}, {-2, {1}}}, {{1, {0}}, {1, {1}}}, {{1, {0}}, {1, {1}}}};
    std::vector<std::pair<std::string, I>> rel{{"<=", 2}, {"=", 1}, {"!=", 1}, {">", 0}};
    for (size_t g = 0; g < groups.size(); ++g) {
        for (auto const &t : groups[g]) {
            for (int pos = 0; pos < NPOS; ++pos) {
                test_program(ctx, confs(-4, 4), [&] {
                    Program p = xy();
                    Atom a;
                    a.elems = {lhs[g]}; a.rel = rel[g].first; a.rhs = {{rel[g].second, {}}}; a.text = t;
                    place(p, a, pos);
                    return p;
                });
            }
        }
    }
}

// ---------------------------------------------------------------- C18

// p(1..2), q(1), q(2) by facts; r(1,1), r(1,2), r(2,1)
std::string const FACTS = "p(1). p(2). q(1). q(2). r(1,1). r(1,2). r(2,1). s(3). ";

struct El { std::string text; std::vector<Poly> inst; };

std::vector<El> elements() {
    Poly x{{1, {0}}}, y{{1, {1}}}, x2{{2, {0}}}, y1{{1, {1}}, {1, {}}}, one{{1, {}}}, m{{-1, {0}}};
    auto rep = [](Poly const &p, int n) { return std::vector<Poly>(static_cast<size_t>(n), p); };
    return {
        {"x", rep(x, 1)},
        {"y", rep(y, 1)},
        {"x : p(X)", rep(x, 2)},
        {"x : p(X), q(Y)", rep(x, 4)},
        {"y : r(X,Y)", rep(y, 3)},
        {"y : r(X,_)", rep(y, 2)},
        {"x : p(_)", rep(x, 1)},
        {"X*x : p(X)", {x, x2}},
        {"X*x : r(X,Y)", {x, x, x2}},
        {"1 : p(X)", rep(one, 2)},
        {"X : p(X)", {one, {{2, {}}}}},
        {"y : p(1;2)", rep(y, 2)},
        {"y+1 : s(X)", rep(y1, 1)},
        {"-x : p(X), X=2", rep(m, 1)},
        {"x : p(9)", {}},
        {"Y-X-x : r(X,Y)", {{{-1, {0}}}, {{1, {}}, {-1, {0}}}, {{-1, {}}, {-1, {0}}}}},
        {"x : not p(3)", rep(x, 1)},
        {"v(X) : p(X)", {{{1, {2}}}, {{1, {3}}}}},
        {"v(X) : r(X,Y)", {{{1, {2}}}, {{1, {2}}}, {{1, {3}}}}},
    };
}

void c18(Ctx &ctx) {
    auto els = elements();
    bool th = ctx.thorough();
    auto cs = confs(-2, 2);
    std::vector<Conf> use{cs[1], cs[4], cs[7]};
    auto base = [&] {
        Program p;
        domains(p, {"x", "y", "v(1)", "v(2)"}, {{{-1, 1}}, {{0, 1}}, {{0, 1}}, {{0, 1}}});
        p.extra += FACTS;
        return p;
    };
    auto sums = [&](std::vector<size_t> const &idx, std::string const &rel, I rhs, int pos) {
        test_program(ctx, use, [&] {
            Program p = base();
            Atom a;
            a.rel = rel;
            a.rhs = {{rhs, {}}};
            for (auto i : idx) { a.text += (a.text.empty() ? "" : "; ") + els[i].text; for (auto const &e : els[i].inst) { a.elems.push_back(e); } }
            a.text = "&sum{ " + a.text + " } " + rel + " " + cat(rhs);
            place(p, a, pos);
            return p;
        });
    };
    size_t k = 0;
    for (size_t i = 0; i < els.size(); ++i) {
        for (int pos = 0; pos < NPOS; ++pos) { for (I rhs = -1; rhs <= 3; ++rhs) { for (auto const *rel : RELS) { sums({i}, rel, rhs, pos); } } }
        for (size_t j = 0; j < els.size(); ++j) {
            for (int pos = 0; pos < NPOS; ++pos) {
                if (!th && pos % 3 != static_cast<int>(k++ % 3)) { continue; }
                sums({i, j}, "<=", 1, pos);
                sums({i, j}, "=", 2, pos);
            }
            for (size_t l = j; l < els.size(); ++l) { if (th || (i + j + l) % 3 == 0) { sums({i, j, l}, "=", 1, 0); if (th) { sums({i, j, l}, "<=", 2, 6); } } }
        }
    }
    // the other constraints
    auto other = [&](std::string const &kind, std::vector<size_t> const &idx) {
        test_program(ctx, use, [&] {
            Program p = base();
            Atom a;
            std::string t;
            for (auto i : idx) {
                for (auto const &e : els[i].inst) { a.elems.push_back(e); a.len.push_back(1); }
                auto s = els[i].text;
                auto c = s.find(" : ");
                t += (t.empty() ? "" : "; ") + (kind == "disjoint" ? s.substr(0, c) + "@1" + (c == std::string::npos ? "" : s.substr(c)) : s);
            }
            a.kind = kind == "distinct" ? Atom::DISTINCT : Atom::DISJOINT;
            a.text = "&" + kind + "{ " + t + " }";
            p.choice = {0};
            p.rules.push_back(thead(a, {blit(0)}));
            return p;
        });
    };
    auto plain = [&](size_t i) { auto const &t = els[i].text; auto s = t.substr(0, t.find(" : ")); return s == "x" || s == "y" || s == "v(X)"; };
    for (size_t i = 0; i < els.size(); ++i) {
        other("distinct", {i});
        if (plain(i)) { other("disjoint", {i}); }
        for (size_t j = 0; j < els.size(); ++j) {
            other("distinct", {i, j});
            if (plain(i) && plain(j)) { other("disjoint", {i, j}); }
            if (th) { for (size_t l = 0; l < els.size(); ++l) { other("distinct", {i, j, l}); if (plain(i) && plain(j) && plain(l)) { other("disjoint", {i, j, l}); } } }
        }
    }
    // objectives
    for (size_t i = 0; i < els.size(); ++i) {
        for (size_t j = i; j < els.size(); ++j) {
            for (bool mx : {false, true}) {
                ctx.test([&] {
                    Program p = base();
                    std::vector<Poly> obj;
                    for (auto const &e : els[i].inst) { obj.push_back(e); }
                    if (j != i) { for (auto const &e : els[j].inst) { obj.push_back(e); } }
                    std::string text = p.text() + (mx ? "&maximize{ " : "&minimize{ ") + els[i].text + (j != i ? "; " + els[j].text : "") + " }.";
                    auto value = [&](std::vector<I> const &a) { I c = 0; for (auto const &e : obj) { c += static_cast<I>(eval(e, a)); } return c; };
                    I best = 0;
                    bool first = true;
                    for (auto const &s : brute(p)) { I c = value(s.vals); if (first || (mx ? c > best : c < best)) { best = c; first = false; } }
                    for (auto const &c : {cs[0], cs[4]}) {
                        Theory t{c};
                        t.add(text);
                        t.ground();
                        t.prepare();
                        Handler h{t, p.vars};
                        t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
                        ctx.count(EXEC);
                        if (h.sols.empty() || value(h.sols.back().vals) != best) { throw Violation(report(text, c, cat("last model has value ", h.sols.empty() ? 0 : value(h.sols.back().vals), " but the optimum is ", best))); }
                    }
                    ctx.outcome(text);
                });
            }
        }
    }
    // shifting: all constraints over up to three literals
    auto bvars = [&] { Program p; domains(p, {"x", "y"}, {{{-1, 1}}, {{-1, 1}}}); p.choice = {0, 1}; return p; };
    std::vector<std::string> names{"x", "y"};
    std::vector<Lit> lits{blit(0), blit(1, true)};
    std::vector<std::string> txt{"a", "not b"};
    for (bool n : {false, true}) {
        auto add = [&](Atom const &a) { lits.push_back(tlit(a, n)); };
        add(sum_atom(names, {{1, {0}}}, "<=", 0));
        add(sum_atom(names, {{1, {0}}, {-2, {1}}}, "=", 1));
        add(sum_atom(names, {{1, {0}}, {1, {1}}}, "!=", 0));
        add(sum_atom(names, {{1, {1}}}, ">", -1));
        add(sum_atom(names, {{2, {0}}, {1, {1}}}, "<", 0));
        add(sum_atom(names, {{1, {1}}, {-1, {0}}}, ">=", 1));
        add(diff_atom(names, 0, 1, 0));
        add(diff_atom(names, 1, 0, -1));
        add(sum_atom(names, {{1, {0, 1}}}, "<=", 0, "nsum"));
        add(sum_atom(names, {{1, {0, 0}}, {1, {1}}}, "!=", 1, "nsum"));
    }
    std::vector<Conf> sh{cs[0].with("shift-constraints", "yes"), cs[0].with("shift-constraints", "no"), cs[4].with("shift-constraints", "yes"), cs[1]};
    struct Head { std::string text; bool enforced; };
    std::vector<Head> heads{{":- ", true}, {"#false :- ", true}, {"not #true :- ", true}, {"not not #false :- ", true}, {"#true :- ", false}, {"not #false :- ", false}, {"not not #true :- ", false}};
    auto shifted = [&](std::vector<size_t> const &ls, Head const &hd) {
        ctx.test([&] {
            Program p = bvars();
            if (hd.enforced) { Rule r; for (auto i : ls) { r.body.push_back(lits[i]); } p.rules.push_back(r); }
            Program q = bvars();
            std::string text = q.text() + hd.text;
            bool sep = false;
            for (auto i : ls) { auto const &l = lits[i]; text += (sep ? ", " : "") + std::string(l.neg ? "not " : "") + (l.boolean >= 0 ? std::string(1, BN[static_cast<size_t>(l.boolean)]) : l.atom.text); sep = true; }
            text += ".";
            auto want = brute(p);
            for (auto const &c : sh) { expect(ctx, text, p.vars, [&] { return want; }, c, EXACT); }
            ctx.count(NONTRIV);
            ctx.outcome(text);
            if (ctx.wants_sample()) { ctx.sample(text); } else { ctx.skip_sample(); }
        });
    };
    for (size_t i = 0; i < lits.size(); ++i) {
        for (auto const &hd : heads) { shifted({i}, hd); }
        for (size_t j = 0; j < lits.size(); ++j) {
            shifted({i, j}, heads[0]);
            if (i < 4) { for (auto const &hd : heads) { shifted({i, j}, hd); } }
            for (size_t l = 0; l < lits.size(); ++l) { if (th || (i + 2 * j + 3 * l) % 5 == 0) { shifted({i, j, l}, heads[0]); } }
        }
    }
    // double negation in front of a theory atom
    for (auto const &l : lits) {
        if (l.boolean >= 0 || l.neg) { continue; }
        for (auto const &hd : heads) {
            ctx.test([&] {
                Program p = bvars();
                if (hd.enforced) { Rule r; r.body = {blit(0), l}; p.rules.push_back(r); }
                std::string text = bvars().text() + hd.text + "a, not not " + l.atom.text + ".";
                auto want = brute(p);
                for (auto const &c : sh) { expect(ctx, text, p.vars, [&] { return want; }, c, EXACT); }
                ctx.outcome(text);
            });
        }
    }
}

// ---------------------------------------------------------------- C24

void c24(Ctx &ctx) {
    struct Bad { std::string text; };
    std::string const pre = "p(1). p(2). {a}. &dom{0..1}=x. &dom{0..1}=y. &dom{0..1}=z. ";
    auto cs = confs(-2, 2);
    std::vector<Conf> use{cs[0], cs[4]};
    auto bad = [&](std::string const &text, bool may = false) {
        ctx.test([&] {
            for (auto const &c : use) { expect(ctx, pre + text, {"x", "y"}, [] { return std::vector<Sol>{}; }, c, may ? MAY : MUST); }
            ctx.count(NONTRIV);
            ctx.outcome(text);
            if (ctx.wants_sample()) { ctx.sample(text); } else { ctx.skip_sample(); }
        });
    };
    auto good = [&](std::string const &text) {
        ctx.test([&] {
            for (auto const &c : use) {
                auto r = run(pre + text, {"x", "y"}, c);
                ctx.count(EXEC);
                if (r.error) { throw Violation(report(pre + text, c, "error: " + r.msg)); }
            }
            ctx.outcome(text);
        });
    };
    // well-formed building blocks
    std::vector<std::string> num_bad{"a+1", "1+a", "a*2", "-\"s\"", "\"s\"", "f(1)", "(1,2)", "1/0", "1\\0", "0**(-1)", "2**31", "2**a", "{1}", "[1]", "1/a", "a\\2", "()", "f({1})", "2147483647+1", "(-2147483647-1)/(-1)", "65536*65536", "-(-2147483647-1)", "a", "(1,)", "f([1])", "1/(1-1)"};
    std::vector<std::string> sum_good{"x", "2*x", "x+y", "1", "x-y", "-x", "f(1)*3"};
    std::vector<std::string> sum_bad{"x*y", "x*x", "2*x*y", "(x+1)*(y+1)", "x/2", "2/x", "x\\2", "x**2", "2**x", "x/1", "1/0", "1\\0", "0**(-1)", "2**31", "{x}", "[x]", "f({x})", "f([x])", "x*{1}", "x, y", "x,1", "65536*65536*x", "(x,y)*x", "f(1/0)", "f(x+\"a\")", "(1/0,2)", "\"a\"*\"b\"", "2147483647+1", "x-x*y", "f(x)*g(y)", "x*(1/0)", "x*(2/x)", "x : a", "x : not a", "x : p(X), a", "x : &sum{y} <= 1"};
    std::vector<std::string> nsum_bad{"x*y*z", "x*y; y*z", "x*y; x*x", "x; y; x*y", "x+y", "x; z", "(x+1)*(y+1)*z", "x/y", "x**2", "2**x", "{x}*y", "x*y : a", "x*y, 1", "x*[y]", "x*y+1/0", "(x+y)*(x-z)", "x*x*x", "1073741824*x*y", "x*y+1073741824*z"};
    std::vector<std::string> nsum_good{"x*y", "x", "2*x*x", "x*y; z", "x*y; x*y", "3", "x*y*z - x*y*z", "(x+1)*y"};
    std::vector<std::string> diff_bad{"x", "x+y", "x-y-z", "2*x-y", "x-y; y-x", "x-y; 1", "-x", "x*y", "x-2*y", "x-{y}", "x-y : a", "x-y, 1", "", "1/0-x", "(x-y)-1", "x-(1+y)", "f(1/0)-x", "x-(-y-1)"};
    std::vector<std::string> dis_bad{"x", "x@y", "3@2", "x@1/0", "x+1@2", "2*x@1", "x@\"s\"", "x@f(1)", "x@{1}", "{x}@1", "x@1, 2", "x@1 : a", "x@1@2", "x@2**31", "(1+1)@2", "x@(1,2)", "x@2147483647"};
    std::vector<std::string> dom_bad{"x..1", "1..x", "x", "1..2..3", "\"s\"", "f(1)", "1/0", "1..1/0", "{1}", "[1..2]", "(1,2)", "1,2", "1 : a", "1..2 : a", "()", "1..2**31", "-(2**31)..0", "1073741824", "0..1073741824", "-1073741824..0", "2147483647", "2147483646..2147483647", "-2147483647-1..0", "1+a"};
    std::vector<std::string> show_bad{"3", "x/y", "3/2", "f(1)/2", "\"s\"/1", "x+1", "2*x", "x-y", "{x}", "[x]", "x/\"s\"", "x, y", "x : a", "x/1/2", "f(1/0)", "x/(1/0)", "1+1", "x**2", "(x,y)/2", "(-3)"};
    std::vector<std::string> rhs_bad{"x*y", "x/2", "{1}", "[x]", "1/0", "2**31", "f({x})", "x*x", "2147483647+1", "1073741824*1073741824"};
    std::vector<std::string> rels{"<=", "=", "!=", "<", ">", ">="};
    std::vector<std::pair<std::string, std::string>> places{{"", "."}, {"", " :- a."}, {":- ", "."}, {":- not ", "."}, {":- a, ", "."}, {"b :- ", "."}};
    auto placed = [&](std::string const &atom, std::function<void(std::string const &)> const &f, size_t n = 99) { for (size_t i = 0; i < std::min(n, places.size()); ++i) { f(places[i].first + atom + places[i].second); } };
    auto all_bad = [&](std::string const &atom, size_t n = 99) { placed(atom, [&](std::string const &t) { bad(t); }, n); };
    // a malformed element alone, before and after well-formed ones
    auto lists = [&](std::vector<std::string> const &bads, std::vector<std::string> const &goods, std::function<void(std::string const &)> const &f) {
        for (auto const &b : bads) {
            f(b);
            for (auto const &g : goods) { f(b + "; " + g); f(g + "; " + b); }
            if (ctx.thorough()) { for (auto const &c : bads) { f(b + "; " + c); } for (auto const &g : goods) { for (auto const &h : goods) { f(g + "; " + b + "; " + h); } } }
        }
    };
    lists(sum_bad, sum_good, [&](std::string const &e) { for (auto const &r : rels) { all_bad("&sum{ " + e + " } " + r + " 1"); } });
    for (auto const &g : sum_good) {
        for (auto const &r : rels) {
            for (auto const &b : rhs_bad) { all_bad("&sum{ " + g + " } " + r + " " + b); }
            placed("&sum{ " + g + " } " + r + " 1", good);
        }
        all_bad("&sum{ " + g + " }");
        for (auto const *r : {"<", ">=", "=", "!=", ">"}) { all_bad("&diff{ x-y } " + std::string(r) + " 1"); }
    }
    all_bad("&sum{ 1073741824*x } <= 1"); all_bad("&sum{ x } <= 1073741824"); all_bad("&sum{ -1073741824*x; y } = 1");
    lists(nsum_bad, {"1"}, [&](std::string const &e) { for (auto const &r : rels) { all_bad("&nsum{ " + e + " } " + r + " 1"); } });
    for (auto const &g : nsum_good) { for (auto const &r : rels) { placed("&nsum{ " + g + " } " + r + " 1", good); all_bad("&nsum{ " + g + " } " + r + " x*y*z"); all_bad("&nsum{ " + g + " } " + r + " 1/0"); } all_bad("&nsum{ " + g + " }"); }
    for (auto const &b : diff_bad) { all_bad("&diff{ " + b + " } <= 1"); }
    for (auto const &b : num_bad) { all_bad("&diff{ x-y } <= " + b); }
    for (auto const *g : {"x-y", "x-1", "3-x", "f(1)-y", "x-x", "1-2"}) { placed("&diff{ " + std::string(g) + " } <= 1", good); all_bad("&diff{ " + std::string(g) + " }"); }
    lists(sum_bad, {"y", "1"}, [&](std::string const &e) { bad("&distinct{ " + e + " }."); bad("&distinct{ " + e + " } :- a."); });
    lists(dis_bad, {"y@1", "z@0"}, [&](std::string const &e) { bad("&disjoint{ " + e + " }."); bad("&disjoint{ " + e + " } :- a."); });
    for (auto const &b : num_bad) { bad("&disjoint{ x@" + b + "; y@1 }."); bad("&disjoint{ y@1; x@" + b + " } :- a."); }
    lists(dom_bad, {"0", "0..1"}, [&](std::string const &e) { bad("&dom{ " + e + " } = x."); bad("&dom{ " + e + " } = x :- a."); });
    for (auto const &b : num_bad) { bad("&dom{ " + b + " } = x."); bad("&dom{ " + b + "..1 } = x."); bad("&dom{ 0.." + b + " } = x."); bad("&dom{ 0; " + b + " } = x :- a."); }
    for (auto const *v : {"3", "x+1", "-x", "2*x", "{x}", "[x]", "1/0", "f({x})", "-1", "f(1..2)"}) { for (auto const *e : {"0..1", "", "1"}) { bad("&dom{ " + std::string(e) + " } = " + v + "."); bad("&dom{ " + std::string(e) + " } = " + v + " :- a."); } }
    bad("&dom{ 0..1 }."); bad("&dom{ 0..1 } <= x."); bad("&dom{ 0..1 } != x."); bad("&dom{ } ."); bad(":- &dom{ 0..1 } = x."); bad("b :- not &dom{ 0..1 } = x.");
    lists(show_bad, {"x", "x/0"}, [&](std::string const &e) { bad("&show{ " + e + " }."); });
    for (auto const *d : {"minimize", "maximize"}) {
        lists(sum_bad, {"x", "1", "-2*y"}, [&](std::string const &e) { bad("&" + std::string(d) + "{ " + e + " }."); });
        bad("&" + std::string(d) + "{ x } <= 1."); bad(":- &" + std::string(d) + "{ x }."); bad("b :- &" + std::string(d) + "{ x }."); bad("&" + std::string(d) + "{ x } :- a.");
    }
    for (auto const *t : {"distinct", "disjoint"}) { bad(":- &" + std::string(t) + "{ }."); bad("b :- &" + std::string(t) + "{ }."); bad("&" + std::string(t) + "{ } <= 1."); }
    bad(":- &show{ x }."); bad("b :- not &show{ x }."); bad("&show{ x } = 1."); bad("&show{ x } :- a.");
    for (auto const *n : {"sums", "__sum_x", "add", "linear", "minimise"}) { bad("&" + std::string(n) + "{ x } <= 1."); }
    for (auto const *n : {"sum(1)", "sum(x)", "nsum(1)", "diff(1)", "distinct(1)", "dom(1)", "disjoint(1)", "minimize(1)", "show(1)"}) { bad("&" + std::string(n) + "{ x } = 1."); bad("&" + std::string(n) + "{ x }."); }
    // wrong, but well-formed neighbours must be accepted
    for (auto const *t : {"&sum{ } <= 1.", "&sum{ } = x.", "&sum{ f(1)*3 } <= 1.", "&distinct{ }.", "&distinct{ x }.", "&distinct{ 1; x }.", "&disjoint{ }.", "&disjoint{ x@(-1); y@1 }.", "&dom{ } = x :- a.", "&dom{ 1..0 } = x :- a.", "&show{ }.", "&show{ x; f/1 }.", "&minimize{ }.", "&minimize{ 1 }.", "&maximize{ x; 2 }.", "&sum{ x : p(X) } <= 1.", "&sum{ x : p(3) } <= 1.", "&dom{ 0..1 } = (x,1).", "&dom{ 0..1 } = \"s\".", "&nsum{ } <= 1.", "&sum{ 536870912*x } <= 1.", "&sum{ 1073741823*x } <= 1073741823.", "&dom{ -1073741823..1073741823 } = x.", "&show{ (-x)/0 }.", "&sum{ x } = 2147483647-1073741824."}) { good(t); }
}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    CheckDef d;
    if (id == "C17") {
        d = program_check(id, "All expression trees over {x,y,0,1,2,3} with unary minus and + - * / \\ ** up to depth 2 (constants up to depth 3) and all unparenthesised chains of three operands, in ten positions (sum element, right-hand side, nonlinear sum, difference bound, domain bounds, distinct element, interval length, variable name, objective). The reference evaluates polynomials exactly, decides which terms have no value or are outside the language (an error is then required), and compares the solutions otherwise; equivalent spellings of four constraints in 11 rule positions under nine configurations; all variable names over numbers, strings, constants, functions and tuples up to depth 2 (minus, application, tuples) in ten positions. distinct = (position, expression).", c17);
    } else if (id == "C18") {
        d = program_check(id, "All lists of up to three elements from 19 conditional elements (shared, anonymous, pooled and missing variables) in sums (all relations, 11 positions), distinct, disjoint and objectives under three configurations; all integrity constraints over up to three literals from 22 (sum/diff/nsum with all relations, negated or not, Booleans) with seven spellings of the head, with and without shifting. Reference: each ground instance of a condition contributes once. distinct = program or its solution set.", c18);
    } else if (id == "C24") {
        d = program_check(id, "Grammar of atoms with one (thorough: two) ill-formed parts: about 200 ill-formed parts per slot (elements, guards, right-hand sides, conditions, names, arities, positions) combined with every well-formed neighbour and every rule position, each under two configurations; each must be rejected with an error without crashing, and the listed well-formed neighbours must be accepted. distinct = program.", c24);
    } else { return 2; }
    d.counters = {{EXEC, "executions"}, {NONTRIV, "nontrivial_programs"}, {SOLS, "solutions_compared"}, {EXTRA1, "rejected"}};
    return run_check(d, argc - 2, argv + 2);
}
