// A pool of small programs that together use every language construct.
#pragma once
#include "gen.hh"

namespace V {

inline std::vector<Program> pool() {
    std::vector<std::string> const N{"x", "y", "z", "w"};
    using Dom = std::vector<std::pair<I, I>>;
    std::vector<Program> r;
    auto P = [&](std::vector<Dom> const &ds, std::vector<int> choice, std::vector<Rule> rules) {
        Program p;
        domains(p, {N.begin(), N.begin() + static_cast<long>(ds.size())}, ds);
        p.choice = std::move(choice);
        p.rules = std::move(rules);
        r.push_back(std::move(p));
    };
    auto S = [&](std::vector<I> const &co, std::string const &rel, I rhs) {
        std::vector<Mono> ms;
        for (size_t i = 0; i < co.size(); ++i) { if (co[i] != 0) { ms.push_back({co[i], {static_cast<int>(i)}}); } }
        return sum_atom(N, ms, rel, rhs);
    };
    auto NS = [&](std::vector<Mono> const &ms, std::string const &rel, I rhs) { return sum_atom(N, ms, rel, rhs, "nsum"); };
    Dom D{{0, 3}}, E{{-2, -1}, {1, 2}}, F{{0, 2}};
    auto dist = [&](std::vector<Poly> const &e) { return distinct_atom(N, e); };
    Poly x{{1, {0}}}, y{{1, {1}}}, z{{1, {2}}}, w{{1, {3}}};
    // 0 plain sums
    P({D, D, D}, {}, {thead(S({2, -1, 1}, "<=", 3)), thead(S({1, 1, 1}, ">=", 4))});
    // 1 equality and disequality
    P({D, E, D}, {}, {thead(S({1, 1, -1}, "=", 0)), thead(S({1, -1}, "!=", 1))});
    // 2 reified sums
    P({D, E}, {}, {bhead(0, {tlit(S({1, 1}, "<=", 2))}), bhead(1, {tlit(S({3, -2}, ">", 1))}), bhead(2, {tlit(S({1, -1}, "=", 1))}), bhead(3, {tlit(S({2, 1}, "!=", 2), true)})});
    // 3 conditional sums and integrity constraints
    P({D, D, E}, {0, 1}, {thead(S({1, 1, 1}, "<=", 1), {blit(0)}), thead(S({1, -1}, "=", 2), {blit(1, true)}), constraint({tlit(S({0, 1, 1}, "<", 0)), blit(1)}), constraint({blit(0, true), tlit(S({2, 0, -3}, ">=", 5), true)})});
    // 4 single variables
    P({D, E}, {0}, {thead(S({2}, "<=", 5), {blit(0)}), thead(S({0, -3}, ">=", -4), {blit(0, true)}), bhead(1, {tlit(S({1}, "=", 2))}), bhead(2, {tlit(S({0, 1}, "!=", -1))})});
    // 5 differences, reified and conditional, with a cycle
    P({D, D, D}, {0}, {thead(diff_atom(N, 0, 1, -1), {blit(0)}), thead(diff_atom(N, 1, 2, 0)), bhead(1, {tlit(diff_atom(N, 2, 0, 1))}), constraint({tlit(diff_atom(N, 1, 0, -2)), blit(0, true)})});
    // 6 products
    P({E, E, D}, {}, {thead(NS({{2, {0, 1}}, {-1, {2}}}, "<=", 1)), bhead(0, {tlit(NS({{1, {0, 2}}}, ">", 2))})});
    // 7 squares, conditional
    P({{{-2, 2}}, D}, {0}, {thead(NS({{1, {0, 0}}, {-1, {1}}}, "=", 1), {blit(0)}), thead(NS({{-1, {0, 1}}, {1, {0}}}, ">=", 0), {blit(0, true)}), bhead(1, {tlit(NS({{1, {1, 1}}}, "!=", 4))})});
    // 8 distinct
    P({F, F, D}, {}, {thead(dist({x, y, z}))});
    // 9 distinct with terms, conditional
    P({F, F, E}, {0}, {thead(dist({{{1, {0}}, {1, {}}}, {{2, {1}}}, {{1, {2}}, {1, {0}}}, {{1, {}}}}), {blit(0)}), bhead(1, {tlit(S({1, 1, 1}, "<=", 2))})});
    // 10 binary distinct, constants
    P({F, E}, {0}, {thead(dist({x, y}), {blit(0)}), thead(dist({{{2, {0}}}, {{1, {}}}, {{-1, {1}}}}), {blit(0, true)})});
    // 11 disjoint
    P({D, D, D}, {}, {thead(disjoint_atom(N, {{0, 1}, {1, 2}, {2, 1}}))});
    // 12 disjoint, binary and conditional
    P({{{0, 4}}, D, E}, {0}, {thead(disjoint_atom(N, {{0, 2}, {1, 1}}), {blit(0)}), thead(disjoint_atom(N, {{0, 1}, {1, 2}, {2, 2}}), {blit(0, true)})});
    // 13 conditional domains
    P({{{-3, 4}}, {{-3, 4}}}, {0, 1}, {thead(dom_atom(N, 0, {{-2, 0}, {3, 3}}), {blit(0)}), thead(dom_atom(N, 0, {{0, 1}}), {blit(1)}), thead(dom_atom(N, 1, {{-1, 1}}), {blit(0, true)}), thead(dom_atom(N, 1, {}), {blit(0), blit(1)}), thead(S({1, 1}, ">", 0))});
    // 14 everything together
    P({D, E, D, F}, {0}, {thead(S({1, 1, 1, 1}, ">=", 2)), thead(dist({x, z, w}), {blit(0)}), thead(NS({{1, {0, 1}}, {1, {3}}}, "<=", 3)), bhead(1, {tlit(diff_atom(N, 0, 2, 0))}), thead(disjoint_atom(N, {{0, 1}, {2, 1}, {3, 1}}), {blit(0, true)}), constraint({blit(1), tlit(S({2, 0, 0, -3}, "<", -3))})});
    // 15 unsatisfiable
    P({F, F, F}, {}, {thead(dist({x, y, z})), thead(S({1, 1, 1}, "!=", 3))});
    // 16 implied theory body with theory head
    P({D, D, E}, {0}, {thead(S({1, 1, 0}, "<=", 3), {tlit(S({1, 0, 1}, ">", 1))}), thead(S({0, 1, 1}, "=", 1), {tlit(S({1, -1}, "<", 0), true), blit(0)})});
    // 17 larger coefficients
    P({{{0, 9}}, {{0, 9}}}, {0}, {thead(S({7, -5}, "=", 4), {blit(0)}), thead(S({4, 6}, "=", 30), {blit(0, true)}), bhead(1, {tlit(S({13, -11}, ">=", 20))})});
    return r;
}

struct Objective {
    bool maximize{false};
    Poly elems; // each monomial is an element
    std::string text(std::vector<std::string> const &names) const {
        std::string t = maximize ? "&maximize{" : "&minimize{";
        bool sep = false;
        for (auto const &m : elems) { t += (sep ? "; " : " ") + mono(m.co, names, m.vars); sep = true; }
        return t + " }. ";
    }
    I cost(std::vector<I> const &a) const { return maximize ? -eval(elems, a) : eval(elems, a); }
};

inline I cost(std::vector<Objective> const &os, std::vector<I> const &a) {
    I r = 0;
    for (auto const &o : os) { r += o.cost(a); }
    return r;
}

struct Prog { Program p; std::vector<Objective> obj; };

inline std::string text(Prog const &p) {
    std::string r = p.p.text();
    for (auto const &o : p.obj) { r += o.text(p.p.vars); }
    return r;
}

// the pool without and with objectives
inline std::vector<Prog> programs() {
    std::vector<Prog> r;
    auto ps = pool();
    for (auto &p : ps) { r.push_back({p, {}}); }
    auto obj = [&](size_t i, std::vector<Objective> o) { r.push_back({ps[i], std::move(o)}); };
    auto min = [](Poly p) { return Objective{false, std::move(p)}; };
    auto max = [](Poly p) { return Objective{true, std::move(p)}; };
    obj(0, {min({{1, {0}}, {1, {1}}, {2, {2}}})});
    obj(1, {max({{1, {0}}, {-1, {1}}, {1, {2}}})});
    obj(2, {max({{1, {0}}, {1, {1}}})});
    obj(3, {min({{2, {0}}, {-1, {1}}, {1, {2}}, {3, {}}})});
    obj(5, {max({{1, {0}}, {2, {1}}}), min({{1, {2}}})});
    obj(6, {min({{1, {0}}, {1, {1}}, {-1, {2}}})});
    obj(8, {min({{1, {0}}, {2, {1}}, {3, {2}}})});
    obj(9, {max({{1, {0}}, {1, {1}}, {1, {2}}})});
    obj(11, {min({{1, {0}}, {1, {1}}, {1, {2}}})});
    obj(12, {max({{1, {0}}, {-1, {1}}, {2, {2}}})});
    obj(13, {min({{1, {0}}, {1, {1}}})});
    obj(14, {min({{-1, {0}}, {1, {1}}, {1, {3}}})});
    obj(15, {min({{1, {0}}})});
    obj(17, {max({{3, {0}}, {2, {1}}})});
    return r;
}

} // namespace V
