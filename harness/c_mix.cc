// C28 constraints of all kinds in one program
#include "pool.hh"
using namespace V;

static std::vector<std::string> const N{"x", "y", "z", "w"};
using Dom = std::vector<std::pair<I, I>>;

static Atom S(std::vector<I> const &co, std::string const &rel, I rhs) {
    std::vector<Mono> ms;
    for (size_t i = 0; i < co.size(); ++i) { if (co[i] != 0) { ms.push_back({co[i], {static_cast<int>(i)}}); } }
    return sum_atom(N, ms, rel, rhs);
}

static bool reifiable(Atom const &a) { return a.kind == Atom::SUM; }

static std::vector<Atom> atoms(bool T) {
    std::vector<Atom> r;
    auto NS = [](std::vector<Mono> const &ms, std::string const &rel, I rhs) { return sum_atom(N, ms, rel, rhs, "nsum"); };
    Poly x{{1, {0}}}, y{{1, {1}}}, z{{1, {2}}};
    // sums that fix their variables by bounds, that are implied, that are contradictory and that are undecided
    for (char const *rel : {"<=", ">=", "=", "!="}) {
        for (I k : T ? range(0, 4) : std::vector<I>{0, 1, 3}) { r.push_back(S({1, 1}, rel, k)); }
        for (I k : T ? range(-2, 3) : std::vector<I>{-1, 1}) { r.push_back(S({-3, 1}, rel, k)); }
        for (I k : T ? range(-1, 2) : std::vector<I>{0, 2}) { r.push_back(S({1, -1, 1}, rel, k)); }
        for (I k : T ? range(-1, 2) : std::vector<I>{1}) { r.push_back(S({0, 2, 1}, rel, k)); }
        r.push_back(S({1}, rel, 1));
        r.push_back(S({0, -2}, rel, -1));
        r.push_back(NS({{1, {0, 1}}}, rel, 2));
        r.push_back(NS({{1, {0, 2}}, {-1, {1}}}, rel, 0));
        if (T) { r.push_back(NS({{2, {1, 1}}, {1, {0}}}, rel, 3)); }
    }
    for (I k : T ? range(-2, 2) : std::vector<I>{-1, 0}) {
        r.push_back(diff_atom(N, 0, 1, k));
        r.push_back(diff_atom(N, 1, 2, k));
    }
    r.push_back(distinct_atom(N, {x, y}));
    r.push_back(distinct_atom(N, {x, y, z}));
    r.push_back(distinct_atom(N, {y, {{3, {0}}}, {{3, {0}}, {2, {}}}}));
    r.push_back(distinct_atom(N, {{{1, {0}}, {1, {1}}}, z, {{1, {}}}}));
    r.push_back(distinct_atom(N, {x, {{-1, {1}}}, {{2, {}}}}));
    r.push_back(disjoint_atom(N, {{0, 1}, {1, 2}}));
    r.push_back(disjoint_atom(N, {{0, 2}, {1, 1}, {2, 1}}));
    r.push_back(disjoint_atom(N, {{2, 3}, {0, 2}}));
    r.push_back(dom_atom(N, 0, {{0, 1}}));
    r.push_back(dom_atom(N, 1, {{0, 0}, {2, 3}}));
    r.push_back(dom_atom(N, 2, {{-1, -1}, {1, 1}}));
    return r;
}

static std::vector<Conf> mixconfs() {
    auto cs = confs(-4, 9);
    return {cs[0], cs[4], cs[5], cs[7], cs[6].with("translate-pb", "1.5"), cs[2].with("translate-distinct", "100").with("translate-pb", "1")};
}

static bool role(Program &p, Atom const &a, Atom const &b, int k) {
    switch (k) {
        case 0: p.rules = {thead(a), thead(b)}; return true;
        case 1: p.choice = {0}; p.rules = {thead(a, {blit(0)}), thead(b)}; return true;
        case 2: p.choice = {0}; p.rules = {thead(a, {blit(0)}), thead(b, {blit(0, true)})}; return true;
        case 3: p.choice = {0, 1}; p.rules = {thead(a, {blit(0)}), thead(b, {blit(1)}), constraint({blit(0, true), blit(1, true)})}; return true;
        case 4: if (!reifiable(a)) { return false; } p.rules = {bhead(1, {tlit(a)}), thead(b)}; return true;
        case 5: if (!reifiable(a)) { return false; } p.choice = {0}; p.rules = {bhead(1, {tlit(a)}), thead(b, {blit(0), blit(1)})}; return true;
        case 6: if (!reifiable(a)) { return false; } p.choice = {0}; p.rules = {thead(b, {tlit(a, true)}), bhead(1, {blit(0), tlit(a)})}; return true;
    }
    return false;
}

static void c28(Ctx &ctx) {
    bool T = ctx.thorough();
    auto cs = mixconfs();
    auto as = atoms(T);
    std::vector<std::vector<Dom>> doms{{{{0, 2}}, {{0, 3}}, {{-1, 1}}}, {{{1, 2}}, {{0, 0}, {2, 3}}, {{-2, -1}, {1, 2}}}};
    for (size_t d = 0; d < doms.size(); ++d) {
        for (size_t i = 0; i < as.size(); ++i) {
            for (size_t j = 0; j < as.size(); ++j) {
                for (int k = 0; k < 7; ++k) {
                    if ((k == 0 || k == 2 || k == 3) && j < i) { continue; }
                    if (!T && k >= 2 && (i + j + static_cast<size_t>(k)) % 3 != 0) { continue; }
                    Program q;
                    if (!role(q, as[i], as[j], k)) { continue; }
                    test_program(ctx, cs, [&] {
                        Program p;
                        domains(p, {"x", "y", "z"}, doms[d]);
                        role(p, as[i], as[j], k);
                        return p;
                    });
                }
            }
        }
    }
    // three constraints: two facts that interact and a conditional one
    std::vector<size_t> sel;
    for (size_t i = 0; i < as.size(); i += T ? 3 : 7) { sel.push_back(i); }
    for (size_t i = as.size() - (T ? 11 : 6); i < as.size(); ++i) { sel.push_back(i); }
    for (size_t i : sel) {
        for (size_t j : sel) {
            for (size_t l : sel) {
                if (j >= l) { continue; }
                test_program(ctx, cs, [&] {
                    Program p;
                    domains(p, {"x", "y", "z"}, doms[(i + j + l) % 2]);
                    p.choice = {0};
                    p.rules = {thead(as[i], {blit(0)}), thead(as[j]), thead(as[l])};
                    return p;
                });
            }
        }
    }
}

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    if (id == "C28") { return run_check(program_check(id, "every program combining two or three constraints out of a pool with all kinds, in all listed roles and domains; each solved to exhaustion under 6 configurations and compared with brute force; distinct_nontrivial counts distinct reference solution sets", c28), argc, argv); }
    return 2;
}
