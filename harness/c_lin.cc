#include "gen.hh"
using namespace V;

static std::vector<std::string> const N{"x", "y", "z", "w"};

static void c01(Ctx &ctx) {
    auto cs = confs();
    bool T = ctx.thorough();
    // one variable, all positions; covers the order literal shortcut
    for (auto const &dom : std::vector<std::vector<std::pair<I, I>>>{{{0, 3}}, {{-2, 2}}, {{-4, -3}, {0, 0}, {3, 4}}, {}}) {
        product({{-3, -2, -1, 1, 2, 3}, T ? range(-9, 9) : range(-6, 6), range(0, 5), range(0, NPOS - 1)}, [&](auto const &v) {
            test_program(ctx, cs, [&] {
                Program p;
                if (dom.empty()) { p.vars = {"x"}; p.values = {range(-4, 4)}; } else { domains(p, {"x"}, {dom}); }
                place(p, sum_atom(N, {{v[0], {0}}}, RELS[v[2]], v[1]), static_cast<int>(v[3]));
                return p;
            });
        });
    }
    // two variables
    std::vector<I> co2 = T ? std::vector<I>{-4, -3, -2, -1, 1, 2, 3, 5} : std::vector<I>{-3, -1, 1, 2};
    product({co2, co2, T ? range(-8, 8) : std::vector<I>{-4, -1, 0, 1, 3, 6}, range(0, 5), range(0, NPOS - 1)}, [&](auto const &v) {
        test_program(ctx, cs, [&] {
            Program p;
            domains(p, {"x", "y"}, {{{0, 3}}, {{-1, 0}, {2, 3}}});
            place(p, sum_atom(N, {{v[0], {0}}, {v[1], {1}}}, RELS[v[2 + 1]], v[2]), static_cast<int>(v[4]));
            return p;
        });
    });
    // three variables
    std::vector<I> co3 = T ? std::vector<I>{-3, -2, -1, 1, 2, 3} : std::vector<I>{-2, 1, 3};
    product({co3, co3, co3, T ? range(-4, 4) : std::vector<I>{-2, 0, 1, 4}, range(0, 5), T ? range(0, NPOS - 1) : std::vector<I>{0, 1, 3, 5, 10}}, [&](auto const &v) {
        test_program(ctx, cs, [&] {
            Program p;
            domains(p, {"x", "y", "z"}, {{{0, 2}}, {{-1, 1}}, {{0, 0}, {2, 2}}});
            place(p, sum_atom(N, {{v[0], {0}}, {v[1], {1}}, {v[2], {2}}}, RELS[v[4]], v[3]), static_cast<int>(v[5]));
            return p;
        });
    });
    // pairs of constraints sharing variables, in combined roles
    std::vector<Atom> pool;
    for (auto const &co : std::vector<std::vector<I>>{{1, 1, 1}, {1, -1, 0}, {0, 1, -1}, {2, -3, 1}, {-1, 0, 2}, {3, 2, -2}, {-1, -1, -1}, {0, 2, 3}}) {
        std::vector<Mono> ms;
        for (int i = 0; i < 3; ++i) { if (co[i] != 0) { ms.push_back({co[i], {i}}); } }
        for (char const *rel : {"<=", ">=", "=", "!="}) {
            for (I rhs : T ? std::vector<I>{-2, -1, 0, 1, 2} : std::vector<I>{0, 2}) { pool.push_back(sum_atom(N, ms, rel, rhs)); }
        }
    }
    for (auto const &ms : std::vector<std::vector<Mono>>{{{1, {0}}}, {{2, {1}}}, {{-1, {2}}}}) {
        for (char const *rel : {"<=", ">", "=", "!="}) { pool.push_back(sum_atom(N, ms, rel, 1)); }
    }
    for (size_t i = 0; i < pool.size(); ++i) {
        for (size_t j = T ? 0 : i % 3; j < pool.size(); j += T ? 1 : 3) {
            for (int role = 0; role < 5; ++role) {
                test_program(ctx, cs, [&] {
                    Program p;
                    domains(p, {"x", "y", "z"}, {{{0, 2}}, {{-1, 2}}, {{0, 2}}});
                    auto const &a = pool[i];
                    auto const &b = pool[j];
                    switch (role) {
                        case 0: p.rules = {thead(a), thead(b)}; break;
                        case 1: p.choice = {0}; p.rules = {thead(a, {blit(0)}), thead(b, {blit(0, true)})}; break;
                        case 2: p.rules = {bhead(1, {tlit(a)}), thead(b, {blit(1)})}; break;
                        case 3: p.rules = {bhead(1, {tlit(a)}), bhead(2, {tlit(b, true), blit(1)}), constraint({blit(1, true), blit(2, true)})}; break;
                        case 4: p.choice = {0}; p.rules = {thead(a, {tlit(b)}), constraint({blit(0), tlit(b), tlit(a)}), bhead(1, {tlit(a, true)})}; break;
                    }
                    return p;
                });
            }
        }
    }
    auto ws = confs(-40, 40);
    // wide, sparse and reversed domains with few solutions
    for (auto const &dom : std::vector<std::vector<std::pair<I, I>>>{{{0, 30}}, {{-15, 15}}, {{0, 3}, {9, 9}, {12, 20}, {25, 30}}, {{-30, -20}, {-3, 5}}}) {
        product({{-7, -1, 2, 5}, {-11, -3, 1, 4}, {0, 1, 2, 3, 4, 5}, {-50, -7, 0, 13, 40}, {0, 3, 10}}, [&](auto const &v) {
            test_program(ctx, ws, [&] {
                Program p;
                domains(p, {"x", "y"}, {dom, {{0, 12}}});
                place(p, sum_atom(N, {{v[0], {0}}, {v[1], {1}}}, RELS[v[2]], v[3]), static_cast<int>(v[4]));
                // keep the number of solutions small
                p.rules.push_back(thead(sum_atom(N, {{3, {0}}, {-2, {1}}}, "=", 3)));
                return p;
            });
        });
    }
    // chains: long propagation through several constraints and deep search
    product({range(-1, 2), range(-1, 2), range(2, 6), range(0, 3)}, [&](auto const &v) {
        test_program(ctx, cs, [&] {
            Program p;
            domains(p, {"x", "y", "z", "w"}, {{{0, 4}}, {{0, 4}}, {{0, 4}}, {{0, 4}}});
            p.rules = {thead(sum_atom(N, {{1, {0}}, {-1, {1}}}, "<=", v[0])), thead(sum_atom(N, {{1, {1}}, {-1, {2}}}, "<", v[1])),
                       thead(sum_atom(N, {{2, {2}}, {-3, {3}}, {1, {0}}}, ">=", v[1])),
                       thead(sum_atom(N, {{1, {0}}, {1, {1}}, {1, {2}}, {1, {3}}}, RELS[v[3] + 2], v[2])),
                       bhead(1, {tlit(sum_atom(N, {{1, {0}}, {1, {3}}}, "=", 2))})};
            return p;
        });
    });
}

static void c02(Ctx &ctx) {
    auto cs = confs();
    bool T = ctx.thorough();
    // a single difference constraint in every position
    for (int d = 0; d < 3; ++d) {
        product({T ? range(-8, 8) : range(-6, 6), range(0, NPOS - 1), range(0, 3)}, [&](auto const &v) {
            test_program(ctx, cs, [&] {
                Program p;
                if (d == 0) { domains(p, {"x", "y"}, {{{0, 3}}, {{-1, 2}}}); }
                if (d == 1) { domains(p, {"x", "y"}, {{{-3, -1}, {1, 3}}, {{0, 0}, {2, 4}}}); }
                if (d == 2) { p.vars = {"x", "y"}; p.values = {range(-4, 4), range(-4, 4)}; }
                Atom a;
                if (v[2] == 0) { a = diff_atom(N, 0, 1, v[0]); }
                if (v[2] == 1) { a = diff_atom(N, 1, 0, v[0]); }
                if (v[2] == 2) { a = diff_atom(N, 0, 0, v[0]); }
                if (v[2] == 3) {
                    a = diff_atom(N, 0, 1, v[0]);
                    a.elems = {{{2, {}}, {-1, {1}}}};
                    a.text = cat("&diff{ 2-y } <= ", v[0]);
                }
                p.extra += d == 2 ? "&sum{x;y} <= 8. " : "";
                place(p, a, static_cast<int>(v[1]));
                return p;
            });
        });
    }
    // systems of difference constraints (cycles of every weight), conditional and reified
    std::vector<I> ws = T ? range(-3, 3) : range(-2, 2);
    product({ws, ws, ws, range(0, 5), range(0, 1)}, [&](auto const &v) {
        test_program(ctx, cs, [&] {
            Program p;
            if (v[4] == 0) { domains(p, {"x", "y", "z"}, {{{0, 3}}, {{0, 3}}, {{0, 3}}}); }
            else { domains(p, {"x", "y", "z"}, {{{-2, -2}, {0, 1}}, {{-1, 0}, {2, 2}}, {{-3, -1}, {1, 2}}}); }
            auto a = diff_atom(N, 0, 1, v[0]), b = diff_atom(N, 1, 2, v[1]), c = diff_atom(N, 2, 0, v[2]);
            switch (v[3]) {
                case 0: p.rules = {thead(a), thead(b), thead(c)}; break;
                case 1: p.choice = {0}; p.rules = {thead(a, {blit(0)}), thead(b, {blit(0, true)}), thead(c)}; break;
                case 2: p.rules = {bhead(1, {tlit(a)}), bhead(2, {tlit(b)}), constraint({blit(1), blit(2), tlit(c)})}; break;
                case 3: p.rules = {constraint({tlit(a), tlit(b), tlit(c)}), thead(a, {tlit(b)})}; break;
                case 4: p.choice = {0, 1}; p.rules = {thead(a, {blit(0)}), thead(b, {blit(1)}), thead(c, {blit(0), blit(1)}), constraint({tlit(c, true), blit(0, true)})}; break;
                case 5: p.rules = {constraint({tlit(a)}), constraint({tlit(b, true)}), bhead(3, {tlit(c)})}; break;
            }
            return p;
        });
    });
    // four variables: a cycle with a chord in both directions
    auto w4 = T ? range(-2, 2) : range(-1, 1);
    product({w4, w4, w4, w4, range(-1, 1), range(0, 3)}, [&](auto const &v) {
        test_program(ctx, cs, [&] {
            Program p;
            domains(p, {"x", "y", "z", "w"}, {{{0, 2}}, {{0, 2}}, {{-1, 0}, {2, 2}}, {{0, 2}}});
            auto a = diff_atom(N, 0, 1, v[0]), b = diff_atom(N, 1, 2, v[1]), c = diff_atom(N, 2, 3, v[2]), d = diff_atom(N, 3, 0, v[3]), e = diff_atom(N, 0, 2, v[4]), f = diff_atom(N, 2, 0, -v[4]);
            switch (v[5]) {
                case 0: p.rules = {thead(a), thead(b), thead(c), thead(d), bhead(0, {tlit(e)})}; break;
                case 1: p.choice = {0}; p.rules = {thead(a, {blit(0)}), thead(b), thead(c, {blit(0, true)}), thead(d, {tlit(e)})}; break;
                case 2: p.rules = {constraint({tlit(a), tlit(b)}), constraint({tlit(c, true), tlit(d)}), thead(e, {tlit(a, true)})}; break;
                case 3: p.rules = {constraint({tlit(a, true), tlit(b, true)}), thead(c, {tlit(e)}), thead(d, {tlit(f)}), bhead(1, {tlit(c), tlit(d)})}; break;
            }
            return p;
        });
    });
    // differences must agree with the corresponding sums
    product({range(-3, 3), range(0, 1)}, [&](auto const &v) {
        test_program(ctx, cs, [&] {
            Program p;
            domains(p, {"x", "y"}, {{{0, 3}}, {{0, 3}}});
            p.rules = {bhead(0, {tlit(diff_atom(N, 0, 1, v[0]))}), bhead(1, {tlit(sum_atom(N, {{1, {0}}, {-1, {1}}}, "<=", v[0]))}),
                       v[1] ? constraint({blit(0), blit(1, true)}) : constraint({blit(1), blit(0, true)})};
            return p;
        });
    });
}

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    if (id == "C01") { return run_check(program_check(id, "every program with one, two or three &sum constraints over the listed coefficients, bounds, relations, positions and domains; each solved under 9 configurations and compared with brute force; distinct_nontrivial counts distinct reference solution sets", c01), argc, argv); }
    if (id == "C02") { return run_check(program_check(id, "every program with &diff constraints over the listed bounds, positions, cycles and domains; each solved under 9 configurations and compared with brute force; distinct_nontrivial counts distinct reference solution sets", c02), argc, argv); }
    return 2;
}
