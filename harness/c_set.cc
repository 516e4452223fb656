// C03 nonlinear sums, C04 distinct, C05 disjoint, C06 dom
#include "gen.hh"
using namespace V;

static std::vector<std::string> const N{"x", "y", "z", "w", "v"};
using Dom = std::vector<std::pair<I, I>>;

static Atom nsum(std::vector<Mono> const &ms, std::string const &rel, I rhs) { return sum_atom(N, ms, rel, rhs, "nsum"); }

static void c03(Ctx &ctx) {
    bool T = ctx.thorough();
    auto cs = confs();
    std::vector<std::pair<Dom, Dom>> doms{{{{-2, 2}}, {{-1, 2}}}, {{{0, 3}}, {{-3, -1}, {2, 2}}}, {{{-3, -2}, {1, 2}}, {{-1, 0}, {3, 3}}}};
    // pure products and squares, no linear part
    for (auto const &[dx, dy] : doms) {
        product({{-2, -1, 1, 2}, {0, 1}, T ? range(-7, 7) : std::vector<I>{-4, -1, 0, 1, 2, 4}, range(0, 5), range(0, NPOS - 1)}, [&](auto const &v) {
            test_program(ctx, cs, [&] {
                Program p;
                domains(p, {"x", "y"}, {dx, dy});
                std::vector<int> m = v[1] ? std::vector<int>{0, 0} : std::vector<int>{0, 1};
                place(p, nsum({{v[0], m}}, RELS[v[3]], v[2]), static_cast<int>(v[4]));
                return p;
            });
        });
    }
    // product plus a linear term over a fresh or shared variable
    for (size_t d = 0; d < doms.size(); ++d) {
        product({T ? std::vector<I>{-3, -2, -1, 1, 2, 3} : std::vector<I>{-2, 1, 3}, T ? std::vector<I>{-3, -2, -1, 1, 2, 3} : std::vector<I>{-1, 2},
                 T ? range(-6, 6) : std::vector<I>{-3, 0, 2}, range(0, 5), range(0, 3), T ? range(0, NPOS - 1) : std::vector<I>{0, 1, 3, 5, 10}}, [&](auto const &v) {
            test_program(ctx, cs, [&] {
                Program p;
                domains(p, {"x", "y", "z"}, {doms[d].first, doms[d].second, {{-1, 1}}});
                std::vector<Mono> ms;
                switch (v[4]) {
                    case 0: ms = {{v[0], {0, 1}}, {v[1], {2}}}; break;
                    case 1: ms = {{v[1], {0}}, {v[0], {0, 1}}}; break;
                    case 2: ms = {{v[0], {1, 1}}, {v[1], {1}}}; break;
                    case 3: ms = {{v[1], {0}}, {v[0], {2, 2}}}; break;
                }
                place(p, nsum(ms, RELS[v[3]], v[2]), static_cast<int>(v[5]));
                return p;
            });
        });
    }
    // equal products in several elements are added up, whatever the order of their factors
    for (auto const &[dx, dy] : doms) {
        product({{-2, 1, 3}, {-1, 0, 2}, {-1, 1}, T ? range(-4, 4) : std::vector<I>{-2, 0, 3}, range(0, 5), T ? range(0, NPOS - 1) : std::vector<I>{0, 1, 3, 6}, range(0, 3)}, [&](auto const &v) {
            if (!T && (v[0] + v[1] + v[3] + v[4] + v[5] + v[6] + 40) % 3 != 0) { return; }
            test_program(ctx, cs, [&] {
                Program p;
                domains(p, {"x", "y", "z"}, {dx, dy, {{-1, 1}}});
                std::vector<Mono> ms;
                switch (v[6]) {
                    case 0: ms = {{v[0], {0, 1}}, {v[1], {1, 0}}}; break;
                    case 1: ms = {{v[0], {1, 0}}, {v[2], {2}}, {v[1], {0, 1}}}; break;
                    case 2: ms = {{v[2], {0}}, {v[0], {0, 0}}, {v[1], {0}}, {-1, {0, 0}}}; break;
                    case 3: ms = {{v[0], {2, 1}}, {v[1], {1, 2}}, {-v[0], {1, 2}}}; break; // may cancel out
                }
                place(p, nsum(ms, RELS[v[4]], v[3]), static_cast<int>(v[5]));
                return p;
            });
        });
    }
    // interaction of several products with each other and with linear sums
    std::vector<Atom> pool;
    for (char const *rel : {"<=", ">=", "=", "!="}) {
        for (I r : T ? std::vector<I>{-2, 0, 1, 2} : std::vector<I>{-1, 2}) {
            pool.push_back(nsum({{1, {0, 1}}}, rel, r));
            pool.push_back(nsum({{-1, {1, 2}}, {1, {0}}}, rel, r));
            pool.push_back(nsum({{2, {0, 0}}, {-1, {2}}}, rel, r));
            pool.push_back(nsum({{1, {0, 2}}, {-2, {1}}}, rel, r));
            pool.push_back(sum_atom(N, {{1, {0}}, {-1, {1}}, {1, {2}}}, rel, r));
        }
    }
    for (size_t i = 0; i < pool.size(); ++i) {
        for (size_t j = 0; j < pool.size(); ++j) {
            for (int role = 0; role < 3; ++role) {
                if (!T && (i + j + role) % 3 != 0) { continue; }
                test_program(ctx, cs, [&] {
                    Program p;
                    domains(p, {"x", "y", "z"}, {{{-1, 2}}, {{-2, -1}, {1, 2}}, {{-1, 1}}});
                    auto const &a = pool[i];
                    auto const &b = pool[j];
                    switch (role) {
                        case 0: p.rules = {thead(a), thead(b)}; break;
                        case 1: p.choice = {0}; p.rules = {thead(a, {blit(0)}), thead(b, {blit(0, true)})}; break;
                        case 2: p.rules = {bhead(1, {tlit(a)}), bhead(2, {tlit(b, true), blit(1)}), constraint({blit(1, true), blit(2, true)})}; break;
                    }
                    return p;
                });
            }
        }
    }
    // wider domains, few solutions
    auto ws = confs(-60, 60);
    product({{-3, 1, 2}, {-5, 1, 4}, {-12, 0, 1, 7, 24}, {0, 1, 4, 5}, {0, 3}, {0, 1, 2}}, [&](auto const &v) {
        test_program(ctx, ws, [&] {
            Program p;
            Dom d = v[5] == 0 ? Dom{{-9, 9}} : v[5] == 1 ? Dom{{0, 4}, {7, 13}} : Dom{{-12, -6}, {-1, 1}, {5, 6}};
            domains(p, {"x", "y"}, {d, {{-7, 8}}});
            place(p, nsum({{v[0], {0, 1}}, {v[1], {1}}}, RELS[v[3]], v[2]), static_cast<int>(v[4]));
            p.rules.push_back(thead(sum_atom(N, {{2, {0}}, {-3, {1}}}, "=", 1)));
            return p;
        });
    });
}

static void c04(Ctx &ctx) {
    bool T = ctx.thorough();
    auto cs0 = confs(-6, 6);
    // every configuration with and without translation of distinct
    std::vector<Conf> cs;
    for (auto const &c : cs0) { cs.push_back(c); }
    for (char const *l : {"1", "3", "6"}) { cs.push_back(cs0[7].with("translate-distinct", l)); }
    // element kinds: 0..2 plain variables, then x+1, 2x, -y, z-2, constants 0/1, x+y, 2x-z, x again
    std::vector<Poly> es{{{1, {0}}}, {{1, {1}}}, {{1, {2}}}, {{1, {0}}, {1, {}}}, {{2, {0}}}, {{-1, {1}}}, {{1, {2}}, {-2, {}}}, {{0, {}}}, {{1, {}}}, {{1, {0}}, {1, {1}}}, {{2, {0}}, {-1, {2}}}};
    std::vector<std::vector<Dom>> doms{{{{0, 2}}, {{0, 2}}, {{0, 2}}}, {{{-1, 0}, {2, 2}}, {{0, 3}}, {{-2, -1}, {1, 1}}}};
    int ne = static_cast<int>(es.size());
    auto place_head = [](Program &p, Atom const &a, int pos) {
        if (pos == 0) { p.rules.push_back(thead(a)); }
        if (pos == 1) { p.choice = {0}; p.rules.push_back(thead(a, {blit(0)})); }
        if (pos == 2) { p.choice = {0}; p.rules.push_back(thead(a, {blit(0, true)})); p.rules.push_back(constraint({blit(0), tlit(sum_atom(N, {{1, {0}}, {1, {1}}}, "<", 1))})); }
    };
    for (auto const &dom : doms) {
        for (int n = 1; n <= (T ? 5 : 4); ++n) {
            std::vector<int> idx(n, 0);
            std::function<void(int, int)> rec = [&](int k, int lo) {
                if (k == n) {
                    for (int pos = 0; pos < 3; ++pos) {
                        test_program(ctx, cs, [&] {
                            Program p;
                            domains(p, {"x", "y", "z"}, dom);
                            std::vector<Poly> e;
                            for (int i : idx) { e.push_back(es[i]); }
                            place_head(p, distinct_atom(N, e), pos);
                            return p;
                        });
                    }
                    return;
                }
                for (int i = lo; i < ne; ++i) { idx[k] = i; rec(k + 1, i); }
            };
            rec(0, 0);
        }
    }
    // both orders matter for the propagation queue: all permutations with offsets
    product({range(-2, 2), range(-2, 2), range(-1, 1), range(0, 2)}, [&](auto const &v) {
        test_program(ctx, cs, [&] {
            Program p;
            domains(p, {"x", "y", "z", "w"}, {{{0, 3}}, {{0, 3}}, {{0, 2}}, {{1, 2}}});
            place_head(p, distinct_atom(N, {{{1, {0}}}, {{1, {1}}, {v[0], {}}}, {{1, {2}}, {v[1], {}}}, {{1, {3}}, {v[2], {}}}}), static_cast<int>(v[3]));
            return p;
        });
    });
    // two distinct constraints and sums around them
    product({range(0, 3), range(0, 5), range(-1, 4)}, [&](auto const &v) {
        test_program(ctx, cs, [&] {
            Program p;
            domains(p, {"x", "y", "z", "w"}, {{{0, 3}}, {{0, 3}}, {{0, 3}}, {{0, 3}}});
            auto a = distinct_atom(N, {{{1, {0}}}, {{1, {1}}}, {{1, {2}}}});
            auto b = distinct_atom(N, {{{1, {1}}}, {{1, {2}}}, {{1, {3}}}});
            auto s = sum_atom(N, {{1, {0}}, {v[0] - 2, {1}}, {1, {3}}}, RELS[v[1]], v[2]);
            switch (v[0]) {
                case 0: p.rules = {thead(a), thead(b), thead(s)}; break;
                case 1: p.choice = {0}; p.rules = {thead(a, {blit(0)}), thead(b, {blit(0, true)}), thead(s)}; break;
                case 2: p.rules = {thead(a, {tlit(s)}), thead(b)}; break;
                case 3: p.choice = {0}; p.rules = {thead(a, {blit(0), tlit(s)}), thead(b, {tlit(s, true)}), thead(s, {blit(0, true)})}; break;
            }
            return p;
        });
    });
}

static void c05(Ctx &ctx) {
    bool T = ctx.thorough();
    auto cs = confs(-6, 8);
    auto place_head = [](Program &p, Atom const &a, int pos) {
        if (pos == 0) { p.rules.push_back(thead(a)); }
        if (pos == 1) { p.choice = {0}; p.rules.push_back(thead(a, {blit(0)})); }
        if (pos == 2) { p.choice = {0}; p.rules.push_back(thead(a, {blit(0, true)})); p.rules.push_back(constraint({blit(0), tlit(sum_atom(N, {{1, {0}}, {1, {1}}}, "<", 2))})); }
    };
    std::vector<std::vector<Dom>> doms{{{{0, 4}}, {{0, 4}}, {{0, 4}}, {{0, 3}}}, {{{-2, -1}, {1, 4}}, {{0, 1}, {4, 4}}, {{-3, 2}}, {{-1, 1}}}};
    std::vector<I> ls = T ? range(-1, 6) : range(-1, 4);
    for (auto const &dom : doms) {
        product({ls, range(0, 2)}, [&](auto const &v) {
            test_program(ctx, cs, [&] {
                Program p;
                domains(p, {"x", "y"}, {dom[0], dom[1]});
                place_head(p, disjoint_atom(N, {{0, v[0]}, {1, v[0] + 1}, {0, 0}}), static_cast<int>(v[1]));
                return p;
            });
        });
        product({range(-2, T ? 8 : 6), range(-2, T ? 8 : 6), range(0, 2)}, [&](auto const &v) {
            test_program(ctx, cs, [&] {
                Program p;
                domains(p, {"x", "y"}, {dom[0], dom[1]});
                place_head(p, disjoint_atom(N, {{0, v[0]}, {1, v[1]}}), static_cast<int>(v[2]));
                return p;
            });
        });
        product({ls, ls, ls, range(0, 2)}, [&](auto const &v) {
            test_program(ctx, cs, [&] {
                Program p;
                domains(p, {"x", "y", "z"}, {dom[0], dom[1], dom[2]});
                place_head(p, disjoint_atom(N, {{0, v[0]}, {1, v[1]}, {2, v[2]}}), static_cast<int>(v[3]));
                return p;
            });
        });
        product({range(0, 3), range(T ? 0 : 1, T ? 3 : 2), range(1, 3), range(T ? 0 : 1, 3), range(0, 1)}, [&](auto const &v) {
            test_program(ctx, cs, [&] {
                Program p;
                domains(p, {"x", "y", "z", "w"}, dom);
                place_head(p, disjoint_atom(N, {{0, v[0]}, {1, v[1]}, {2, v[2]}, {3, v[3]}}), static_cast<int>(v[4]));
                return p;
            });
        });
    }
    // every arrangement of three time windows
    product({range(0, 2), range(1, 3), range(0, 2), range(1, 3), {0, 2}, range(1, 3), range(1, 3), range(1, 3), T ? range(1, 3) : range(1, 2)}, [&](auto const &v) {
        test_program(ctx, cs, [&] {
            Program p;
            domains(p, {"x", "y", "z"}, {{{v[0], v[0] + v[1]}}, {{v[2], v[2] + v[3]}}, {{v[4], v[4] + v[5]}}});
            place_head(p, disjoint_atom(N, {{0, v[6]}, {1, v[7]}, {2, v[8]}}), T ? 0 : (v[6] + v[8]) % 2);
            return p;
        });
    });
    // five intervals
    product({range(1, 2), range(1, 3), range(1, 2), range(T ? 0 : 1, T ? 3 : 2), range(0, 3)}, [&](auto const &v) {
        test_program(ctx, cs, [&] {
            Program p;
            std::vector<Dom> d{{{0, 3}}, {{0, 4}}, {{1, 4}}, {{2, 5}}, {{0, 1}, {5, 6}}};
            std::rotate(d.begin(), d.begin() + v[4], d.end());
            domains(p, N, d);
            p.rules = {thead(disjoint_atom(N, {{0, v[0]}, {1, v[1]}, {2, v[2]}, {3, v[3]}, {4, 1}}))};
            return p;
        });
    });
    // a variable that occurs twice, two constraints, sums around them
    product({range(0, 3), range(0, 3), range(0, 4)}, [&](auto const &v) {
        test_program(ctx, cs, [&] {
            Program p;
            domains(p, {"x", "y", "z"}, {{{0, 4}}, {{0, 3}}, {{0, 3}}});
            auto s = sum_atom(N, {{1, {0}}, {1, {1}}, {-1, {2}}}, "=", v[1]);
            switch (v[2]) {
                case 0: p.rules = {thead(disjoint_atom(N, {{0, v[0]}, {1, 2}, {0, v[1]}}))}; break;
                case 1: p.rules = {thead(disjoint_atom(N, {{0, v[0]}, {1, v[1]}})), thead(disjoint_atom(N, {{1, 2}, {2, v[0]}}))}; break;
                case 2: p.choice = {0}; p.rules = {thead(disjoint_atom(N, {{0, v[0]}, {1, v[1]}, {2, 1}}), {blit(0)}), thead(disjoint_atom(N, {{0, 1}, {1, 1}, {2, 1}}), {blit(0, true)})}; break;
                case 3: p.rules = {thead(disjoint_atom(N, {{0, v[0]}, {1, v[1]}, {2, 2}}), {tlit(s)})}; break;
                case 4: p.choice = {0}; p.rules = {thead(disjoint_atom(N, {{0, v[0]}, {1, v[1]}, {2, 2}}), {tlit(s, true)}), thead(s, {blit(0)}), thead(disjoint_atom(N, {{0, 2}, {2, 1}}), {blit(0)})}; break;
            }
            return p;
        });
    });
}

static void c06(Ctx &ctx) {
    bool T = ctx.thorough();
    auto cs = confs(-4, 5);
    // all sets of at most three intervals over a small universe
    std::vector<std::pair<I, I>> iv;
    for (I l = -2; l <= (T ? 4 : 3); ++l) {
        for (I r = l - 1; r <= (T ? 4 : 3); ++r) { if (r >= l || l == 0) { iv.emplace_back(l, r); } }
    }
    std::vector<Dom> ds{{}};
    for (auto a : iv) {
        ds.push_back({a});
        for (auto b : iv) {
            ds.push_back({a, b});
            if (T || (a.second <= 1 && b.second >= 1)) { ds.push_back({b, a, {3, 3}}); }
        }
    }
    auto head = [](Program &p, Atom const &a, int pos) {
        switch (pos) {
            case 0: p.rules = {thead(a)}; break;
            case 1: p.choice = {0}; p.rules = {thead(a, {blit(0)})}; break;
            case 2: p.choice = {0}; p.rules = {thead(a, {blit(0, true)}), constraint({blit(0, true), tlit(sum_atom(N, {{1, {0}}}, ">", 1))})}; break;
            case 3: p.rules = {thead(a, {tlit(sum_atom(N, {{1, {0}}, {1, {1}}}, "<=", 2))})}; break;
        }
    };
    for (auto const &d : ds) {
        for (int pos = 0; pos < 4; ++pos) {
            test_program(ctx, cs, [&] {
                Program p;
                // undeclared variable: its domain is given by min-int and max-int
                p.vars = {"x"};
                p.values = {range(-4, 5)};
                if (pos == 3) { domains(p, {"x", "y"}, {{{-4, 5}}, {{0, 1}}}); }
                head(p, dom_atom(N, 0, d), pos);
                return p;
            });
        }
    }
    // two domain statements on the same variable, in all condition patterns
    for (size_t i = 0; i < ds.size(); i += T ? 1 : 5) {
        for (size_t j = 0; j < ds.size(); j += T ? 7 : 11) {
            for (int pos = 0; pos < 4; ++pos) {
                test_program(ctx, cs, [&] {
                    Program p;
                    p.vars = {"x"};
                    p.values = {range(-4, 5)};
                    auto a = dom_atom(N, 0, ds[i]), b = dom_atom(N, 0, ds[j]);
                    switch (pos) {
                        case 0: p.rules = {thead(a), thead(b)}; break;
                        case 1: p.choice = {0}; p.rules = {thead(a, {blit(0)}), thead(b, {blit(0, true)})}; break;
                        case 2: p.choice = {0, 1}; p.rules = {thead(a, {blit(0)}), thead(b, {blit(1)}), constraint({blit(0, true), blit(1, true)})}; break;
                        case 3: p.choice = {0}; p.rules = {thead(a), thead(b, {blit(0)}), bhead(1, {tlit(sum_atom(N, {{1, {0}}}, ">=", 1))})}; break;
                    }
                    return p;
                });
            }
        }
    }
    // global bounds: every min-int/max-int pair, also with domains sticking out on either side
    product({range(-3, 1), range(-1, 3), range(0, 4)}, [&](auto const &v) {
        if (v[0] > v[1]) { return; }
        std::vector<Conf> bs;
        for (auto const &c : confs(v[0], v[1])) { bs.push_back(c); }
        test_program(ctx, bs, [&] {
            Program p;
            p.vars = {"x", "y"};
            p.values = {range(v[0], v[1]), range(v[0], v[1])};
            switch (v[2]) {
                case 0: p.rules = {thead(sum_atom(N, {{1, {0}}, {1, {1}}}, "<=", 1))}; break;
                case 1: p.rules = {thead(dom_atom(N, 0, {{-5, 5}})), thead(sum_atom(N, {{1, {0}}, {-1, {1}}}, "!=", 1))}; break;
                case 2: p.rules = {thead(dom_atom(N, 0, {{-5, -1}, {2, 9}})), thead(sum_atom(N, {{1, {0}}, {-1, {1}}}, ">=", 0))}; break;
                case 3: p.choice = {0}; p.rules = {thead(dom_atom(N, 0, {{-9, -2}, {1, 9}}), {blit(0)}), bhead(1, {tlit(sum_atom(N, {{1, {0}}}, ">=", 1))}), thead(sum_atom(N, {{1, {1}}}, "=", v[1]))}; break;
                case 4: p.rules = {thead(dom_atom(N, 0, {{4, 9}})), bhead(1, {tlit(sum_atom(N, {{1, {1}}}, "<", 0))})}; break;
            }
            return p;
        });
    });
}

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    auto go = [&](char const *what, void (*f)(Ctx &)) {
        return run_check(program_check(id, cat("every program with ", what, "; each solved to exhaustion under all listed configurations and compared with brute force; distinct_nontrivial counts distinct reference solution sets"), f), argc, argv);
    };
    if (id == "C03") { return go("&nsum constraints (products, squares, linear part, shared variables) over the listed coefficients, bounds, relations, positions and domains", c03); }
    if (id == "C04") { return go("&distinct constraints over all multisets of the listed element kinds, domains and head positions", c04); }
    if (id == "C05") { return go("&disjoint constraints over all listed lengths, domains and head positions", c05); }
    if (id == "C06") { return go("&dom statements over all sets of at most three intervals of a small universe, condition patterns and global bounds", c06); }
    return 2;
}
