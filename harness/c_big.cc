// C15: numbers near the limits (library built with UBSan)
#include "gen.hh"
#include <clingcon/base.hh>
#include <clingcon/util.hh>
using namespace V;

namespace {

constexpr I M = (1LL << 30) - 1;
constexpr I IMAX = 2147483647LL, IMIN = -2147483648LL;

enum Expect { EXACT, MAY, MUST };

void expect(Ctx &ctx, Program const &p, std::vector<Conf> const &cs, Expect ex) {
    std::vector<Sol> want;
    bool have = false;
    auto text = p.text();
    for (auto const &c : cs) {
        auto r = run(text, p.vars, c);
        ctx.count(EXEC);
        if (r.error) {
            ctx.count(EXTRA1);
            if (ex == EXACT) { throw Violation(report(text, c, "error: " + r.msg)); }
            continue;
        }
        if (ex == MUST) { throw Violation(report(text, c, cat("accepted although a number is out of range; ", r.sols.size(), " solutions"))); }
        if (r.interrupted) { throw Violation(report(text, c, "solving was interrupted")); }
        if (!have) { want = brute(p); have = true; }
        ctx.count(SOLS, want.size());
        if (r.sols != want) { throw Violation(report(text, c, diff(want, r.sols, p.vars))); }
    }
    if (!want.empty()) { ctx.count(NONTRIV); }
    uint64_t h = hash_str(text);
    ctx.outcome(h);
    if (ctx.wants_sample()) { ctx.sample(cat(text, " => ", want.size(), " solutions")); } else { ctx.skip_sample(); }
}

std::vector<Conf> confs15(I lo = -M, I hi = M) {
    auto cs = confs(lo, hi);
    return {cs[0], cs[1], cs[4], cs[5]};
}

// ---------------------------------------------------------------- primitives

template <class T> struct Wide { using type = W; static W to(T x) { return static_cast<W>(x); } static T from(W x) { return static_cast<T>(x); } };
using Clingcon::nsum_t;
template <> struct Wide<nsum_t> {
    static W to(nsum_t x) { W r = 0; bool neg = x < 0; nsum_t base = 1000000000; std::vector<int> ds; for (int i = 0; i < 5; ++i) { nsum_t d = x % base; ds.push_back(static_cast<int>(static_cast<long long>(d))); x = x / base; } static_cast<void>(neg); for (int i = 4; i >= 0; --i) { r = r * 1000000000 + ds[static_cast<size_t>(i)]; } return r; }
    static nsum_t from(W x) { nsum_t r = 0; std::vector<int> ds; for (int i = 0; i < 5; ++i) { ds.push_back(static_cast<int>(x % 1000000000)); x /= 1000000000; } for (int i = 4; i >= 0; --i) { r = r * nsum_t{1000000000} + nsum_t{ds[static_cast<size_t>(i)]}; } return r; }
};

std::string wstr(W x) { if (x == 0) { return "0"; } bool n = x < 0; std::string r; while (x != 0) { int d = static_cast<int>(x % 10); r += static_cast<char>('0' + (d < 0 ? -d : d)); x /= 10; } if (n) { r += '-'; } return {r.rbegin(), r.rend()}; }

// result or nothing in case of an error
template <class T, class F> std::optional<W> tryit(F &&f) {
    try { return Wide<T>::to(f()); }
    catch (std::overflow_error &) { return std::nullopt; }
    catch (std::underflow_error &) { return std::nullopt; }
}

template <class T> void prim(Ctx &ctx, W x, W y, W lo, W hi) {
    using namespace Clingcon;
    T a = Wide<T>::from(x), b = Wide<T>::from(y);
    auto cmp = [&](char const *n, std::optional<W> got, std::optional<W> exact) {
        ctx.count(CHECKS);
        std::optional<W> want = exact && lo <= *exact && *exact <= hi ? exact : std::nullopt;
        if (got != want) { throw Violation(cat(n, " of ", wstr(x), " and ", wstr(y), " with ", sizeof(T) * 8, " bits gives ", got ? wstr(*got) : "an error", " instead of ", want ? wstr(*want) : "an error")); }
    };
    W r;
    auto opt = [&](bool over) { return over ? std::optional<W>{} : std::optional<W>{r}; };
    cmp("safe_add", tryit<T>([&] { return safe_add<T>(a, b); }), opt(__builtin_add_overflow(x, y, &r)));
    cmp("safe_sub", tryit<T>([&] { return safe_sub<T>(a, b); }), opt(__builtin_sub_overflow(x, y, &r)));
    cmp("safe_mul", tryit<T>([&] { return safe_mul<T>(a, b); }), opt(__builtin_mul_overflow(x, y, &r)));
    bool bad = y == 0 || (x == lo && y == -1);
    cmp("safe_div", tryit<T>([&] { return safe_div<T>(a, b); }), bad ? std::nullopt : std::optional<W>{x / y});
    cmp("safe_mod", tryit<T>([&] { return safe_mod<T>(a, b); }), bad ? std::nullopt : std::optional<W>{x % y});
    if (y == 0) { cmp("safe_inv", tryit<T>([&] { return safe_inv<T>(a); }), x == lo ? std::nullopt : std::optional<W>{-x}); }
    if (!bad) {
        W q = x / y;
        bool inexact = x % y != 0, neg = (x < 0) != (y < 0);
        if constexpr (sizeof(T) >= 4) {
            cmp("floordiv", Wide<T>::to(floordiv<T>(a, b)), q - (inexact && neg ? 1 : 0));
            cmp("ceildiv", Wide<T>::to(ceildiv<T>(a, b)), q + (inexact && !neg ? 1 : 0));
        }
    }
    if constexpr (sizeof(T) == 4 || sizeof(T) == 8) {
        if (x <= y) { cmp("midpoint", Wide<T>::to(midpoint<T>(a, b)), x + (y - x) / 2); }
    }
}

std::vector<W> edges(W lo, W hi) {
    std::set<W> r;
    for (W d = 0; d < 4; ++d) { r.insert(lo + d); r.insert(hi - d); r.insert(d); r.insert(-d); r.insert(lo / 2 + d); r.insert(hi / 2 - d); r.insert(lo / 2 - d); r.insert(hi / 2 + d); }
    W s = 1;
    while (s < hi / s) { s *= 2; }
    for (W d = -3; d <= 3; ++d) { r.insert(s + d); r.insert(-s + d); r.insert(s / 2 + d); }
    W q = 1;
    { W a = 1, b = hi; if (hi > (W{1} << 62)) { b = W{1} << 63; } while (a <= b) { W m = a + (b - a) / 2; if (m <= hi / m) { q = m; a = m + 1; } else { b = m - 1; } } }
    for (W d = -2; d <= 2; ++d) { r.insert(q + d); r.insert(-q + d); }
    r.insert(7); r.insert(-7); r.insert(10); r.insert(-10); r.insert(hi / 3); r.insert(lo / 3); r.insert(hi / 7 * 2);
    std::vector<W> v;
    for (W x : r) { if (lo <= x && x <= hi) { v.push_back(x); } }
    return v;
}

void primitives(Ctx &ctx) {
    for (int a = -128; a < 128; ++a) {
        ctx.test([&] { for (int b = -128; b < 128; ++b) { prim<int8_t>(ctx, a, b, -128, 127); prim<int32_t>(ctx, a, b, IMIN, IMAX); } ctx.outcome(cat("8 bit ", a)); });
    }
    auto go = [&](auto tag, W lo, W hi, char const *n) {
        using T = decltype(tag);
        auto es = edges(lo, hi);
        for (W a : es) { ctx.test([&] { for (W b : es) { prim<T>(ctx, a, b, lo, hi); } ctx.outcome(cat(n, wstr(a))); }); }
    };
    go(int16_t{}, -32768, 32767, "16 bit ");
    go(int32_t{}, IMIN, IMAX, "32 bit ");
    go(int64_t{}, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max(), "64 bit ");
    go(nsum_t{}, -((W{1} << 126) - 1) * 2 - 2, ((W{1} << 126) - 1) * 2 + 1, "128 bit ");
    ctx.test([&] {
        using namespace Clingcon;
        for (W v : edges(IMIN * W{4}, IMAX * W{4})) {
            auto x = static_cast<int64_t>(v);
            auto chk = [&](bool ok, std::optional<W> got, char const *n) {
                ctx.count(CHECKS);
                if (got != (ok ? std::optional<W>{v} : std::nullopt)) { throw Violation(cat(n, " of ", x, " is wrong")); }
            };
            chk(v >= IMIN && v <= IMAX, tryit<int32_t>([&] { return safe_cast<int32_t>(x); }), "safe_cast<int32_t>");
            chk(v >= 0 && v <= 2 * W{IMAX} + 1, tryit<uint32_t>([&] { return safe_cast<uint32_t>(x); }), "safe_cast<uint32_t>");
            if (v >= 0) { chk(v <= IMAX, tryit<int32_t>([&] { return safe_cast<int32_t>(static_cast<uint64_t>(x)); }), "safe_cast<int32_t>"); }
            chk(v >= -M && v <= M, tryit<int32_t>([&] { return check_valid_value(x); }), "check_valid_value");
        }
        ctx.outcome("casts");
    });
}

// ---------------------------------------------------------------- programs

std::vector<std::vector<std::pair<I, I>>> doms() {
    return {{{-M, -M}}, {{M, M}}, {{-M, -M + 1}, {M - 1, M}}, {{0, 0}, {M, M}}, {{-M, -M}, {-1, 1}, {M, M}}, {{-1, 1}}};
}

std::string big(I x) { return x < 0 ? cat("(", x, ")") : cat(x); }

void c15(Ctx &ctx) {
    bool th = ctx.thorough();
    primitives(ctx);
    std::vector<std::string> const xy{"x", "y"}, xyz{"x", "y", "z"};
    auto cs = confs15();
    auto small = std::vector<Conf>{cs[0], cs[2]};
    auto ds = doms();
    std::vector<I> cos{1, -1, 2, 3, M, -M, M - 1, -(1LL << 29), (1LL << 20) + 1};
    std::vector<I> rhss{0, 1, -1, M, -M, M - 1, -M + 1};
    auto valid = [](std::vector<I> const &xs) { for (I x : xs) { if (x > M || x < -M) { return false; } } return true; };
    auto num = [](std::vector<I> const &xs) { for (I x : xs) { if (x > IMAX || x < IMIN) { return false; } } return true; };
    // 1. sums in heads and bodies
    size_t k = 0;
    for (I a : cos) { for (I b : cos) { for (auto const &d : ds) { for (auto const &e : ds) { for (I c : rhss) { for (auto const *rel : RELS) {
        ++k;
        if (!th && k % 3 != 0) { continue; }
        ctx.test([&] {
            Program p;
            domains(p, xy, {d, e});
            place(p, sum_atom(xy, {{a, {0}}, {b, {1}}}, rel, c), k % 2 == 0 ? 0 : 3);
            expect(ctx, p, k % 5 == 0 ? cs : small, EXACT);
        });
    } } } } } }
    // single elements, coefficients and right-hand sides outside the valid range
    std::vector<I> wide{0, 1, -1, 2, M, -M, M + 1, -M - 1, M + 2, IMAX, -IMAX, IMAX - 1, IMIN + 2, 1LL << 29, -(1LL << 29), M - 1, 1 - M};
    for (I a : wide) { for (I c : wide) { for (auto const *rel : RELS) { for (auto const &d : ds) { for (int pos : {0, 3, 6}) {
        ctx.test([&] {
            Program p;
            domains(p, {"x"}, {d});
            place(p, sum_atom({"x"}, {{a, {0}}}, rel, c), pos);
            expect(ctx, p, small, valid({a, c}) ? EXACT : MAY);
        });
    } } } } }
    // three elements with cancelling values
    for (I a : {M, -M}) { for (I b : {M, -M, I{1}}) { for (I e : {M, -M, I{2}}) { for (auto const &d : ds) { for (I c : rhss) { for (auto const *rel : {"<=", "=", "!="}) {
        ctx.test([&] {
            Program p;
            domains(p, xyz, {d, ds[4], ds[3]});
            place(p, sum_atom(xyz, {{a, {0}}, {b, {1}}, {e, {2}}}, rel, c), 0);
            expect(ctx, p, small, EXACT);
        });
    } } } } } }
    // many elements: the sum of the bounds leaves 64 bits
    for (int n = 2; n <= 18; ++n) {
        for (I c : {-M, I{0}, M}) {
            ctx.test([&] {
                Program p;
                std::vector<std::string> vs;
                std::vector<Mono> ms;
                std::vector<std::vector<std::pair<I, I>>> dd;
                for (int i = 0; i < n; ++i) { vs.push_back(cat("x", i)); ms.push_back({i % 2 == 0 ? M : M - 1, {i}}); dd.push_back({{i < 3 ? -1 : 1, 1}}); }
                domains(p, vs, dd);
                place(p, sum_atom(vs, ms, "<=", c), 0);
                expect(ctx, p, small, n <= 7 ? EXACT : MAY);
            });
        }
    }
    // repeated elements that add up beyond the limit
    for (I a : wide) { for (I b : wide) { for (I c : {I{0}, M}) {
        ctx.test([&] {
            Program p;
            domains(p, {"x"}, {ds[4]});
            place(p, sum_atom({"x"}, {{a, {0}}, {b, {0}}}, "<=", c), 0);
            expect(ctx, p, small, valid({a, b, a + b}) ? EXACT : MAY);
        });
        ctx.test([&] {
            Program p;
            domains(p, {"x"}, {ds[4]});
            auto at = sum_atom({"x"}, {{1, {0}}, {a, {}}, {b, {}}}, "<=", c);
            place(p, at, 3);
            expect(ctx, p, small, valid({a, b, a + b - c}) ? EXACT : MAY);
        });
    } } }
    // 2. difference constraints
    for (I c : wide) { for (auto const &d : ds) { for (auto const &e : ds) { for (int pos : {0, 3, 6}) {
        ctx.test([&] {
            Program p;
            domains(p, xy, {d, e});
            place(p, diff_atom(xy, 0, 1, c), pos);
            expect(ctx, p, small, valid({c}) ? EXACT : MAY);
        });
    } } } }
    // 3. products
    for (I a : {I{1}, I{-1}, I{3}, M, -M}) { for (I b : {I{0}, I{1}, I{-2}, M, -M}) { for (auto const &d : ds) { for (auto const &e : ds) { for (I c : {I{0}, I{1}, M, -M}) { for (auto const *rel : {"<=", ">=", "=", "!="}) {
        ++k;
        if (!th && k % 2 != 0) { continue; }
        ctx.test([&] {
            Program p;
            domains(p, xyz, {d, e, {{-M, -M}, {2, 2}, {M, M}}});
            std::vector<Mono> ms{{a, {0, 1}}};
            if (b != 0) { ms.push_back({b, {2}}); }
            place(p, sum_atom(xyz, ms, rel, c, "nsum"), k % 4 < 2 ? 0 : 3);
            expect(ctx, p, {cs[0]}, EXACT);
        });
        if (b == 0 && d == e) {
            ctx.test([&] {
                Program p;
                domains(p, {"x"}, {d});
                place(p, sum_atom({"x"}, {{a, {0, 0}}}, rel, c, "nsum"), 0);
                expect(ctx, p, {cs[0]}, EXACT);
            });
        }
    } } } } } }
    // 4. distinct
    for (I a : {I{1}, I{-1}, I{2}, M}) { for (I b : {I{1}, I{-1}, M, -M}) { for (I c : rhss) { for (I e : {I{0}, M, -M}) { for (auto const &d : ds) { for (auto const &f : ds) {
        ++k;
        if (!th && k % 2 != 0) { continue; }
        ctx.test([&] {
            Program p;
            domains(p, xy, {d, f});
            place(p, distinct_atom(xy, {{{a, {0}}, {c, {}}}, {{b, {1}}, {e, {}}}}), 0);
            expect(ctx, p, small, valid({c - e + 1, c - e - 1}) ? EXACT : MAY);
        });
        if (a == 1 && b == 1) {
            ctx.test([&] {
                Program p;
                domains(p, xy, {d, f});
                place(p, distinct_atom(xy, {{{1, {0}}}, {{c, {}}}, {{1, {1}}, {e, {}}}, {{1, {0}}, {1, {1}}}}), 1);
                expect(ctx, p, {cs[0], cs[1], cs[3]}, EXACT);
            });
        }
    } } } } } }
    // 5. disjoint
    std::vector<I> lens{1, 2, M, M - 1, 1LL << 29, 0, -1, -M};
    for (auto const &d : ds) { for (auto const &e : ds) { for (I a : lens) { for (I b : lens) {
        ctx.test([&] {
            Program p;
            domains(p, xy, {d, e});
            place(p, disjoint_atom(xy, {{0, a}, {1, b}}), 0);
            expect(ctx, p, {cs[0], cs[1]}, EXACT);
        });
        for (I c : {I{1}, M, 1LL << 29}) {
            ctx.test([&] {
                Program p;
                domains(p, xyz, {d, e, {{-M, -M}, {0, 1}, {M, M}}});
                place(p, disjoint_atom(xyz, {{0, a}, {1, b}, {2, c}}), 1);
                expect(ctx, p, {cs[0], cs[1]}, EXACT);
            });
        }
    } } } }
    for (I a : {M + 1, IMAX, IMAX - 1}) { ctx.test([&] { Program p; domains(p, xy, {{{0, 1}}, {{0, 1}}}); place(p, disjoint_atom(xy, {{0, a}, {1, 1}}), 0); expect(ctx, p, small, MAY); }); }
    // four and five long intervals
    for (I a : {M, M - 1, 1LL << 29}) {
        for (int n = 3; n <= 5; ++n) {
            for (auto const &d : std::vector<std::vector<std::pair<I, I>>>{{{0, 1}}, {{-M, -M}, {M, M}}, {{M - 1, M}}, {{-M, -M + 1}}, {{-M, -M}, {-M + (1LL << 29), -M + (1LL << 29)}, {0, 1}, {M, M}}}) {
                ctx.test([&] {
                    Program p;
                    std::vector<std::string> vs;
                    std::vector<std::vector<std::pair<I, I>>> dd;
                    std::vector<std::pair<int, I>> es;
                    for (int i = 0; i < n; ++i) { vs.push_back(cat("x", i)); dd.push_back(d); es.emplace_back(i, a); }
                    domains(p, vs, dd);
                    place(p, disjoint_atom(vs, es), 0);
                    expect(ctx, p, {cs[0], cs[1]}, EXACT);
                });
            }
        }
    }
    // 6. domains at and beyond the limits
    std::vector<I> lims{IMIN, -IMAX, -M - 2, -M - 1, -M, -M + 1, -1, 0, 1, M - 1, M, M + 1, M + 2, IMAX - 1, IMAX};
    auto lit = [](I v) { return v == IMIN ? std::string("(-2147483647-1)") : big(v); };
    for (I l : lims) { for (I u : lims) { for (I v : {-M, -M + 1, I{0}, M - 1, M}) {
        ctx.test([&] {
            Program p;
            p.vars = {"x"};
            p.values = {{v}};
            p.extra = "&dom{ " + lit(l) + ".." + lit(u) + " } = x. &sum{ x } = " + lit(v) + ". ";
            Atom a; a.kind = Atom::DOM; a.elems = {{{1, {0}}}}; a.dom = {{l, u}};
            a.text = "&dom{ " + lit(l) + ".." + lit(u) + " } = x";
            p.rules.push_back(thead(a));
            expect(ctx, p, small, l > u ? MAY : valid({l, u}) ? EXACT : MUST);
        });
    } } }
    for (I v : lims) { for (I c : {-M, I{0}, M}) {
        ctx.test([&] {
            Program p;
            p.vars = {"x"};
            p.values = {{c}};
            Atom a; a.kind = Atom::DOM; a.elems = {{{1, {0}}}}; a.dom = {{v, v}, {0, 0}};
            a.text = "&dom{ " + lit(v) + "; 0 } = x";
            p.extra = "&sum{ x } = " + lit(c) + ". ";
            p.rules.push_back(thead(a));
            expect(ctx, p, small, valid({v}) ? EXACT : MUST);
        });
    } }
    // 7. unrestricted variables forced by constraints, with all bounds of the options
    for (I lo : {-M, -M + 1, I{-1}, I{0}}) { for (I hi : {I{0}, I{1}, M - 1, M}) {
        if (lo > hi) { continue; }
        for (I a : {I{1}, I{-1}, I{2}, M, -M}) { for (I c : lims) { for (auto const *rel : {"=", "<=", ">="}) {
            ctx.test([&] {
                Program p;
                p.vars = {"x", "y"};
                // bound to one end by another constraint
                I end = std::string(rel) == "<=" ? (a > 0 ? lo : hi) : (a > 0 ? hi : lo);
                std::set<I> vals{lo, hi};
                if (std::string(rel) == "=") { vals = {a != 0 && c % a == 0 ? c / a : lo}; if (*vals.begin() < lo || *vals.begin() > hi) { vals = {lo}; } }
                p.values = {{vals.begin(), vals.end()}, {0}};
                p.extra = "&dom{ 0..0 } = y. ";
                auto at = sum_atom(p.vars, {{a, {0}}}, rel, c);
                at.text = "&sum{ " + mono(a, p.vars, {0}) + " } " + rel + " " + lit(c);
                p.rules.push_back(thead(at));
                if (std::string(rel) != "=") { p.rules.push_back(thead(sum_atom(p.vars, {{1, {0}}, {1, {1}}}, "=", end))); }
                expect(ctx, p, {confs(lo, hi)[0], confs(lo, hi)[4]}, valid({a, c}) ? EXACT : MAY);
            });
        } } }
    } }
    // 8. objectives
    for (I a : {I{1}, I{-1}, M, -M}) { for (I b : {I{1}, M, -M, I{0}}) { for (I c : {I{0}, M, -M, IMAX}) { for (auto const &d : ds) { for (auto const &e : ds) { for (bool mx : {false, true}) {
        ctx.test([&] {
            Program p;
            domains(p, xy, {d, e});
            std::string text = p.text() + (mx ? "&maximize{ " : "&minimize{ ") + big(a) + "*x; " + big(b) + "*y; " + big(c) + " }.";
            auto value = [&](std::vector<I> const &v) { return W{a} * v[0] + W{b} * v[1] + c; };
            W best = 0;
            bool first = true, fits = valid({c});
            // the solver's own objective takes 32-bit weights
            for (I x : {p.values[0].front(), p.values[0].back()}) { fits = fits && num({a * x}); }
            for (I x : {p.values[1].front(), p.values[1].back()}) { fits = fits && num({b * x}); }
            for (auto const &s : brute(p)) { W z = mx ? -value(s.vals) : value(s.vals); for (W b : {z - 1, z - 1 - (mx ? -c : c)}) { fits = fits && b >= -M && b <= M; } W v = value(s.vals); if (first || (mx ? v > best : v < best)) { best = v; first = false; } }
            for (auto const &cf : {cs[0], cs[1], cs[2]}) {
                std::vector<W> got;
                std::vector<std::string> sym;
                std::string err;
                try {
                    Theory t{cf};
                    t.add(text);
                    t.ground();
                    t.prepare();
                    Handler h{t, p.vars};
                    h.hook = [&](Clingo::Model &m, Sol &s) {
                        got.push_back(value(s.vals));
                        for (auto const &x : m.symbols(Clingo::ShowType::Theory)) { if (x.match("__csp_cost", 1)) { sym.emplace_back(x.arguments()[0].string()); if (sym.back() != wstr(mx ? -got.back() : got.back()) && sym.back() != wstr(got.back())) { throw Violation(report(text, cf, "reported cost " + sym.back() + " for value " + wstr(got.back()))); } } }
                    };
                    t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
                } catch (Violation &) { throw; }
                catch (std::exception &x) { err = x.what(); }
                ctx.count(EXEC);
                if (!err.empty()) { ctx.count(EXTRA1); if (fits) { throw Violation(report(text, cf, "error: " + err)); } continue; }
                if (got.empty() || got.back() != best) { throw Violation(report(text, cf, cat("last model has value ", got.empty() ? "none" : wstr(got.back()), " but the optimum is ", wstr(best)))); }
            }
            ctx.count(NONTRIV);
            ctx.outcome(text);
        });
    } } } } } }
    // 9. constant arithmetic near the limits
    std::vector<I> ns{0, 1, 2, M, M + 1, IMAX, -IMAX, IMIN, 46340, 46341, 65536, -46341, 31, 30, -2};
    char const *const ops[] = {"+", "-", "*", "/", "\\", "**"};
    for (I a : ns) { for (I b : ns) { for (int op = 0; op < 6; ++op) { for (int pos = 0; pos < 4; ++pos) {
        ctx.test([&] {
            W r = 0;
            bool none = false;
            switch (op) {
                case 0: r = W{a} + b; break;
                case 1: r = W{a} - b; break;
                case 2: r = W{a} * b; break;
                case 3: case 4: if (b == 0) { none = true; } else { r = op == 3 ? a / b : a % b; } break;
                case 5:
                    if (b < 0) { if (a == 0) { none = true; } else { r = a == 1 ? 1 : a == -1 ? (b % 2 == 0 ? 1 : -1) : 0; } break; }
                    r = 1;
                    for (I i = 0; i < b; ++i) { if (a == 0 || a == 1 || a == -1) { r = a == -1 && b % 2 == 0 ? 1 : a; break; } r *= a; if (r > (W{1} << 62) || r < -(W{1} << 62)) { none = true; break; } }
                    break;
            }
            bool ok = !none && r >= -M && r <= M;
            std::string t = "(" + lit(a) + " " + ops[op] + " " + lit(b) + ")";
            Program p;
            p.vars = {"x"};
            p.values = {{ok ? static_cast<I>(r) : 0}};
            Atom at;
            at.elems = {{{1, {0}}}};
            at.rel = "=";
            at.rhs = {{ok ? static_cast<I>(r) : 0, {}}};
            at.text = pos == 0 ? "&sum{ x } = " + t : pos == 1 ? "&sum{ x; -" + t + " } = 0" : pos == 2 ? "&dom{ " + t + " } = x" : "&sum{ " + t + " } = x";
            p.rules.push_back(thead(at));
            bool fits = r >= IMIN && r <= IMAX;
            bool operands = num({a, b}) && a != IMIN && b != IMIN;
            expect(ctx, p, {cs[2]}, none || !ok ? MUST : fits && operands && (op != 5 || b >= 0) ? EXACT : MAY);
        });
    } } } }
}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    if (id != "C15") { return 2; }
    auto d = program_check(id, "Arithmetic primitives: all pairs of 8-bit integers and all pairs of about 60 edge values for 16, 32, 64 and 128 bits against exact arithmetic. Programs (library built with UBSan, so every wrapped operation is a violation): all combinations of boundary coefficients, right-hand sides, relations and domains built from -M,-M+1,-1,0,1,M-1,M with M=2^30-1 for sums, differences, products, distinct, disjoint, domains, objectives, option bounds and constant expressions, also just outside the limits; numbers within the limits must give the exact solutions, numbers outside the exact solutions or an error. distinct = program text.", c15);
    d.counters = {{EXEC, "executions"}, {NONTRIV, "satisfiable_programs"}, {SOLS, "solutions_compared"}, {EXTRA1, "rejected"}, {CHECKS, "primitive_results_compared"}};
    return run_check(d, argc - 2, argv + 2);
}
