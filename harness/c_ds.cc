// C14 VarState against std::map, C16 IntervalSet against a set of integers, and the arithmetic primitives (part of C15)
#include "runner.hh"
#include <clingcon/solver.hh>
#include <clingcon/util.hh>
#include <array>
#include <deque>
#include <map>
#include <memory>
#include <set>
using namespace V;

namespace {

using Clingcon::lit_t;
using Clingcon::val_t;
using Clingcon::VarState;

// ---------------------------------------------------------------- C14

struct Op { int kind; val_t a{0}; };
enum Kind { SET, GETADD, UNSET, RAISE, LOWER, PUSHRAISE, PUSHLOWER, POPL, POPU, COPY, ASSIGN_FRESH, ASSIGN_MAP, ASSIGN_VEC, MOVE, MOVE_MAP, MOVE_VEC, SELF, RESET };
char const *const NAMES[] = {"set_literal", "get_or_add_literal", "unset_literal", "lower_bound+1", "upper_bound-1", "push_lower/raise", "push_upper/reduce", "pop_lower", "pop_upper",
                             "copy construct", "assign to new state", "assign to state with a map", "assign to state with a vector", "move construct", "move to state with a map", "move to state with a vector", "assign to itself", "reset"};

// the specification: a map and two bounds with stacks
struct Spec {
    val_t lo, hi;
    std::vector<std::pair<unsigned, val_t>> ls, us;
    std::map<val_t, lit_t> m;
    val_t minb() const { return ls.empty() ? lo : ls.front().second; }
    val_t maxb() const { return us.empty() ? hi : us.front().second; }
};

VarState dirty(bool vec) {
    VarState s{7, -3, 2};
    s.set_literal(-2, 100);
    if (vec) { s.set_literal(1, 101); s.set_literal(0, 102); }
    s.push_lower(1);
    s.lower_bound(-1);
    return s;
}

struct Obj {
    std::unique_ptr<VarState> s;
    Spec spec;
    lit_t next{2};
    val_t lo0, hi0;

    Obj(val_t lo, val_t hi) : s{std::make_unique<VarState>(0, lo, hi)}, spec{lo, hi, {}, {}, {}}, lo0{lo}, hi0{hi} {}

    void apply(Op o) {
        auto &x = *s;
        switch (o.kind) {
            case SET: spec.m[o.a] = ++next; x.set_literal(o.a, next); break;
            case GETADD: {
                lit_t &r = x.get_or_add_literal(o.a);
                auto it = spec.m.find(o.a);
                if (r != (it == spec.m.end() ? 0 : it->second)) { throw Violation(cat("get_or_add_literal(", o.a, ") returns ", r)); }
                if (it == spec.m.end()) { r = -++next; spec.m[o.a] = r; }
                break;
            }
            case UNSET: spec.m.erase(o.a); x.unset_literal(o.a); break;
            case RAISE: ++spec.lo; x.lower_bound(spec.lo); break;
            case LOWER: --spec.hi; x.upper_bound(spec.hi); break;
            case PUSHRAISE: {
                unsigned l = spec.ls.empty() ? 1 : spec.ls.back().first + 2;
                if (x.pushed_lower(l)) { throw Violation("pushed_lower reports a level that was not pushed"); }
                spec.ls.emplace_back(l, spec.lo); x.push_lower(l);
                if (!x.pushed_lower(l)) { throw Violation("pushed_lower misses a pushed level"); }
                ++spec.lo; x.lower_bound(spec.lo);
                break;
            }
            case PUSHLOWER: {
                unsigned l = spec.us.empty() ? 1 : spec.us.back().first + 2;
                if (x.pushed_upper(l)) { throw Violation("pushed_upper reports a level that was not pushed"); }
                spec.us.emplace_back(l, spec.hi); x.push_upper(l);
                if (!x.pushed_upper(l)) { throw Violation("pushed_upper misses a pushed level"); }
                --spec.hi; x.upper_bound(spec.hi);
                break;
            }
            case POPL: spec.lo = spec.ls.back().second; spec.ls.pop_back(); x.pop_lower(); break;
            case POPU: spec.hi = spec.us.back().second; spec.us.pop_back(); x.pop_upper(); break;
            case COPY: s = std::make_unique<VarState>(static_cast<VarState const &>(x)); break;
            case ASSIGN_FRESH: { auto t = std::make_unique<VarState>(9, 0, 1); *t = static_cast<VarState const &>(x); s = std::move(t); break; }
            case ASSIGN_MAP: { auto t = std::make_unique<VarState>(dirty(false)); *t = static_cast<VarState const &>(x); s = std::move(t); break; }
            case ASSIGN_VEC: { auto t = std::make_unique<VarState>(dirty(true)); *t = static_cast<VarState const &>(x); s = std::move(t); break; }
            case MOVE: s = std::make_unique<VarState>(std::move(x)); break;
            case MOVE_MAP: { auto t = std::make_unique<VarState>(dirty(false)); *t = std::move(x); s = std::move(t); break; }
            case MOVE_VEC: { auto t = std::make_unique<VarState>(dirty(true)); *t = std::move(x); s = std::move(t); break; }
            case SELF: { auto const &y = x; x = y; break; }
            case RESET: x.reset(lo0, hi0); spec = Spec{lo0, hi0, {}, {}, {}}; break;
        }
    }

    std::vector<Op> ops(std::vector<val_t> const &vals) const {
        std::vector<Op> r;
        for (val_t v : vals) {
            if (spec.minb() <= v && v < spec.maxb()) {
                r.push_back({SET, v});
                r.push_back({GETADD, v});
                r.push_back({UNSET, v});
            } else if (spec.m.count(v) != 0) { r.push_back({UNSET, v}); }
        }
        if (spec.lo < spec.hi) { r.push_back({PUSHRAISE}); r.push_back({PUSHLOWER}); r.push_back({RAISE}); r.push_back({LOWER}); }
        if (!spec.ls.empty()) { r.push_back({POPL}); }
        if (!spec.us.empty()) { r.push_back({POPU}); }
        for (int k : {COPY, ASSIGN_FRESH, ASSIGN_MAP, ASSIGN_VEC, MOVE, MOVE_MAP, MOVE_VEC, SELF, RESET}) { r.push_back({k}); }
        return r;
    }

    void check(Ctx &ctx) const {
        auto const &x = *s;
        auto const &m = spec.m;
        auto fail = [&](std::string const &what, val_t v) { throw Violation(cat(what, "(", v, ") differs from an ordered map")); };
        if (x.var() != 0) { throw Violation("var() changed"); }
        if (x.lower_bound() != spec.lo || x.upper_bound() != spec.hi || x.min_bound() != spec.minb() || x.max_bound() != spec.maxb()) { throw Violation("wrong bounds"); }
        if (x.is_assigned() != (spec.lo == spec.hi)) { throw Violation("wrong is_assigned"); }
        using Seq = std::vector<std::pair<val_t, lit_t>>;
        Seq got, exp;
        auto collect = [&](auto ib, auto ie, auto get_lit, auto get_val, auto inc) { got.clear(); for (auto it = ib; it != ie; inc(it)) { got.emplace_back(get_val(it), get_lit(it)); } };
        x.with(collect);
        exp.assign(m.begin(), m.end());
        if (got != exp) { throw Violation("with() differs from an ordered map"); }
        for (val_t v = lo0 - 2; v <= hi0 + 2; ++v) {
            auto it = m.find(v);
            bool in = (spec.minb() <= v && v < spec.maxb()) || it != m.end();
            if (in) {
                if (x.has_literal(v) != (it != m.end())) { fail("has_literal", v); }
                auto g = const_cast<VarState &>(x).get_literal(v);
                if (g.has_value() != (it != m.end()) || (g && *g != it->second)) { fail("get_literal", v); }
            }
            auto lb = m.lower_bound(v), ub = m.upper_bound(v);
            auto rev = [&](std::map<val_t, lit_t>::const_iterator e) { exp.assign(std::make_reverse_iterator(e), m.rend()); };
            x.with_lt(v, collect); rev(lb); if (got != exp) { fail("with_lt", v); }
            auto chk = [&](char const *n, lit_t l, VarState::OrderLiteralOpt const &o) {
                if (l != (exp.empty() ? 0 : exp.front().second)) { fail(cat("lit_", n), v); }
                if (o.has_value() != !exp.empty() || (o && (o->first != exp.front().second || o->second != exp.front().first))) { fail(cat("order_lit_", n), v); }
            };
            chk("lt", x.lit_lt(v), x.order_lit_lt(v));
            if (x.lit_prev(v) != (exp.empty() ? -Clingcon::TRUE_LIT : exp.front().second)) { fail("lit_prev", v); }
            x.with_le(v, collect); rev(ub); if (got != exp) { fail("with_le", v); }
            chk("le", x.lit_le(v), x.order_lit_le(v));
            x.with_gt(v, collect); exp.assign(ub, m.end()); if (got != exp) { fail("with_gt", v); }
            chk("gt", x.lit_gt(v), x.order_lit_gt(v));
            if (x.lit_succ(v) != (exp.empty() ? Clingcon::TRUE_LIT : exp.front().second)) { fail("lit_succ", v); }
            x.with_ge(v, collect); exp.assign(lb, m.end()); if (got != exp) { fail("with_ge", v); }
            chk("ge", x.lit_ge(v), x.order_lit_ge(v));
            ctx.count(CHECKS, 12);
        }
    }
};

std::string showops(std::vector<Op> const &ops) {
    std::string r;
    for (auto o : ops) { r += cat("  ", NAMES[o.kind], o.kind <= UNSET ? cat("(", o.a, ")") : "", "\n"); }
    return r;
}

void c14(Ctx &ctx) {
    struct Fam { val_t lo, hi; std::vector<val_t> vals; int depth, tdepth; };
    val_t M = Clingcon::MAX_VAL;
    std::vector<Fam> fams{
        {0, 1, {0}, 5, 6}, {-1, 1, {-1, 0}, 4, 5}, {-2, 2, {-2, -1, 0, 1}, 4, 5}, {3, 9, {3, 5, 8}, 4, 5}, {0, 11, {0, 4, 10}, 4, 5}, {-15, 7, {-15, -3, 0, 6}, 4, 5},
        {M - 3, M, {M - 3, M - 2, M - 1}, 4, 5}, {-M, -M + 3, {-M, -M + 1, -M + 2}, 4, 5},
        {-4, 28, {-4, 0, 11, 26, 27}, 4, 4}, {0, 1, {}, 3, 3}, {5, 5, {}, 4, 5}};
    for (auto const &f : fams) {
        int depth = ctx.thorough() ? f.tdepth : f.depth;
        std::vector<Op> path;
        // each case is a prefix of length two together with all its extensions
        std::function<void(int)> rec = [&](int left) {
            Obj o{f.lo, f.hi};
            try {
                for (auto op : path) { o.apply(op); }
                o.check(ctx);
            } catch (Violation &e) { throw Violation(cat("variable with bounds ", f.lo, "..", f.hi, "\n", showops(path), e.what())); }
            ctx.count(EXEC);
            ctx.count(TRANS);
            if (o.spec.m.size() > 1) { ctx.count(NONTRIV); }
            uint64_t h = static_cast<uint64_t>(f.lo) * 31 + static_cast<uint64_t>(f.hi);
            for (auto [v, l] : o.spec.m) { h = h * 1000003 + static_cast<uint64_t>(v) * 7; static_cast<void>(l); }
            h = (h * 1000003 + static_cast<uint64_t>(o.spec.lo)) * 1000003 + static_cast<uint64_t>(o.spec.hi);
            for (auto [l, v] : o.spec.ls) { h = h * 31 + static_cast<uint64_t>(v) + l; }
            for (auto [l, v] : o.spec.us) { h = h * 37 + static_cast<uint64_t>(v) + l; }
            ctx.outcome(h);
            if (ctx.wants_sample()) { ctx.sample(showops(path)); } else { ctx.skip_sample(); }
            if (left == 0) { return; }
            for (auto op : o.ops(f.vals)) { path.push_back(op); rec(left - 1); path.pop_back(); }
            ctx.heartbeat();
        };
        Obj o{f.lo, f.hi};
        for (auto a : o.ops(f.vals)) {
            Obj p{f.lo, f.hi};
            p.apply(a);
            for (auto b : p.ops(f.vals)) {
                ctx.test([&] { path = {a, b}; rec(depth - 2); });
            }
        }
    }
}

// ---------------------------------------------------------------- C16

template <class T> struct Sets {
    using IS = Clingcon::IntervalSet<T>;
    T base;
    int n;
    static std::vector<std::pair<int, int>> runs(uint32_t bits, int n) {
        std::vector<std::pair<int, int>> r;
        for (int i = 0; i < n;) {
            if (((bits >> i) & 1) == 0) { ++i; continue; }
            int j = i;
            while (j < n && ((bits >> j) & 1) != 0) { ++j; }
            r.emplace_back(i, j);
            i = j;
        }
        return r;
    }
    static uint32_t mask(int a, int b) { return a < b ? ((1U << (b - a)) - 1) << a : 0; }
    T at(int i) const { return static_cast<T>(base + i); }
    IS make(uint32_t bits) const { IS s; for (auto [a, b] : runs(bits, n)) { s.add(at(a), at(b)); } return s; }
    void iter(IS const &s, uint32_t bits, std::string const &what) const {
        auto r = runs(bits, n);
        size_t i = 0;
        for (auto const &[a, b] : s) {
            if (i >= r.size() || a != at(r[i].first) || b != at(r[i].second)) { throw Violation(cat(what, ": iteration differs from the maximal intervals of a plain set")); }
            ++i;
        }
        if (i != r.size()) { throw Violation(cat(what, ": intervals are missing")); }
    }
    // complete comparison
    void check(Ctx &ctx, IS &s, uint32_t bits, std::string const &what) const {
        iter(s, bits, what);
        auto r = runs(bits, n);
        std::reverse(r.begin(), r.end());
        size_t i = 0;
        for (auto it = s.rbegin(); it != s.rend(); ++it, ++i) {
            if (i >= r.size() || it->first != at(r[i].first) || it->second != at(r[i].second)) { throw Violation(cat(what, ": reverse iteration differs")); }
        }
        if (i != r.size()) { throw Violation(cat(what, ": reverse iteration misses intervals")); }
        if (s.empty() != (bits == 0)) { throw Violation(cat(what, ": empty() is wrong")); }
        for (int a = 0; a < n; ++a) {
            if (s.contains(at(a)) != (((bits >> a) & 1) != 0)) { throw Violation(cat(what, ": contains(", at(a), ") is wrong")); }
            for (int b = a + 1; b <= n; ++b) {
                uint32_t k = mask(a, b);
                if (s.contains(at(a), at(b)) != ((bits & k) == k)) { throw Violation(cat(what, ": contains(", at(a), ",", at(b), ") is wrong")); }
                if (s.intersects(at(a), at(b)) != ((bits & k) != 0)) { throw Violation(cat(what, ": intersects(", at(a), ",", at(b), ") is wrong")); }
                if (s.intersects(at(b), at(a))) { throw Violation(cat(what, ": intersects(", at(b), ",", at(a), ") with an empty interval")); }
                ctx.count(CHECKS, 3);
            }
            if (s.intersects(at(a), at(a))) { throw Violation(cat(what, ": intersects an empty interval")); }
        }
        std::vector<int> en;
        s.enumerate([&](T v) { en.push_back(static_cast<int>(v - base)); return true; });
        std::vector<int> ex;
        for (int a = 0; a < n; ++a) { if (((bits >> a) & 1) != 0) { ex.push_back(a); } }
        if (en != ex) { throw Violation(cat(what, ": enumerate is wrong")); }
        // stopping an enumeration
        for (size_t k = 1; k <= ex.size(); ++k) {
            size_t c = 0;
            s.enumerate([&](T) { return ++c < k; });
            if (c != k) { throw Violation(cat(what, ": enumerate does not stop when told")); }
        }
    }
    std::string str(uint32_t bits) const {
        std::string r = "{";
        for (auto [a, b] : runs(bits, n)) { r += cat(" [", at(a), ",", at(b), ")"); }
        return r + " }";
    }
};

template <class T> void states(Ctx &ctx, T base, int n, bool pairs) {
    Sets<T> u{base, n};
    uint32_t all = n == 32 ? ~0U : (1U << n) - 1;
    for (uint32_t block = 0; block <= (all >> 5); ++block) {
        ctx.test([&] {
            for (uint32_t bits = block << 5; bits < ((block + 1) << 5) && bits <= all; ++bits) {
                auto s0 = u.make(bits);
                u.check(ctx, s0, bits, u.str(bits));
                ctx.count(STATES);
                for (int a = 0; a <= n; ++a) {
                    for (int b = 0; b <= n; ++b) {
                        auto s = s0;
                        s.add(u.at(a), u.at(b));
                        u.iter(s, bits | Sets<T>::mask(a, b), cat(u.str(bits), " + [", u.at(a), ",", u.at(b), ")"));
                        u.iter(s0, bits, "original after changing a copy");
                        ctx.count(TRANS);
                    }
                }
                auto s = s0;
                s.clear();
                u.check(ctx, s, 0, "cleared set");
                if (pairs) {
                    for (uint32_t other = 0; other <= all; ++other) {
                        auto t = s0;
                        t.extend(u.make(other));
                        u.iter(t, bits | other, cat(u.str(bits), " extended with ", u.str(other)));
                        auto m = std::move(t);
                        u.iter(m, bits | other, "moved set");
                        ctx.count(TRANS);
                    }
                }
                ctx.outcome(static_cast<uint64_t>(base) * 1000003 + bits * 64 + static_cast<uint64_t>(n));
                if (ctx.wants_sample()) { ctx.sample(u.str(bits)); } else { ctx.skip_sample(); }
            }
            ctx.count(EXEC);
        });
    }
}

// sequences without merging of states
template <class T> void sequences(Ctx &ctx, T base, int n, int depth) {
    Sets<T> u{base, n};
    std::vector<std::pair<int, int>> ivs;
    for (int a = 0; a <= n; ++a) { for (int b = 0; b <= n; ++b) { if (a < b || b == 0) { ivs.emplace_back(a, b); } } }
    std::vector<std::pair<int, int>> path;
    std::function<void(int, typename Sets<T>::IS const &, uint32_t)> rec = [&](int left, auto const &s, uint32_t bits) {
        for (auto [a, b] : ivs) {
            auto t = s;
            t.add(u.at(a), u.at(b));
            uint32_t nb = bits | Sets<T>::mask(a, b);
            path.emplace_back(a, b);
            auto what = [&] { std::string r = "after"; for (auto [x, y] : path) { r += cat(" add(", u.at(x), ",", u.at(y), ")"); } return r; };
            try { u.iter(t, nb, ""); if (left <= 1) { u.check(ctx, t, nb, ""); } } catch (Violation &e) { throw Violation(what() + e.what()); }
            ctx.count(TRANS);
            if (left > 1) { rec(left - 1, t, nb); }
            path.pop_back();
        }
    };
    for (auto [a, b] : ivs) {
        ctx.test([&, a = a, b = b] {
            typename Sets<T>::IS s;
            s.add(u.at(a), u.at(b));
            path = {{a, b}};
            rec(depth - 1, s, Sets<T>::mask(a, b));
            ctx.count(EXEC);
        });
    }
}

void c16(Ctx &ctx) {
    bool th = ctx.thorough();
    using L = std::numeric_limits<val_t>;
    states<val_t>(ctx, 0, th ? 11 : 9, true);
    states<val_t>(ctx, -5, th ? 17 : 14, false);
    states<val_t>(ctx, L::max() - 8, 8, true);
    states<val_t>(ctx, L::min(), 8, true);
    states<val_t>(ctx, -Clingcon::MAX_VAL, 7, true);
    states<int64_t>(ctx, std::numeric_limits<int64_t>::max() - 7, 7, true);
    sequences<val_t>(ctx, -2, th ? 6 : 5, th ? 5 : 4);
    sequences<val_t>(ctx, L::max() - 4, 4, th ? 6 : 4);
    sequences<val_t>(ctx, L::min(), 4, th ? 6 : 4);
}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    CheckDef d;
    d.id = id;
    d.level = "exploration";
    if (id == "C14") {
        d.rule = "Every sequence of operations (set, get-or-add, unset, change/push/pop bounds, copy, assign and move from/to both representations, self-assignment, reset) up to the depth (4, thorough 5, for most of 11 families of bounds and values, crossing the switch from map to vector), executed on a real VarState built with AddressSanitizer and UBSan; after each sequence every lookup and traversal for every value in and around the range is compared with a std::map. distinct = map keys, bounds and stacks.";
        d.counters = {{EXEC, "sequences"}, {CHECKS, "lookups_compared"}, {NONTRIV, "sequences_with_several_literals"}};
        d.enumerate = c14;
    } else if (id == "C16") {
        d.rule = "Explicit-state: every set over the universe (all 2^n states) with every add of every pair of ends (also empty and reversed), extend with every other set, copy, move, clear and every query; universes around 0 and touching both ends of the integer type; plus all sequences of adds up to the depth without merging states. Compared with a bit set. distinct = (universe, set).";
        d.counters = {{EXEC, "blocks"}, {STATES, "states"}, {TRANS, "transitions"}, {CHECKS, "queries_compared"}};
        d.enumerate = c16;
    } else { return 2; }
    d.assumptions = {"std::map and std::vector behave as specified", "AddressSanitizer/UBSan report invalid accesses of the executed sequences"};
    return run_check(d, argc - 2, argv + 2);
}
