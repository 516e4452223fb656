// C40: combinatorial problems in the idioms of the shipped encodings; every
// instance of bounded size is solved and compared with a direct search that
// knows nothing of rules and constraints
#include "gen.hh"
using namespace V;

namespace {

struct Instance {
    std::string prg;
    std::vector<std::string> vars;              // recorded variables
    std::vector<std::string> preds;             // recorded predicates
    std::vector<std::string> want;              // expected solutions (sorted)
    bool optimize{false};                       // only the best cost counts
    I best{UNDEF};                              // UNDEF if there is none
};

std::string key(std::vector<std::string> atoms, std::vector<I> const &vals) {
    std::sort(atoms.begin(), atoms.end());
    std::string r;
    for (auto const &a : atoms) { r += a + " "; }
    r += "|";
    for (I v : vals) { r += v == UNDEF ? " -" : cat(" ", v); }
    return r;
}

struct Watch : Clingo::SolveEventHandler {
    Theory &t;
    Instance const &in;
    std::vector<std::string> got;
    std::vector<I> costs;
    Watch(Theory &t, Instance const &in) : t{t}, in{in} {}
    bool on_model(Clingo::Model &m) override {
        handle_error(clingcon_on_model(t.c(), m.to_c()));
        std::vector<std::string> atoms;
        for (auto s : m.symbols(Clingo::ShowType::Atoms)) {
            if (s.type() == Clingo::SymbolType::Function && std::find(in.preds.begin(), in.preds.end(), s.name()) != in.preds.end()) { atoms.push_back(s.to_string()); }
        }
        std::vector<I> vals;
        for (auto const &v : in.vars) {
            size_t idx = 0;
            if (clingcon_lookup_symbol(t.c(), sym(v).to_c(), &idx) && clingcon_assignment_has_value(t.c(), m.thread_id(), idx)) {
                clingcon_value_t val;
                clingcon_assignment_get_value(t.c(), m.thread_id(), idx, &val);
                vals.push_back(val.int_number);
            } else { vals.push_back(UNDEF); }
        }
        got.push_back(key(atoms, vals));
        if (in.optimize) {
            bool found = false;
            for (auto s : m.symbols(Clingo::ShowType::Theory)) {
                if (s.match("__csp_cost", 1)) { costs.push_back(std::stoll(s.arguments()[0].string())); found = true; }
            }
            if (!found) { throw std::runtime_error("model without cost"); }
        }
        return true;
    }
};

void solve(Ctx &ctx, Instance const &in, Conf const &conf) {
    Theory t{conf};
    std::string err;
    bool exhausted = false, sat = false;
    Watch w{t, in};
    try {
        t.add(in.prg);
        t.ground();
        t.prepare();
        auto res = t.ctl().solve(Clingo::LiteralSpan{}, &w, false, false).get();
        exhausted = res.is_exhausted();
        sat = res.is_satisfiable();
    } catch (std::exception const &e) { err = e.what(); }
    ctx.count(EXEC);
    ctx.count(SOLS, w.got.size());
    if (!err.empty()) { throw Violation(report(in.prg, conf, "error: " + err)); }
    if (!exhausted) { throw Violation(report(in.prg, conf, "the search did not complete")); }
    if (in.optimize) {
        if (sat != (in.best != UNDEF)) { throw Violation(report(in.prg, conf, cat("satisfiable: expected ", in.best != UNDEF, " got ", sat))); }
        for (size_t i = 1; i < w.costs.size(); ++i) {
            if (w.costs[i] >= w.costs[i - 1]) { throw Violation(report(in.prg, conf, cat("costs do not improve: ", w.costs[i - 1], " then ", w.costs[i]))); }
        }
        if (sat && w.costs.back() != in.best) { throw Violation(report(in.prg, conf, cat("best cost: expected ", in.best, " got ", w.costs.back()))); }
        return;
    }
    std::sort(w.got.begin(), w.got.end());
    if (w.got != in.want) {
        std::vector<std::string> m, e;
        std::set_difference(in.want.begin(), in.want.end(), w.got.begin(), w.got.end(), std::back_inserter(m));
        std::set_difference(w.got.begin(), w.got.end(), in.want.begin(), in.want.end(), std::back_inserter(e));
        std::string r = cat("expected ", in.want.size(), " solutions, got ", w.got.size(), "\n");
        for (size_t i = 0; i < m.size() && i < 4; ++i) { r += "  missing: " + m[i] + "\n"; }
        for (size_t i = 0; i < e.size() && i < 4; ++i) { r += "  unexpected or repeated: " + e[i] + "\n"; }
        throw Violation(report(in.prg, conf, r));
    }
}

void test(Ctx &ctx, std::vector<Conf> const &cs, std::function<Instance()> const &make) {
    ctx.test([&] {
        auto in = make();
        std::sort(in.want.begin(), in.want.end());
        if (in.optimize ? in.best != UNDEF : !in.want.empty()) { ctx.count(NONTRIV); }
        std::string h = cat(in.best, "\n");
        for (auto const &s : in.want) { h += s + "\n"; }
        ctx.outcome(h);
        for (auto const &c : cs) { solve(ctx, in, c); }
        if (ctx.wants_sample()) { ctx.sample(cat(in.prg, " => ", in.want.size(), " solutions")); } else { ctx.skip_sample(); }
    });
}

// all assignments of n variables with the given bounds that satisfy a check of the first k
void all(std::vector<std::pair<I, I>> const &dom, std::function<bool(std::vector<I> const &)> const &prefix, std::function<void(std::vector<I> const &)> const &full) {
    std::vector<I> a;
    std::function<void()> rec = [&] {
        if (a.size() == dom.size()) { full(a); return; }
        auto [l, u] = dom[a.size()];
        for (I v = l; v <= u; ++v) {
            a.push_back(v);
            if (prefix(a)) { rec(); }
            a.pop_back();
        }
    };
    rec();
}

// {{{ flow shops

char const *const PERM = R"(
1 { cycle(T,U) : task(U), U != T } 1 :- task(T).
1 { cycle(T,U) : task(T), U != T } 1 :- task(U).
reach(M) :- M = #min { T : task(T) }.
reach(U) :- reach(T), cycle(T,U).
:- task(T), not reach(T).
1 { start(T) : task(T) } 1.
permutation(T,U) :- cycle(T,U), not start(U).
seq((T,M),(T,M+1),D) :- task(T), duration(T,M,D), machine(M+1).
seq((T1,M),(T2,M),D) :- permutation(T1,T2), duration(T1,M,D).
)";
char const *const FS_D = R"(
&diff { T1-T2 } <= -D :- seq(T1,T2,D).
&diff { 0-(T,M) } <= 0 :- duration(T,M,D).
&diff { (T,M)-bound } <= -D :- duration(T,M,D).
)";
char const *const FS_E = R"(
&sum { T2 - T1 } >= D :- seq(T1,T2,D).
&sum { (T,M) } >= 0       :- duration(T,M,D).
&sum { (T,M) } <= bound-D :- duration(T,M,D).
)";
char const *const FS_G = R"(
&dom { 0..B } = (J,M) :- duration(J,M,T), B=bound-T.
&sum{ (J,M)+T } <= (J,M+1) :- duration(J,M,T), machine(M+1).
&disjoint { (J,M)@T : duration(J,M,T) } :- machine(M).
)";
char const *const FS_O = R"(
&sum {  1*T1 + -1*T2 } <= -D       :- seq(T1,T2,D).
&sum { -1*(T,M) } <= 0             :- duration(T,M,D).
&sum {  1*(T,M) + -1*bound } <= -D :- duration(T,M,D).
&minimize { bound }.
)";
char const *const FS_T = R"(
index(1..N) :- N = #count { T: task(T) }.
first(I)    :- index(I), not index(I-1).
last(I)     :- index(I), not index(I+1).
1 { assign(I,T) : index(I) } 1 :- task(T).
1 { assign(I,T) : task(T) } 1 :- index(I).
dur(I,M,D) :- assign(I,T), duration(T,M,D).
&sum { (I,M) + D } <= (I,M+1) :- index(I), dur(I,M,D), machine(M+1).
&sum { (I,M) + D } <= (I+1,M) :- index(I), dur(I,M,D), index(I+1).
&sum { (I,M) + D } <= bound   :- last(I), dur(I,M,D).
order(M,U,V) :- duration(T,M,D), U = (D,T), V = #min { (D',T') : duration(T',M,D'), (D',T') > U } < #sup.
index_order(M,I,U) :- first(I), order(M,U,_), not order(M,_,U).
index_order(M,I,V) :- index_order(M,I-1,U), order(M,U,V).
index_dur(M,I,D)     :- index_order(M,I,(D,_)).
index_rev(M,L-I+F,D) :- index_dur(M,I,D), first(F), last(L).
sum_up(M,I,0)   :- first(I), machine(M), not machine(M-1).
sum_up(M,I,S+D) :- first(I), machine(M), sum_up(M-1,I,S), index_dur(M-1,I,D).
sum_up(M,I,S+D) :- index(I), sum_up(M,I-1,S), index_dur(M,I-1,D).
sum_down(M,I,D)   :- last(I), machine(M), not machine(M+1), index_rev(M,I,D).
sum_down(M,I,S+D) :- last(I), machine(M), sum_down(M+1,I,S), index_rev(M,I,D).
sum_down(M,I,S+D) :- index(I), sum_down(M,I+1,S), index_rev(M,I,D).
min_dur(M,D) :- first(I), index_dur(M,I,D).
&sum { (I,M)     } >= S       :- sum_up(M,I,S).
&sum { (I,M) + S } <= bound   :- sum_down(M,I,S).
&sum { (I,M) + D } <= (I,M+1) :- index(I), min_dur(M,D), machine(M+1).
&sum { (I,M) + D } <= (I+1,M) :- index(I), min_dur(M,D), index(I+1).
)";

struct Shop {
    int n, m;
    std::vector<I> d; // duration of task i on machine j at i*m+j
    I dur(int i, int j) const { return d[i * m + j]; }
    std::string facts() const {
        std::string r;
        for (int j = 1; j <= m; ++j) { r += cat("machine(", j, "). "); }
        for (int i = 0; i < n; ++i) {
            r += cat("task(", char('a' + i), "). ");
            for (int j = 0; j < m; ++j) { r += cat("duration(", char('a' + i), ",", j + 1, ",", dur(i, j), "). "); }
        }
        return r;
    }
    // calls f with every order of the tasks
    template <class F> void orders(F &&f) const {
        std::vector<int> o;
        for (int i = 0; i < n; ++i) { o.push_back(i); }
        do { f(o); } while (std::next_permutation(o.begin(), o.end()));
    }
    I makespan(std::vector<int> const &o) const {
        std::vector<I> end(m, 0);
        for (int i : o) { I t = 0; for (int j = 0; j < m; ++j) { t = std::max(t, end[j]) + dur(i, j); end[j] = t; } }
        return end.back();
    }
    I best() const { I b = 1 << 20; orders([&](auto const &o) { b = std::min(b, makespan(o)); }); return b; }
    std::vector<std::string> vars() const {
        std::vector<std::string> r;
        for (int i = 0; i < n; ++i) { for (int j = 1; j <= m; ++j) { r.push_back(cat("(", char('a' + i), ",", j, ")")); } }
        return r;
    }
    // all schedules within the bound, in the order of the variables
    template <class F> void schedules(I bound, std::vector<int> const *o, F &&f) const {
        std::vector<std::pair<I, I>> dom;
        for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) { dom.emplace_back(0, bound - dur(i, j)); } }
        std::vector<int> pos(n);
        if (o) { for (int k = 0; k < n; ++k) { pos[(*o)[k]] = k; } }
        all(dom, [&](auto const &a) {
            int k = static_cast<int>(a.size()) - 1, i = k / m, j = k % m;
            if (j > 0 && a[k - 1] + dur(i, j - 1) > a[k]) { return false; }
            for (int p = 0; p < i; ++p) {
                I b = a[p * m + j];
                bool before = b + dur(p, j) <= a[k], after = a[k] + dur(i, j) <= b;
                if (o) { if (!(pos[p] < pos[i] ? before : after)) { return false; } }
                else if (dur(p, j) > 0 && dur(i, j) > 0 && !before && !after) { return false; }
            }
            return true;
        }, f);
    }
};

void flow(Ctx &ctx, std::vector<Conf> const &cs, Shop const &s, I slack, int enc) {
    test(ctx, cs, [&] {
        Instance in;
        I bound = s.best() + slack;
        std::string fac = cat("#const bound=", bound, ". ", s.facts());
        in.vars = s.vars();
        switch (enc) {
            case 0: case 1:
                in.prg = fac + PERM + (enc == 0 ? FS_D : FS_E);
                in.preds = {"permutation"};
                s.orders([&](auto const &o) {
                    std::vector<std::string> as;
                    for (int k = 0; k + 1 < s.n; ++k) { as.push_back(cat("permutation(", char('a' + o[k]), ",", char('a' + o[k + 1]), ")")); }
                    s.schedules(bound, &o, [&](auto const &a) { in.want.push_back(key(as, a)); });
                });
                break;
            case 2:
                in.prg = fac + FS_G;
                s.schedules(bound, nullptr, [&](auto const &a) { in.want.push_back(key({}, a)); });
                break;
            case 3:
                in.prg = fac + FS_T;
                in.preds = {"assign"};
                in.vars.clear();
                for (int i = 1; i <= s.n; ++i) { for (int j = 1; j <= s.m; ++j) { in.vars.push_back(cat("(", i, ",", j, ")")); } }
                s.orders([&](auto const &o) {
                    std::vector<std::string> as;
                    for (int k = 0; k < s.n; ++k) { as.push_back(cat("assign(", k + 1, ",", char('a' + o[k]), ")")); }
                    s.schedules(bound, &o, [&](auto const &a) {
                        std::vector<I> v;
                        for (int i : o) { for (int j = 0; j < s.m; ++j) { v.push_back(a[i * s.m + j]); } }
                        in.want.push_back(key(as, v));
                    });
                });
                break;
            case 4:
                in.prg = s.facts() + PERM + FS_O;
                in.optimize = true;
                in.best = s.best();
                break;
        }
        return in;
    });
}

void flows(Ctx &ctx, std::vector<Conf> const &cs, int n, int m, I max, int step, std::vector<I> const &slacks) {
    int k = 0;
    product(std::vector<std::vector<I>>(static_cast<size_t>(n * m), range(0, max)), [&](auto const &d) {
        if (k++ % step != 0) { return; }
        Shop s{n, m, d};
        for (int enc = 0; enc < 4; ++enc) { for (I sl : slacks) { flow(ctx, cs, s, sl, enc); } }
        flow(ctx, cs, s, 0, 4);
    });
}

// }}}
// {{{ puzzles

void queens(Ctx &ctx, std::vector<Conf> const &cs, int n, int enc) {
    test(ctx, cs, [&] {
        Instance in;
        in.prg = cat("p(1..", n, "). &dom { 1..", n, " } = q(N) :- p(N). ");
        switch (enc) {
            case 0: in.prg += "&distinct { q(N)+0 : p(N) }. &distinct { q(N)-N : p(N) }. &distinct { q(N)+N : p(N) }."; break;
            case 1: in.prg += "&sum { q(N); -q(M) } != D :- p(N), p(M), N<M, D=(0;M-N;N-M)."; break;
            case 2: in.prg += "at(N,X) :- p(N), p(X), &sum { q(N) } = X. :- p(N), not 1 { at(N,X) : p(X) } 1. :- at(N,X), at(M,Y), N<M, (X-Y;|X-Y|) = (0;M-N)."; break;
            case 3: in.prg += "{ gt(N,M) } :- p(N), p(M), N<M. &diff { q(M)-q(N) } <= -1 :- gt(N,M). &diff { q(N)-q(M) } <= -1 :- p(N), p(M), N<M, not gt(N,M). &distinct { q(N)-N : p(N) }. :- &sum { q(N); -q(M) } = N-M, p(N), p(M), N<M. :- &sum { q(N); -q(M) } = M-N, p(N), p(M), N<M."; break;
        }
        for (int i = 1; i <= n; ++i) { in.vars.push_back(cat("q(", i, ")")); }
        all(std::vector<std::pair<I, I>>(static_cast<size_t>(n), {1, n}), [&](auto const &a) {
            int k = static_cast<int>(a.size()) - 1;
            for (int i = 0; i < k; ++i) { if (a[i] == a[k] || std::abs(a[i] - a[k]) == k - i) { return false; } }
            return true;
        }, [&](auto const &a) { in.want.push_back(key({}, a)); });
        return in;
    });
}

void golomb(Ctx &ctx, std::vector<Conf> const &cs, int o, int l, int enc) {
    test(ctx, cs, [&] {
        Instance in;
        in.prg = cat("#const l=", l, ". #const o=", o, ". &dom { 1..l } = p(P) :- P=1..o. &sum { p(1) } = 1. &sum { p(P) } < p(P+1) :- P=1..o-1. ");
        if (enc == 0) { in.prg += "&distinct{ p(Q) - p(P) : P < Q, P=1..o-1, Q=P+1..o }."; }
        if (enc == 1) { in.prg += "&dom { 1..l } = d(P,Q) :- P=1..o-1, Q=P+1..o. &sum { p(Q); -p(P); -d(P,Q) } = 0 :- P=1..o-1, Q=P+1..o. &distinct{ d(P,Q) : P=1..o-1, Q=P+1..o }."; }
        if (enc == 2) { in.prg += "&sum { p(Q); -p(P) } != p(S) - p(R) :- P=1..o-1, Q=P+1..o, R=1..o-1, S=R+1..o, (P,Q)<(R,S)."; }
        if (enc == 3) { in.prg += "&distinct{ p(Q) - p(P) : P < Q, P=1..o-1, Q=P+1..o }. &minimize { p(o) }."; in.optimize = true; }
        for (int i = 1; i <= o; ++i) { in.vars.push_back(cat("p(", i, ")")); }
        std::vector<std::pair<I, I>> dom(static_cast<size_t>(o), {1, l});
        dom[0] = {1, 1};
        all(dom, [&](auto const &a) {
            size_t k = a.size();
            if (k > 1 && a[k - 2] >= a[k - 1]) { return false; }
            std::set<I> d;
            for (size_t i = 0; i < k; ++i) { for (size_t j = i + 1; j < k; ++j) { if (!d.insert(a[j] - a[i]).second) { return false; } } }
            return true;
        }, [&](auto const &a) {
            if (in.optimize) { in.best = in.best == UNDEF ? a.back() : std::min(in.best, a.back()); } else { in.want.push_back(key({}, a)); }
        });
        return in;
    });
}

// word + word = word in some base, distinct letters, no leading zeros
void crypto(Ctx &ctx, std::vector<Conf> const &cs, std::vector<int> const &len, std::vector<int> const &letters, int base, int enc) {
    test(ctx, cs, [&] {
        Instance in;
        int n = *std::max_element(letters.begin(), letters.end()) + 1;
        std::string ls, sum, lead;
        for (int i = 0; i < n; ++i) { ls += cat(i ? ";" : "", char('a' + i)); in.vars.emplace_back(1, char('a' + i)); }
        std::vector<std::vector<int>> w(3);
        size_t k = 0;
        for (size_t i = 0; i < 3; ++i) { for (int j = 0; j < len[i]; ++j) { w[i].push_back(letters[k++]); } }
        auto word = [&](std::vector<int> const &x) {
            std::string r;
            I f = 1;
            for (size_t j = x.size(); j-- > 0; f *= base) { r = cat(f, "*", char('a' + x[j]), r.empty() ? "" : enc == 1 ? "; " : " + ", r); }
            return r;
        };
        in.prg = cat("letter(", ls, "). &dom {0..", base - 1, "} = X :- letter(X). ");
        if (enc == 0) { in.prg += "&sum { " + word(w[0]) + "; " + word(w[1]) + " } = " + word(w[2]) + ". &distinct {X : letter(X)}. "; }
        if (enc == 1) {
            for (size_t i = 0; i < 3; ++i) { in.prg += cat("&dom { 0..999 } = w(", i, "). &sum { ", word(w[i]), "; -w(", i, ") } = 0. "); }
            in.prg += "&sum { w(0); w(1) } = w(2). &sum { X; -Y } != 0 :- letter(X), letter(Y), X<Y. ";
        }
        for (size_t i = 0; i < 3; ++i) { in.prg += enc == 0 ? cat("&sum { ", char('a' + w[i][0]), " } != 0. ") : cat(":- &sum { ", char('a' + w[i][0]), " } <= 0. "); }
        all(std::vector<std::pair<I, I>>(static_cast<size_t>(n), {0, base - 1}), [](auto const &a) { return std::find(a.begin(), a.end() - 1, a.back()) == a.end() - 1; }, [&](auto const &a) {
            std::vector<I> v;
            for (auto const &x : w) { I s = 0; for (int c : x) { s = s * base + a[c]; } v.push_back(s); if (a[x[0]] == 0) { return; } }
            if (v[0] + v[1] == v[2]) { in.want.push_back(key({}, a)); }
        });
        return in;
    });
}

void colours(Ctx &ctx, std::vector<Conf> const &cs, int n, unsigned graph, int k, int enc) {
    test(ctx, cs, [&] {
        Instance in;
        std::vector<std::pair<int, int>> es;
        unsigned b = 0;
        for (int i = 0; i < n; ++i) { for (int j = i + 1; j < n; ++j) { if ((graph >> b++) & 1) { es.emplace_back(i, j); } } }
        in.prg = cat("&dom { 1..", k, " } = c(0..", n - 1, "). ");
        in.prg = "";
        for (int i = 0; i < n; ++i) { in.prg += cat("&dom { 1..", k, " } = c(", i, "). "); in.vars.push_back(cat("c(", i, ")")); }
        for (auto [i, j] : es) {
            switch (enc) {
                case 0: in.prg += cat("&sum { c(", i, ") } != c(", j, "). "); break;
                case 1: in.prg += cat("&distinct { c(", i, "); c(", j, ") }. "); break;
                case 2: in.prg += cat(":- &sum { c(", i, ") - c(", j, ") } = 0. "); break;
                case 3: in.prg += cat("&disjoint { c(", i, ")@1; c(", j, ")@1 }. "); break;
                case 4: in.prg += cat("{ o(", i, ",", j, ") }. &diff { c(", i, ") - c(", j, ") } <= -1 :- o(", i, ",", j, "). &diff { c(", j, ") - c(", i, ") } <= -1 :- not o(", i, ",", j, "). "); break;
                case 5: in.prg += cat("&nsum { c(", i, ")*c(", j, "); -s(", i, ",", j, ") } = 0. &nsum { c(", i, ")*c(", i, "); -s(", i, ",", j, ") } != 0. "); break;
            }
        }
        if (enc == 6) { in.optimize = true; for (auto [i, j] : es) { in.prg += cat("&sum { c(", i, ") } != c(", j, "). "); } for (int i = 0; i < n; ++i) { in.prg += cat("&sum { c(", i, ") } <= m. "); } in.prg += "&minimize { m }. "; }
        all(std::vector<std::pair<I, I>>(static_cast<size_t>(n), {1, k}), [&](auto const &a) {
            int x = static_cast<int>(a.size()) - 1;
            for (auto [i, j] : es) { if (j == x && a[i] == a[x]) { return false; } }
            return true;
        }, [&](auto const &a) {
            if (in.optimize) { I m = *std::max_element(a.begin(), a.end()); in.best = in.best == UNDEF ? m : std::min(in.best, m); } else { in.want.push_back(key({}, a)); }
        });
        return in;
    });
}

// 3x3 magic squares with a hint
void magic(Ctx &ctx, std::vector<Conf> const &cs, int cell, int val, int enc) {
    test(ctx, cs, [&] {
        Instance in;
        in.prg = cat("&dom { 1..9 } = x(I,J) :- I=1..3, J=1..3. &distinct { x(I,J) : I=1..3, J=1..3 }. ",
                     enc == 0 ? "&sum { x(I,J) : J=1..3 } = 15 :- I=1..3. &sum { x(I,J) : I=1..3 } = 15 :- J=1..3. &sum { x(I,I) : I=1..3 } = 15. &sum { x(I,4-I) : I=1..3 } = 15. "
                              : "&dom { 6..24 } = s. &sum { x(I,J) : J=1..3 } = s :- I=1..3. &sum { x(I,J) : I=1..3 } = s :- J=1..3. &sum { x(I,I) : I=1..3 } = s. &sum { x(I,4-I) : I=1..3 } = s. ");
        in.prg += enc == 0 ? cat("&sum { x(", cell / 3 + 1, ",", cell % 3 + 1, ") } = ", val, ". ") : cat(":- not &sum { x(", cell / 3 + 1, ",", cell % 3 + 1, ") } = ", val, ". ");
        for (int i = 1; i <= 3; ++i) { for (int j = 1; j <= 3; ++j) { in.vars.push_back(cat("x(", i, ",", j, ")")); } }
        int const base[9] = {2, 7, 6, 9, 5, 1, 4, 3, 8};
        for (int f = 0; f < 8; ++f) {
            std::vector<I> a;
            for (int i = 0; i < 3; ++i) {
                for (int j = 0; j < 3; ++j) {
                    int r = i, c = j;
                    if (f & 1) { std::swap(r, c); }
                    if (f & 2) { r = 2 - r; }
                    if (f & 4) { c = 2 - c; }
                    a.push_back(base[r * 3 + c]);
                }
            }
            if (a[cell] == val) { in.want.push_back(key({}, a)); }
        }
        return in;
    });
}

// x*y = n
void factors(Ctx &ctx, std::vector<Conf> const &cs, I n, I lo, I hi, int enc) {
    test(ctx, cs, [&] {
        Instance in;
        in.vars = {"x", "y"};
        in.prg = cat("&dom { ", lo < 0 ? cat("(", lo, ")") : cat(lo), "..", hi, " } = x. &dom { ", lo < 0 ? cat("(", lo, ")") : cat(lo), "..", hi, " } = y. ");
        auto num = n < 0 ? cat("(", n, ")") : cat(n);
        switch (enc) {
            case 0: in.prg += cat("&nsum { x*y } = ", num, "."); break;
            case 1: in.prg += cat("&nsum { x*y } >= ", num, ". &nsum { y*x } <= ", num, "."); break;
            case 2: in.prg += cat("&nsum { x*y; -z } = 0. &sum { z } = ", num, "."); break;
            case 3: in.prg += cat("{ a }. :- &nsum { x*y } = ", num, ", not a. :- a, &nsum { x*y } != ", num, "."); in.preds = {"a"}; break;
        }
        all({{lo, hi}, {lo, hi}}, [](auto const &) { return true; }, [&](auto const &a) {
            bool is = a[0] * a[1] == n;
            if (enc == 3) { in.want.push_back(key(is ? std::vector<std::string>{"a"} : std::vector<std::string>{}, a)); }
            else if (is) { in.want.push_back(key({}, a)); }
        });
        return in;
    });
}

void triples(Ctx &ctx, std::vector<Conf> const &cs, I n, int enc) {
    test(ctx, cs, [&] {
        Instance in;
        in.vars = {"x", "y", "z"};
        in.prg = cat("&dom { 1..", n, " } = x. &dom { 1..", n, " } = y. &dom { 1..", n, " } = z. ");
        in.prg += enc == 0 ? cat("sq(x;y;z). &nsum { X*X; -q(X) } = 0 :- sq(X). &sum { q(x); q(y) } = q(z). &sum { x } <= y.")
                           : cat("&dom { 0..", 2 * n * n, " } = s. &nsum { z*z; -s } = 0. &nsum { x*x; -u } = 0. &sum { u; t } = s. &nsum { y*y; -t } = 0. &dom { 0..", n * n, " } = t. &dom { 0..", n * n, " } = u. :- &sum { x } > y.");
        all({{1, n}, {1, n}, {1, n}}, [](auto const &) { return true; }, [&](auto const &a) { if (a[0] <= a[1] && a[0] * a[0] + a[1] * a[1] == a[2] * a[2]) { in.want.push_back(key({}, a)); } });
        return in;
    });
}

// moving along a line
void move(Ctx &ctx, std::vector<Conf> const &cs, int end, int size, I goal, int enc) {
    test(ctx, cs, [&] {
        Instance in;
        in.prg = cat("#const end=", end, ". #const stepsize=", size, ". step(0..end). ");
        in.prg += enc == 0 ? "&dom { 0..T*stepsize } = at(T) :- step(T). " : "&sum { at(T) } <= T*stepsize :- step(T). &sum { at(T) } >= 0 :- step(T). ";
        in.prg += "&sum {at(0)} = 0. {move(T)} :- step(T); T > 0. &sum {at(T-1); stepsize} = at(T) :- move(T). &sum {at(T-1)} = at(T) :- not move(T); step(T); step(T-1). ";
        in.prg += enc == 2 ? cat("&maximize { at(end) }. :- &sum { at(end) } > ", goal, ".") : cat(":- &sum {at(end)} <= ", goal, ".");
        in.preds = {"move"};
        for (int t = 0; t <= end; ++t) { in.vars.push_back(cat("at(", t, ")")); }
        in.optimize = enc == 2;
        for (unsigned m = 0; m < (1U << end); ++m) {
            std::vector<std::string> as;
            std::vector<I> v{0};
            for (int t = 1; t <= end; ++t) {
                bool mv = ((m >> (t - 1)) & 1) != 0;
                if (mv) { as.push_back(cat("move(", t, ")")); }
                v.push_back(v.back() + (mv ? size : 0));
            }
            if (in.optimize) { if (v.back() <= goal) { in.best = in.best == UNDEF ? -v.back() : std::min(in.best, -v.back()); } }
            else if (v.back() > goal) { in.want.push_back(key(as, v)); }
        }
        return in;
    });
}

void knapsack(Ctx &ctx, std::vector<Conf> const &cs, std::vector<I> const &w, std::vector<I> const &p, I cap, I copies, int enc) {
    test(ctx, cs, [&] {
        Instance in;
        int n = static_cast<int>(w.size());
        for (int i = 0; i < n; ++i) { in.prg += cat("item(", i, ",", w[i], ",", p[i], "). "); in.vars.push_back(cat("x(", i, ")")); }
        in.prg += cat("&dom { 0..", copies, " } = x(I) :- item(I,_,_). &sum { W*x(I) : item(I,W,_) } <= ", cap, ". ");
        in.optimize = true;
        switch (enc) {
            case 0: in.prg += "&maximize { P*x(I) : item(I,_,P) }."; break;
            case 1: in.prg += "&minimize { -P*x(I) : item(I,_,P) }."; break;
            case 2: in.prg += "&sum { P*x(I) : item(I,_,P) } = v. &maximize { v }."; break;
        }
        all(std::vector<std::pair<I, I>>(static_cast<size_t>(n), {0, copies}), [](auto const &) { return true; }, [&](auto const &a) {
            I s = 0, v = 0;
            for (int i = 0; i < n; ++i) { s += w[i] * a[i]; v += p[i] * a[i]; }
            if (s <= cap) { in.best = in.best == UNDEF ? -v : std::min(in.best, -v); }
        });
        return in;
    });
}

// permutations of 0..n-1 whose neighbours have different distances
void series(Ctx &ctx, std::vector<Conf> const &cs, int n, int enc) {
    test(ctx, cs, [&] {
        Instance in;
        in.prg = cat("i(0..", n - 1, "). &dom { 0..", n - 1, " } = x(I) :- i(I). &distinct { x(I) : i(I) }. &dom { 1..", n - 1, " } = d(I) :- i(I), I>0. &distinct { d(I) : i(I), I>0 }. ");
        if (enc == 0) { in.prg += "up(I) :- i(I), I>0, &sum { x(I); -x(I-1) } > 0. &sum { x(I); -x(I-1) } = d(I) :- up(I). &sum { x(I-1); -x(I) } = d(I) :- i(I), I>0, not up(I). "; }
        else { in.prg += "{ up(I) } :- i(I), I>0. &sum { x(I-1); d(I) } = x(I) :- up(I). &sum { x(I-1) } = x(I) + d(I) :- i(I), I>0, not up(I). "; }
        for (int i = 0; i < n; ++i) { in.vars.push_back(cat("x(", i, ")")); }
        all(std::vector<std::pair<I, I>>(static_cast<size_t>(n), {0, n - 1}), [](auto const &a) {
            std::set<I> d;
            for (size_t i = 0; i + 1 < a.size(); ++i) { if (a[i] == a.back() || !d.insert(std::abs(a[i + 1] - a[i])).second) { return false; } }
            return true;
        }, [&](auto const &a) { in.want.push_back(key({}, a)); });
        return in;
    });
}

// x(j) is the number of occurrences of j
void sequence(Ctx &ctx, std::vector<Conf> const &cs, int n, int enc) {
    test(ctx, cs, [&] {
        Instance in;
        in.prg = cat("i(0..", n - 1, "). &dom { 0..", n - 1, " } = x(I) :- i(I). &dom { 0..1 } = o(I,J) :- i(I), i(J). &sum { o(I,J) : i(I) } = x(J) :- i(J). ");
        if (enc == 0) { in.prg += "is(I,J) :- i(I), i(J), &sum { x(I) } = J. &sum { o(I,J) } = 1 :- is(I,J). &sum { o(I,J) } = 0 :- i(I), i(J), not is(I,J). "; }
        if (enc == 1) { in.prg += "&sum { o(I,J) : i(J) } = 1 :- i(I). &sum { J*o(I,J) : i(J) } = x(I) :- i(I). "; }
        if (enc == 2) { in.prg += "1 { is(I,J) : i(J) } 1 :- i(I). &sum { x(I) } = J :- is(I,J). &sum { o(I,J) } = 1 :- is(I,J). &sum { o(I,J) } < 1 :- i(I), i(J), not is(I,J). &sum { I*x(I) : i(I) } = " + cat(n, ". "); }
        for (int i = 0; i < n; ++i) { in.vars.push_back(cat("x(", i, ")")); }
        all(std::vector<std::pair<I, I>>(static_cast<size_t>(n), {0, n - 1}), [](auto const &) { return true; }, [&](auto const &a) {
            for (size_t j = 0; j < a.size(); ++j) { if (std::count(a.begin(), a.end(), static_cast<I>(j)) != a[j]) { return; } }
            in.want.push_back(key({}, a));
        });
        return in;
    });
}

// }}}

void c40(Ctx &ctx) {
    bool T = ctx.thorough();
    auto cs = confs(-50, 1000);
    auto small = std::vector<Conf>{cs[0], cs[2], cs[4], cs[6], cs[7]};
    auto const &few = T ? cs : small;
    for (auto [n, m] : {std::pair{2, 2}}) { flows(ctx, cs, n, m, T ? 3 : 2, 1, T ? std::vector<I>{-1, 0, 1, 2} : std::vector<I>{-1, 0, 1}); }
    flows(ctx, few, 3, 2, 2, T ? 1 : 17, {-1, 0});
    flows(ctx, few, 2, 3, 2, T ? 1 : 17, {-1, 0, 1});
    if (T) { flows(ctx, few, 3, 3, 2, 97, {0}); }
    for (int n = 1; n <= (T ? 7 : 6); ++n) { for (int e = 0; e < 4; ++e) { queens(ctx, cs, n, e); } }
    for (int o = 1; o <= (T ? 6 : 5); ++o) { for (int l = o; l <= (T ? 15 : 12); ++l) { for (int e = 0; e < 4; ++e) { if (o > 1 || e > 2) { golomb(ctx, few, o, l, e); } } } }
    for (auto const &len : std::vector<std::vector<int>>{{1, 1, 1}, {1, 1, 2}, {2, 1, 2}, {2, 2, 2}, {2, 2, 3}}) {
        size_t total = static_cast<size_t>(len[0] + len[1] + len[2]);
        int k = 0;
        std::vector<int> letters;
        std::function<void(int)> rec = [&](int used) {
            if (letters.size() == total) {
                int step = T || total < 6 ? 1 : total == 6 ? 5 : 23;
                if (k++ % step == 0) { for (int base : {4, 5, 7, 10}) { if (used <= base && (T || base < 10 || k % 4 == 0)) { for (int e = 0; e < 2; ++e) { crypto(ctx, few, len, letters, base, e); } } } }
                return;
            }
            for (int c = 0; c <= used && c < (T ? 6 : 5); ++c) { letters.push_back(c); rec(std::max(used, c + 1)); letters.pop_back(); }
        };
        rec(0);
    }
    for (unsigned g = 0; g < 64; ++g) { for (int k = 1; k <= 4; ++k) { for (int e = 0; e < 7; ++e) { if (e != 4 || k < 4) { colours(ctx, few, 4, g, k, e); } } } }
    if (T) { for (unsigned g = 0; g < 1024; ++g) { for (int k = 2; k <= 3; ++k) { for (int e : {0, 1, 2, 3, 6}) { colours(ctx, few, 5, g, k, e); } } } }
    for (int c = 0; c < 9; ++c) { for (int v = 1; v <= 9; ++v) { for (int e = 0; e < 2; ++e) { if (T || (c + v + e) % 4 == 0) { magic(ctx, small, c, v, e); } } } }
    for (I n : T ? range(-40, 60) : std::vector<I>{-12, -7, -1, 0, 1, 6, 11, 12, 24, 30}) {
        for (auto [lo, hi] : std::vector<std::pair<I, I>>{{1, 12}, {-6, 6}, {-12, 3}, {2, 9}}) { for (int e = 0; e < 4; ++e) { factors(ctx, cs, n, lo, hi, e); } }
    }
    for (I n : T ? std::vector<I>{5, 8, 10, 12, 13} : std::vector<I>{4, 5, 10, 13}) { for (int e = 0; e < 2; ++e) { triples(ctx, few, n, e); } }
    for (int end = 1; end <= (T ? 7 : 5); ++end) { for (int s : {1, 2, 7}) { for (I g : {I{0}, I{s}, I{2 * s}, I{2 * s + 1}, I{end * s - 1}, I{end * s}}) { for (int e = 0; e < 3; ++e) { move(ctx, cs, end, s, g, e); } } } }
    product({{1, 2, 3}, {2, 3, 5}, {3, 4}, {1, 4}, {2, 5}, T ? range(0, 12) : std::vector<I>{0, 5, 8}}, [&](auto const &v) {
        for (int e = 0; e < 3; ++e) { knapsack(ctx, few, {v[0], v[1], v[2]}, {v[3], v[4], 3}, v[5], T ? 3 : 2, e); }
    });
    for (int n = 2; n <= (T ? 7 : 6); ++n) { for (int e = 0; e < 2; ++e) { series(ctx, few, n, e); } }
    for (int n = 2; n <= (T ? 6 : 5); ++n) { for (int e = 0; e < 3; ++e) { sequence(ctx, few, n, e); } }
}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    if (id == "C40") { return run_check(program_check(id, "every instance of bounded size of the problems (flow shops in five encodings, queens, golomb rulers, cryptarithms, graph colouring, magic squares and sequences, factorisation, Pythagorean triples, planning, knapsacks, all-interval series) in all encodings; each solved to exhaustion under up to 9 configurations and compared with a direct search", c40), argc, argv); }
    return 2;
}
