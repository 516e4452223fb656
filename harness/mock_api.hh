// Definitions of the clingo functions used by propagators (they shadow the
// ones of the clingo library in the executable) and the search procedure.
#pragma once
#include "mock.hh"

namespace V::mock {
bool mocking = false;
bool mock_on = true;
Mock *cur = nullptr;
struct Captured { clingo_propagator_t p{}; void *data{nullptr}; bool set{false}; } captured;
struct MModel { Thr *t; std::vector<clingo_symbol_t> syms; };
inline Thr *T(clingo_assignment_t const *a) { return const_cast<Thr *>(reinterpret_cast<Thr const *>(a)); }
inline Thr *T(clingo_propagate_control_t const *a) { return const_cast<Thr *>(reinterpret_cast<Thr const *>(a)); }
inline Mock *M(clingo_propagate_init_t const *a) { return const_cast<Mock *>(reinterpret_cast<Mock const *>(a)); }
// translates exceptions of the monitors for the C interface
template <class F> bool guard(F &&f) {
    try { f(); return true; }
    catch (...) { Clingo::Detail::handle_cxx_error(); throw; }
}
} // namespace V::mock

using namespace V::mock;
using V::cat;

// without mock the real functions are called
#define REAL(f, ...) if (!mock_on) { static auto real = reinterpret_cast<decltype(&f)>(dlsym(RTLD_NEXT, #f)); return real(__VA_ARGS__); }

extern "C" {

bool clingo_control_register_propagator(clingo_control_t *p0, clingo_propagator_t const *p, void *data, bool p3) { REAL(clingo_control_register_propagator, p0, p, data, p3)
    if (mocking) { captured.p = *p; captured.data = data; captured.set = true; }
    return true;
}
bool clingo_control_add(clingo_control_t *ctl, char const *name, char const *const *params, size_t n, char const *part) { REAL(clingo_control_add, ctl, name, params, n, part)
    if (mocking) { return true; }
    static auto real = reinterpret_cast<decltype(&clingo_control_add)>(dlsym(RTLD_NEXT, "clingo_control_add"));
    return real(ctl, name, params, n, part);
}

uint32_t clingo_assignment_decision_level(clingo_assignment_t const *a) { REAL(clingo_assignment_decision_level, a) return static_cast<uint32_t>(T(a)->level()); }
uint32_t clingo_assignment_root_level(clingo_assignment_t const *a) { REAL(clingo_assignment_root_level, a) return static_cast<uint32_t>(std::min(T(a)->m->root, T(a)->level())); }
bool clingo_assignment_has_conflict(clingo_assignment_t const *a) { REAL(clingo_assignment_has_conflict, a) return T(a)->conflict; }
bool clingo_assignment_has_literal(clingo_assignment_t const *a, clingo_literal_t l) { REAL(clingo_assignment_has_literal, a, l) return l != 0 && std::abs(l) <= T(a)->nvars(); }
bool clingo_assignment_level(clingo_assignment_t const *a, clingo_literal_t l, uint32_t *r) { REAL(clingo_assignment_level, a, l, r)
    if (!clingo_assignment_has_literal(a, l)) { clingo_set_error(clingo_error_runtime, "invalid literal"); return false; }
    *r = static_cast<uint32_t>(T(a)->lev[static_cast<size_t>(std::abs(l))]);
    return true;
}
bool clingo_assignment_decision(clingo_assignment_t const *a, uint32_t l, clingo_literal_t *r) { REAL(clingo_assignment_decision, a, l, r) *r = l == 0 ? 1 : T(a)->decisions.at(l - 1); return true; }
bool clingo_assignment_truth_value(clingo_assignment_t const *a, clingo_literal_t l, clingo_truth_value_t *r) { REAL(clingo_assignment_truth_value, a, l, r)
    if (!clingo_assignment_has_literal(a, l)) { clingo_set_error(clingo_error_runtime, "invalid literal"); return false; }
    int v = T(a)->value(l);
    *r = v > 0 ? clingo_truth_value_true : v < 0 ? clingo_truth_value_false : clingo_truth_value_free;
    return true;
}
bool clingo_assignment_is_fixed(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { REAL(clingo_assignment_is_fixed, a, l, r)
    clingo_truth_value_t v = 0;
    if (!clingo_assignment_truth_value(a, l, &v)) { return false; }
    *r = v != clingo_truth_value_free && T(a)->lev[static_cast<size_t>(std::abs(l))] == 0;
    return true;
}
bool clingo_assignment_is_true(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { REAL(clingo_assignment_is_true, a, l, r)
    clingo_truth_value_t v = 0;
    if (!clingo_assignment_truth_value(a, l, &v)) { return false; }
    *r = v == clingo_truth_value_true;
    return true;
}
bool clingo_assignment_is_false(clingo_assignment_t const *a, clingo_literal_t l, bool *r) { REAL(clingo_assignment_is_false, a, l, r)
    clingo_truth_value_t v = 0;
    if (!clingo_assignment_truth_value(a, l, &v)) { return false; }
    *r = v == clingo_truth_value_false;
    return true;
}
size_t clingo_assignment_size(clingo_assignment_t const *a) { REAL(clingo_assignment_size, a) return T(a)->val.size() - 1; }
bool clingo_assignment_at(clingo_assignment_t const *p0, size_t offset, clingo_literal_t *r) { REAL(clingo_assignment_at, p0, offset, r) *r = static_cast<int>(offset) + 1; return true; }
bool clingo_assignment_is_total(clingo_assignment_t const *a) { REAL(clingo_assignment_is_total, a) return T(a)->total(); }
bool clingo_assignment_trail_size(clingo_assignment_t const *a, uint32_t *r) { REAL(clingo_assignment_trail_size, a, r) *r = static_cast<uint32_t>(T(a)->trail.size()); return true; }
bool clingo_assignment_trail_begin(clingo_assignment_t const *a, uint32_t level, uint32_t *r) { REAL(clingo_assignment_trail_begin, a, level, r) *r = static_cast<uint32_t>(T(a)->lim.at(level)); return true; }
bool clingo_assignment_trail_end(clingo_assignment_t const *a, uint32_t level, uint32_t *r) { REAL(clingo_assignment_trail_end, a, level, r)
    auto *t = T(a);
    *r = static_cast<uint32_t>(level + 1 < t->lim.size() ? t->lim[level + 1] : t->trail.size());
    return true;
}
bool clingo_assignment_trail_at(clingo_assignment_t const *a, uint32_t offset, clingo_literal_t *r) { REAL(clingo_assignment_trail_at, a, offset, r) *r = T(a)->trail.at(offset); return true; }

bool clingo_propagate_init_solver_literal(clingo_propagate_init_t const *i, clingo_literal_t l, clingo_literal_t *r) { REAL(clingo_propagate_init_solver_literal, i, l, r) *r = M(i)->glit(l); return true; }
bool clingo_propagate_init_add_watch(clingo_propagate_init_t *i, clingo_literal_t l) { REAL(clingo_propagate_init_add_watch, i, l)
    auto &t = M(i)->th[0];
    M(i)->note(cat("init: watch ", l));
    if (M(i)->watches.insert(l).second) { M(i)->events.push_back({l, {}, {}}); }
    auto &w = t.watch.at(Thr::idx(l));
    if (w == 0) {
        w = 1;
        auto it = std::find(t.trail.begin(), t.trail.end(), l);
        if (it != t.trail.end() && static_cast<size_t>(it - t.trail.begin()) < t.qhead) { t.ptrail.push_back(l); }
    }
    return true;
}
bool clingo_propagate_init_add_watch_to_thread(clingo_propagate_init_t *i, clingo_literal_t l, clingo_id_t p2) { REAL(clingo_propagate_init_add_watch_to_thread, i, l, p2) return clingo_propagate_init_add_watch(i, l); }
bool clingo_propagate_init_remove_watch(clingo_propagate_init_t *i, clingo_literal_t l) { REAL(clingo_propagate_init_remove_watch, i, l) M(i)->th[0].watch.at(Thr::idx(l)) = 0; M(i)->watches.erase(l); return true; }
bool clingo_propagate_init_freeze_literal(clingo_propagate_init_t *p0, clingo_literal_t p1) { REAL(clingo_propagate_init_freeze_literal, p0, p1) return true; }
bool clingo_propagate_init_theory_atoms(clingo_propagate_init_t const *i, clingo_theory_atoms_t const **r) { REAL(clingo_propagate_init_theory_atoms, i, r) *r = M(i)->g->tatoms; return true; }
int clingo_propagate_init_number_of_threads(clingo_propagate_init_t const *i) { REAL(clingo_propagate_init_number_of_threads, i) return M(i)->nthreads; }
void clingo_propagate_init_set_check_mode(clingo_propagate_init_t *i, clingo_propagator_check_mode_t m) { REAL(clingo_propagate_init_set_check_mode, i, m) M(i)->check_mode = m; }
clingo_propagator_check_mode_t clingo_propagate_init_get_check_mode(clingo_propagate_init_t const *i) { REAL(clingo_propagate_init_get_check_mode, i) return M(i)->check_mode; }
void clingo_propagate_init_set_undo_mode(clingo_propagate_init_t *i, clingo_propagator_undo_mode_t m) { REAL(clingo_propagate_init_set_undo_mode, i, m) M(i)->undo_mode = m; }
clingo_propagator_undo_mode_t clingo_propagate_init_get_undo_mode(clingo_propagate_init_t const *i) { REAL(clingo_propagate_init_get_undo_mode, i) return M(i)->undo_mode; }
clingo_assignment_t const *clingo_propagate_init_assignment(clingo_propagate_init_t const *i) { REAL(clingo_propagate_init_assignment, i) return reinterpret_cast<clingo_assignment_t const *>(&M(i)->th[0]); }
bool clingo_propagate_init_add_literal(clingo_propagate_init_t *i, bool p1, clingo_literal_t *r) { REAL(clingo_propagate_init_add_literal, i, p1, r) *r = M(i)->th[0].add_var(); return true; }
bool clingo_propagate_init_add_clause(clingo_propagate_init_t *i, clingo_literal_t const *c, size_t n, bool *r) { REAL(clingo_propagate_init_add_clause, i, c, n, r)
    auto *m = M(i);
    Lits l(c, c + n);
    m->note("init: clause " + Mock::show(l));
    if (m->th[0].conflict) { *r = false; return true; }
    m->th[0].base.push_back(l);
    m->events.push_back({0, l, {}});
    *r = m->th[0].add_clause(l, false);
    return true;
}
bool clingo_propagate_init_add_weight_constraint(clingo_propagate_init_t *i, clingo_literal_t l, clingo_weighted_literal_t const *ls, size_t n, clingo_weight_t bound, clingo_weight_constraint_type_t type, bool eq, bool *r) { REAL(clingo_propagate_init_add_weight_constraint, i, l, ls, n, bound, type, eq, r)
    if (eq) { throw Bug("unsupported weight constraint"); }
    auto &t = M(i)->th[0];
    WC w{l, {ls, ls + n}, bound, type};
    for (auto &x : w.lits) {
        // make weights positive
        if (x.weight < 0) { x.literal = -x.literal; x.weight = -x.weight; w.bound += x.weight; }
    }
    // a literal may occur repeatedly or in both signs, which the evaluation copes with
    if (M(i)->logging) { std::string s; for (auto const &x : w.lits) { s += cat(" ", x.literal, "=", x.weight); } M(i)->note(cat("init: weight constraint ", w.lit, w.type < 0 ? " <= " : w.type > 0 ? " => " : " == ", w.bound, " <=", s)); }
    t.wcs.push_back(w);
    M(i)->events.push_back({0, {}, w});
    t.eval(t.wcs.back());
    *r = !t.conflict;
    return true;
}
bool clingo_propagate_init_add_minimize(clingo_propagate_init_t *i, clingo_literal_t l, clingo_weight_t w, clingo_weight_t p) { REAL(clingo_propagate_init_add_minimize, i, l, w, p)
    if (!M(i)->allow_minimize) { clingo_set_error(clingo_error_runtime, "minimize not supported by the mock"); return false; }
    M(i)->minimize.push_back({l, w, p});
    return true;
}
bool clingo_propagate_init_propagate(clingo_propagate_init_t *i, bool *r) { REAL(clingo_propagate_init_propagate, i, r) *r = !M(i)->th[0].conflict && M(i)->th[0].unit(); return true; }

// Note: the functions that only read the assignment touch nothing shared.
clingo_id_t clingo_propagate_control_thread_id(clingo_propagate_control_t const *c) { REAL(clingo_propagate_control_thread_id, c) return T(c)->id; }
clingo_assignment_t const *clingo_propagate_control_assignment(clingo_propagate_control_t const *c) { REAL(clingo_propagate_control_assignment, c) return reinterpret_cast<clingo_assignment_t const *>(T(c)); }
bool clingo_propagate_control_add_literal(clingo_propagate_control_t *c, clingo_literal_t *r) { REAL(clingo_propagate_control_add_literal, c, r)
    auto *t = T(c);
    t->m->yield();
    Unmonitored guard;
    *r = t->add_var();
    ++t->naux;
    return true;
}
bool clingo_propagate_control_add_watch(clingo_propagate_control_t *c, clingo_literal_t l) { REAL(clingo_propagate_control_add_watch, c, l)
    auto *t = T(c);
    t->watch.at(Thr::idx(l)) = 1;
    return true;
}
bool clingo_propagate_control_has_watch(clingo_propagate_control_t const *c, clingo_literal_t l) { REAL(clingo_propagate_control_has_watch, c, l) return T(c)->watch.at(Thr::idx(l)) != 0; }
void clingo_propagate_control_remove_watch(clingo_propagate_control_t *c, clingo_literal_t l) { REAL(clingo_propagate_control_remove_watch, c, l) T(c)->watch.at(Thr::idx(l)) = 0; }
bool clingo_propagate_control_add_clause(clingo_propagate_control_t *c, clingo_literal_t const *ls, size_t n, clingo_clause_type_t type, bool *r) { REAL(clingo_propagate_control_add_clause, c, ls, n, type, r)
    auto *t = T(c);
    auto &m = *t->m;
    m.yield();
    Unmonitored guard;
    Lits l(ls, ls + n);
    m.note(cat("thread ", t->id, ": clause (", type, ") ", Mock::show(l)));
    for (int x : l) { if (x == 0 || std::abs(x) > t->nvars()) { m.defer("clause over an unknown literal"); } }
    if (t->state == Thr::UNDO) { m.defer("clause added in undo"); }
    if (t->conflict || t->has_todo) { m.defer("clause added although propagation had to stop"); *r = false; return true; }
    ++t->clauses_added;
    m.check_clause(*t, l);
    bool learnt = type == clingo_clause_type_learnt || type == clingo_clause_type_volatile;
    // volatile clauses hold only in the current step
    if (m.step != 0 && (type & clingo_clause_type_volatile) != 0) { l.push_back(-m.step); }
    *r = t->add_clause(l, learnt);
    return true;
}
bool clingo_propagate_control_propagate(clingo_propagate_control_t *c, bool *r) { REAL(clingo_propagate_control_propagate, c, r)
    auto *t = T(c);
    t->m->yield();
    Unmonitored guard;
    if (t->conflict || t->has_todo) { *r = false; return true; }
    if (t->qhead == t->trail.size()) { *r = true; return true; }
    *r = t->state == Thr::PROP && t->unit();
    return true;
}

bool clingo_model_thread_id(clingo_model_t const *m, clingo_id_t *r) { REAL(clingo_model_thread_id, m, r) *r = reinterpret_cast<MModel const *>(m)->t->id; return true; }
bool clingo_model_extend(clingo_model_t *m, clingo_symbol_t const *s, size_t n) { REAL(clingo_model_extend, m, s, n) auto *x = reinterpret_cast<MModel *>(m); x->syms.insert(x->syms.end(), s, s + n); return true; }

} // extern C

namespace V::mock {

bool Mock::init(std::vector<Sol> const &sols, int threads) {
    want = &sols;
    nthreads = threads;
    mocking = true;
    handle_error(clingcon_create(&theory));
    for (auto const &[k, v] : g->conf.opts) { handle_error(clingcon_configure(theory, k.c_str(), v.c_str())); }
    if (configure) { configure(theory); }
    captured = {};
    handle_error(clingcon_register(theory, nullptr));
    mocking = false;
    if (!captured.set) { throw Bug("no propagator registered"); }
    cb = captured.p;
    data = captured.data;
    th.reserve(64); // references stay valid
    th.emplace_back();
    th[0].m = this;
    blocks.push_back({2, g->nvars, 0});
    nstatic = 1;
    return start(sols, threads);
}

bool Mock::next(Ground const &g2, std::vector<Sol> const &sols, int threads) {
    want = &sols;
    g = &g2;
    note("--- next step");
    stop = false;
    bound.reset();
    idx.clear();
    for (auto &t : th) { t.end_step(nstatic); }
    events.clear();
    watches.clear();
    if (threads < nthreads) { th.resize(static_cast<size_t>(threads)); }
    nthreads = threads;
    th[0].base.resize(nbase);
    if (step != 0) { th[0].base.push_back({-step}); th[0].store({-step}, false); events.push_back({0, {-step}, {}}); if (!th[0].conflict) { th[0].assign(-step); } }
    blocks.push_back({g->first + 1, g->nvars, nstatic - g->first});
    return start(sols, threads);
}

bool Mock::start(std::vector<Sol> const &sols, int threads) {
    auto &t = th[0];
    t.resize(nstatic + g->nvars - std::max(1, g->first));
    for (auto const &gc : g->clauses) {
        auto c = gc;
        for (int &l : c) { l = map(l); }
        note("program: clause " + show(c));
        t.base.push_back(c);
        events.push_back({0, c, {}});
        if (!t.conflict) { t.add_clause(c, false); }
    }
    named.clear();
    for (int l : g->named) { named.push_back(map(l)); }
    bool ok = !t.conflict && t.unit();
    if (ok) {
        cur = this;
        if (!cb.init(reinterpret_cast<clingo_propagate_init_t *>(this), data)) { throw Violation(cat("error in init: ", clingo_error_message())); }
        ok = !t.conflict && t.unit();
    }
    if (root > 0) { step = t.add_var(); }
    nstatic = t.nvars();
    nbase = t.base.size();
    if (root > 0) { t.base.push_back({step}); }
    unsat = !ok;
    if (ok) {
        for (auto const &v : g->vars) {
            size_t i = 0;
            if (!clingcon_lookup_symbol(theory, sym(v).to_c(), &i)) { i = 0; }
            idx.push_back(i);
        }
        for (size_t i = 1; i < static_cast<size_t>(threads); ++i) {
            bool fresh = i >= th.size();
            if (fresh) { th.push_back(t); }
            auto &x = th[i];
            if (absent) {
                // the thread is not started in this step: watches added by init are lost
                if (fresh) { x.id = static_cast<unsigned>(i); std::fill(x.watch.begin(), x.watch.end(), 0); }
                x.absent = true;
                continue;
            }
            if (!fresh && !x.absent) { x.clone(t); continue; }
            // the thread has the watches added by init in this and in steps it took part in and all literals that are true
            auto old = x.watch;
            if (fresh) { old.clear(); } else { x = t; }
            x.id = static_cast<unsigned>(i);
            x.absent = false;
            if (blocks.size() > 1) {
                std::fill(x.watch.begin(), x.watch.end(), 0);
                std::copy_n(old.begin(), std::min(old.size(), x.watch.size()), x.watch.begin());
                for (int l : watches) { x.watch.at(Thr::idx(l)) = 1; }
                x.ptrail.clear();
                x.prop = 0;
                for (size_t j = 0; j < x.qhead; ++j) { if (x.watch[Thr::idx(x.trail[j])] != 0) { x.ptrail.push_back(x.trail[j]); } }
            }
        }
        for (auto &x : th) { x.wit.resize(want->size()); x.dead.resize(want->size()); }
        if (mon.clauses) {
            for (auto &x : th) { for (size_t s = 0; s < want->size() && !x.absent; ++s) { if (!witness(x, s)) { throw Violation(cat("initialization loses solution ", V::show((*want)[s], g->vars))); } } }
        }
    } else if (!want->empty()) {
        throw Violation(cat("initialization conflicts but there is a solution: ", V::show((*want)[0], g->vars)));
    }
    return ok;
}

std::vector<std::pair<I, I>> Mock::bounds(Thr &t) {
    std::vector<std::pair<I, I>> r;
    if (peek_available()) {
        unsigned n = peek_vars(data, t.id);
        for (unsigned i = 0; i < n; ++i) { int l = 0, u = 0; peek_bounds(data, t.id, i, l, u); r.emplace_back(l, u); }
    } else {
        for (size_t i : idx) {
            if (i == 0) { continue; }
            clingcon_value_t v;
            clingcon_assignment_get_value(theory, t.id, i, &v);
            r.emplace_back(v.int_number, 0);
        }
    }
    return r;
}

std::string Mock::bounds_diff(Thr &, std::vector<std::pair<I, I>> const &a, std::vector<std::pair<I, I>> const &b) {
    std::string r;
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
        if (a[i] != b[i]) { r += cat(" variable ", i, " was in [", a[i].first, ",", a[i].second, "] but is in [", b[i].first, ",", b[i].second, "]"); }
    }
    return r;
}

// determines which literals are order literals of which variable
void Mock::learn_meaning(Thr &t) {
    if (!peek_available()) { return; }
    t.meaning.resize(t.val.size(), {-1, 0});
    for (size_t k = 0; k < idx.size(); ++k) {
        if (idx[k] == 0) { continue; }
        I lo = 1000000, hi = -1000000;
        for (auto const &s : *want) { lo = std::min(lo, s.vals[k]); hi = std::max(hi, s.vals[k]); }
        for (I v = lo - 3; v <= hi + 3; ++v) {
            int l = peek_literal(data, t.id, static_cast<unsigned>(idx[k] - 1), static_cast<int>(v));
            if (l != 0 && std::abs(l) != 1) { if (logging && t.meaning[static_cast<size_t>(std::abs(l))].first < 0) { note(cat("literal ", l, ": ", g->vars[k], "<=", v)); }  t.meaning[static_cast<size_t>(std::abs(l))] = {static_cast<int>(k) * 2 + (l < 0), static_cast<int>(v)}; }
        }
    }
}

// extends a solution to all literals
bool Mock::witness(Thr &t, size_t s) {
    learn_meaning(t);
    auto const &sol = (*want)[s];
    Thr x;
    x.m = this;
    x.resize(t.nvars());
    x.wcs = t.wcs;
    for (auto const &c : t.base) {
        Lits r = c;
        std::sort(r.begin(), r.end());
        r.erase(std::unique(r.begin(), r.end()), r.end());
        bool taut = false;
        for (int l : r) { taut = taut || std::binary_search(r.begin(), r.end(), -l); }
        if (!taut) { x.store(r, false); }
    }
    for (auto const &c : x.clauses) { if (!x.conflict) { x.eval(c.lits); } }
    for (size_t i = 0; i < named.size(); ++i) { if (!x.conflict) { x.assign(((sol.mask >> i) & 1) != 0 ? named[i] : -named[i]); } }
    for (size_t v = 0; v < t.meaning.size(); ++v) {
        auto [k, n] = t.meaning[v];
        if (k < 0 || x.conflict) { continue; }
        bool le = sol.vals[static_cast<size_t>(k / 2)] <= n;
        if ((k & 1) != 0) { le = !le; }
        x.assign(le ? static_cast<int>(v) : -static_cast<int>(v));
    }
    for (auto const &w : x.wcs) { if (!x.conflict) { x.eval(w); } }
    std::function<bool()> rec = [&]() {
        if (x.conflict || !x.unit()) { return false; }
        int f = 0;
        for (int v = 1; v <= x.nvars(); ++v) { if (x.val[static_cast<size_t>(v)] == 0) { f = v; break; } }
        if (f == 0) { return true; }
        for (int sg : {-1, 1}) {
            auto val = x.val;
            auto n = x.trail.size();
            x.assign(sg * f);
            if (rec()) { return true; }
            x.val = val;
            x.trail.resize(n);
            x.qhead = n;
            x.conflict = false;
        }
        return false;
    };
    if (!rec()) { return false; }
    t.wit[s] = x.val;
    return true;
}

void Mock::check_clause(Thr &t, Lits const &c) {
    t.base.push_back(c);
    if (!mon.clauses) { return; }
    bool known = true;
    for (int l : c) { if (static_cast<size_t>(std::abs(l)) >= t.meaning.size()) { known = false; } }
    if (!known) { learn_meaning(t); }
    for (size_t s = 0; s < want->size(); ++s) {
        if (t.dead[s] != 0 || (bound && (*cost)[s] >= *bound)) { continue; }
        auto &w = t.wit[s];
        if (w.size() < t.val.size()) {
            size_t n = w.size();
            w.resize(t.val.size(), 0);
            for (size_t v = n; v < w.size(); ++v) {
                if (v < t.meaning.size() && t.meaning[v].first >= 0) {
                    auto [k, num] = t.meaning[v];
                    bool le = (*want)[s].vals[static_cast<size_t>(k / 2)] <= num;
                    w[v] = le != ((k & 1) != 0) ? 1 : -1;
                }
            }
        }
        bool sat = false;
        for (int l : c) { int v = w[static_cast<size_t>(std::abs(l))]; if ((l > 0 ? v : -v) > 0) { sat = true; break; } }
        ctx->count(CLAUSES);
        if (!sat && !witness(t, s)) {
            std::string txt;
            for (int l : c) {
                auto v = static_cast<size_t>(std::abs(l));
                txt += txt.empty() ? "" : ", ";
                if (v < t.meaning.size() && t.meaning[v].first >= 0) {
                    auto [k, num] = t.meaning[v];
                    bool le = (l > 0) != ((k & 1) != 0);
                    txt += cat(g->vars[static_cast<size_t>(k / 2)], le ? "<=" : ">", num);
                } else {
                    txt += cat(l);
                }
            }
            defer(cat("clause {", txt, "} is not implied, it loses the solution ", V::show((*want)[s], g->vars)));
            return;
        }
    }
}

bool Mock::handle_todo(Thr &t) {
    check_deferred();
    if (t.conflict) { return false; }
    if (t.has_todo) {
        int max = 0, second = 0, nfree = 0;
        for (int l : t.todo) {
            if (t.value(l) == 0) { ++nfree; continue; }
            int k = t.lev[static_cast<size_t>(std::abs(l))];
            if (k >= max) { second = max; max = k; } else if (k > second) { second = k; }
        }
        Lits c = t.todo;
        bool forget = t.todo_forget;
        t.has_todo = false;
        t.undo_to(std::max(std::min(root, t.level()), nfree > 0 ? max : second));
        t.store(c, forget && c.size() > 1);
        t.eval(c);
    }
    return !t.conflict;
}

bool Mock::fixpoint(Thr &t) {
    bool force = std::exchange(t.force, false);
    while (true) {
        if (++steps > max_steps) { throw Violation("search does not terminate"); }
        if (!t.unit()) { return false; }
        if (t.prop < t.ptrail.size()) {
            size_t n = single ? 1 : t.ptrail.size() - t.prop;
            // changes of one call belong to one level
            Lits changes(t.ptrail.begin() + static_cast<long>(t.prop), t.ptrail.begin() + static_cast<long>(t.prop + n));
            t.prop += n;
            note(cat("thread ", t.id, ": propagate ", show(changes), " on level ", t.level()));
            t.state = Thr::PROP;
            yield();
            enter(t);
            bool ok = cb.propagate(reinterpret_cast<clingo_propagate_control_t *>(&t), changes.data(), changes.size(), data);
            leave(t);
            t.state = Thr::IDLE;
            check_deferred();
            if (!ok) { throw Violation(cat("error in propagate: ", clingo_error_message())); }
            ctx->count(TRANS);
        } else if (force || ((check_mode & 2) != 0 && t.front < t.trail.size())) {
            force = false;
            t.front = t.trail.size();
            note(cat("thread ", t.id, ": check on level ", t.level()));
            t.state = Thr::PROP;
            yield();
            enter(t);
            bool ok = cb.check(reinterpret_cast<clingo_propagate_control_t *>(&t), data);
            leave(t);
            t.state = Thr::IDLE;
            check_deferred();
            if (!ok) { throw Violation(cat("error in check: ", clingo_error_message())); }
            ctx->count(TRANS);
        } else {
            return true;
        }
        if (!handle_todo(t)) { return false; }
    }
}

void Mock::resolve(Thr &t, bool model) {
    int k = t.level();
    Lits nogood;
    for (int d : t.decisions) { nogood.push_back(-d); }
    // 0: chronological, 1..k-1: jump to level 0..k-2, k: restart and forget learnt clauses (levels above the root level)
    k -= root;
    int c = ch->choose(k + 1);
    int target = root + (c == 0 ? k - 1 : c < k ? c - 1 : 0);
    note(cat("thread ", t.id, model ? ": model" : ": conflict", " on level ", t.level(), ", back to ", target, c == k ? " forgetting learnt clauses" : ""));
    t.undo_to(target);
    if (c == k) {
        std::vector<Thr::Clause> keep;
        for (auto &x : t.clauses) { if (!x.forget) { keep.push_back(std::move(x)); } }
        t.clauses = std::move(keep);
        t.rebuild();
    }
    t.store(nogood, false);
    t.eval(nogood);
}

Sol Mock::solution(Thr &t) {
    Sol s{0, {}};
    for (size_t i = 0; i < named.size(); ++i) { if (t.value(named[i]) > 0) { s.mask |= 1ULL << i; } }
    for (size_t i : idx) {
        if (i == 0) { s.vals.push_back(UNDEF); continue; }
        clingcon_value_t v;
        clingcon_assignment_get_value(theory, t.id, i, &v);
        s.vals.push_back(v.int_number);
    }
    return s;
}

void Mock::search(Thr &t, std::function<bool(Thr &, Sol const &)> const &model) {
    while (!stop) {
        yield();
        if (stop) { return; }
        if (!fixpoint(t)) {
            if (t.level() <= root) { t.done = true; return; }
            resolve(t, false);
            continue;
        }
        if (t.level() < root) {
            // the step literal is an assumption
            if (t.value(step) < 0) { t.done = true; return; }
            note(cat("thread ", t.id, ": assume ", step));
            if (mon.restore) { t.snap.resize(static_cast<size_t>(t.level())); t.snap.push_back(bounds(t)); }
            t.lim.push_back(t.trail.size());
            t.decisions.push_back(step);
            t.assign(step);
            continue;
        }
        if (mon.state) { mon.state(t); }
        if (t.total()) {
            // as in clasp, the total check is a forced check followed by propagation
            acquire(t);
            if (stop) { release(t); return; }
            if ((check_mode & 1) != 0) {
                note(cat("thread ", t.id, ": total check on level ", t.level()));
                t.force = true;
                if (!fixpoint(t)) {
                    release(t);
                    if (t.level() <= root) { t.done = true; return; }
                    resolve(t, false);
                    continue;
                }
                if (!t.total()) { release(t); continue; }
            }
            auto s = solution(t);
            note(cat("thread ", t.id, ": model ", V::show(s, g->vars)));
            auto it = std::lower_bound(want->begin(), want->end(), s);
            if (it != want->end() && *it == s) { t.dead[static_cast<size_t>(it - want->begin())] = 1; }
            bool go = model(t, s);
            release(t);
            if (!go) { stop = true; return; }
            if (t.level() <= root) { t.done = true; return; }
            resolve(t, true);
            continue;
        }
        // decide
        Lits cand;
        int n = t.nvars();
        int dflt = 0;
        switch (t.strategy >= 0 ? t.strategy : strategy) {
            case 1: for (int v = 1; v <= n && dflt == 0; ++v) { if (t.value(v) == 0) { dflt = v; } } break;
            case 2: for (int v = n; v >= 1 && dflt == 0; --v) { if (t.value(v) == 0) { dflt = -v; } } break;
            case 3: for (int v = n; v >= 1 && dflt == 0; --v) { if (t.value(v) == 0) { dflt = v; } } break;
            case 4: for (int v = n; v >= 1 && dflt == 0; --v) { if (t.value(v) == 0) { dflt = v % 2 == 0 ? v : -v; } } break;
            case 5: { // from the middle
                int best = 0;
                for (int v = 1; v <= n; ++v) { if (t.value(v) == 0 && (best == 0 || std::abs(v - n / 2) < std::abs(best - n / 2))) { best = v; } }
                dflt = best % 3 == 0 ? best : -best;
                break;
            }
            default: for (int v = 1; v <= n && dflt == 0; ++v) { if (t.value(v) == 0) { dflt = -v; } } break;
        }
        cand.push_back(dflt);
        int back = 0;
        if (ch->pos < ch->depth) {
            for (int v = 1; v <= n; ++v) { for (int l : {-v, v}) { if (t.value(v) == 0 && l != dflt) { cand.push_back(l); } } }
            back = t.level() - root;
        }
        int c = ch->choose(static_cast<int>(cand.size()) + back);
        if (c >= static_cast<int>(cand.size())) {
            int target = root + c - static_cast<int>(cand.size());
            note(cat("thread ", t.id, ": back from level ", t.level(), " to ", target));
            t.undo_to(target);
            continue;
        }
        int d = cand[static_cast<size_t>(c)];
        if (cb.decide != nullptr) {
            clingo_literal_t r = 0;
            enter(t);
            bool ok = cb.decide(t.id, reinterpret_cast<clingo_assignment_t *>(&t), d, data, &r);
            leave(t);
            if (!ok) { throw Violation(cat("error in decide: ", clingo_error_message())); }
            if (r != 0) {
                if (std::abs(r) > t.nvars() || t.value(r) != 0) { throw Violation(cat("decide returns literal ", r, " that is not free")); }
                d = r;
            }
        }
        note(cat("thread ", t.id, ": decide ", d, " on level ", t.level() + 1));
        if (mon.restore) { t.snap.resize(static_cast<size_t>(t.level())); t.snap.push_back(bounds(t)); }
        t.lim.push_back(t.trail.size());
        t.decisions.push_back(d);
        t.assign(d);
        ctx->count(STATES);
    }
}

} // namespace V::mock
