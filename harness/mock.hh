// A controlled solver: clingo's propagator interface implemented on top of a
// small DPLL procedure whose decisions, backjumps, restarts, clause deletions
// and thread switches are all chosen by an exhaustive explorer. The code under
// test (Clingcon::Propagator behind clingcon_register) runs unmodified.
#pragma once
#include <array>
#include "cc.hh"
#include "peek.hh"
#include <dlfcn.h>
#include <utility>
#include <ucontext.h>

namespace V::mock {

using Lits = std::vector<int>;

// accesses of the harness are not monitored
inline int *race_thread = nullptr;
struct Unmonitored {
    int old{race_thread != nullptr ? *race_thread : -1};
    Unmonitored() { if (race_thread != nullptr) { *race_thread = -1; } }
    Unmonitored(Unmonitored const &) = delete;
    ~Unmonitored() { if (race_thread != nullptr) { *race_thread = old; } }
};

struct Bug : std::runtime_error { explicit Bug(std::string const &s) : std::runtime_error(s) {} };

// {{{ ground programs

struct GRule { bool choice; Lits head; Lits body; };

struct Observer : Clingo::GroundProgramObserver {
    std::vector<GRule> rules;
    std::map<std::string, Lits> output;
    void rule(bool choice, Clingo::AtomSpan head, Clingo::LiteralSpan body) override {
        rules.push_back({choice, {head.begin(), head.end()}, {body.begin(), body.end()}});
    }
    void weight_rule(bool, Clingo::AtomSpan, Clingo::weight_t, Clingo::WeightedLiteralSpan) override { throw std::runtime_error("unsupported rule"); }
    void output_atom(Clingo::Symbol s, Clingo::atom_t a) override { output[s.to_string()] = a == 0 ? Lits{} : Lits{static_cast<int>(a)}; }
};

// a clause database with program atoms mapped to solver literals; variable 1 is true
struct Ground {
    Conf conf;
    std::unique_ptr<Theory> theory; // owns control and theory atoms
    Clingo::TheoryAtoms const *atoms() const { return nullptr; }
    clingo_theory_atoms_t const *tatoms{nullptr};
    std::map<int, int> lit; // program atom -> solver literal
    std::vector<Lits> clauses; // clauses of this step
    int first{0};              // number of variables of the steps before
    int nvars{1};
    std::vector<int> named; // solver literal of a, b, ...  (-1 false)
    std::vector<std::string> vars;

    int add() { return ++nvars; }
    int get(int p) const {
        auto it = lit.find(std::abs(p));
        int l = it == lit.end() ? -1 : it->second;
        return p > 0 ? l : -l;
    }
};

extern bool mock_on; // whether the functions of the mock are in use
extern bool mocking; // whether clingo's functions for registration are captured

// Grounds the texts one after the other; the result describes the last step.
inline std::unique_ptr<Ground> ground(std::vector<std::string> const &texts, std::vector<std::string> const &vars, Conf const &conf) {
    auto g = std::make_unique<Ground>();
    g->conf = conf;
    g->vars = vars;
    g->theory = std::make_unique<Theory>(conf);
    auto &t = *g->theory;
    Observer obs;
    t.ctl().register_observer(obs);
    for (size_t step = 0; step < texts.size(); ++step) {
    if (step > 0) { t.ctl().solve(Clingo::LiteralSpan{}, nullptr, false, false).get(); }
    auto part = cat("step", step);
    t.add(cat("#program ", part, ". ", texts[step]));
    t.ground(part.c_str());
    handle_error(clingo_control_theory_atoms(t.ctl().to_c(), &g->tatoms));
    g->first = step > 0 ? g->nvars : 0;
    g->clauses.clear();
    g->named.clear();
    std::set<int> theory, atoms;
    for (auto a : t.ctl().theory_atoms()) { if (a.literal() != 0) { theory.insert(static_cast<int>(a.literal())); } }
    std::map<int, std::vector<GRule const *>> def;
    for (auto const &r : obs.rules) {
        for (int h : r.head) { def[h].push_back(&r); }
        if (r.head.size() > 1 && !r.choice) { throw std::runtime_error("unsupported disjunction"); }
    }
    for (int a : theory) { if (def.find(a) == def.end() && g->lit.count(a) == 0) { g->lit[a] = g->add(); } }
    // atoms equivalent to a single literal share it
    std::function<void(int)> resolve = [&](int a) {
        if (g->lit.count(a) > 0) { return; }
        auto it = def.find(a);
        if (it == def.end()) { g->lit[a] = -1; return; } // no later step defines an atom that is used before
        auto const &rs = it->second;
        for (auto const *r : rs) { if (!r->choice && r->body.empty()) { g->lit[a] = 1; return; } }
        if (rs.size() == 1 && !rs[0]->choice && rs[0]->body.size() == 1) {
            resolve(std::abs(rs[0]->body[0]));
            g->lit[a] = g->get(rs[0]->body[0]);
            return;
        }
        g->lit[a] = g->add();
    };
    for (auto const &[a, rs] : def) { resolve(a); }
    auto body = [&](Lits const &b) {
        if (b.empty()) { return 1; }
        if (b.size() == 1) { return g->get(b[0]); }
        int v = g->add();
        Lits c{v};
        for (int l : b) { g->clauses.push_back({-v, g->get(l)}); c.push_back(-g->get(l)); }
        g->clauses.push_back(c);
        return v;
    };
    for (auto const &r : obs.rules) {
        if (!r.head.empty() || r.choice) { continue; }
        Lits c;
        for (int l : r.body) { c.push_back(-g->get(l)); }
        g->clauses.push_back(c);
    }
    for (auto const &[a, rs] : def) {
        int v = g->get(a);
        if (v == 1) { continue; }
        if (rs.size() == 1 && !rs[0]->choice && rs[0]->body.size() == 1) { continue; }
        Lits c{-v};
        for (auto const *r : rs) {
            int b = body(r->body);
            c.push_back(b);
            if (!r->choice) { g->clauses.push_back({v, -b}); }
        }
        g->clauses.push_back(c);
    }
    for (char c : BN) {
        auto it = obs.output.find(std::string(1, c));
        g->named.push_back(it == obs.output.end() ? -1 : it->second.empty() ? 1 : g->get(it->second[0]));
    }
    // facts are output without atom
    obs.rules.clear();
    }
    return g;
}
inline std::unique_ptr<Ground> ground(std::string const &text, std::vector<std::string> const &vars, Conf const &conf) {
    return ground(std::vector<std::string>{text}, vars, conf);
}

// }}}
// {{{ choices

class Chooser {
  public:
    std::vector<std::pair<int, int>> path; // (chosen, number of options)
    size_t pos{0};
    size_t depth{0};
    int choose(int n) {
        if (n <= 1 || pos >= depth) { return 0; }
        if (pos == path.size()) { path.emplace_back(0, n); }
        if (path[pos].second != n) { throw Bug("the code under test is not deterministic"); }
        return path[pos++].first;
    }
    void start() { pos = 0; }
    // advance to the next sequence
    bool next() {
        path.resize(pos);
        while (!path.empty()) {
            if (path.back().first + 1 < path.back().second) { ++path.back().first; return true; }
            path.pop_back();
        }
        return false;
    }
    std::string str() const {
        std::string r;
        for (auto [a, n] : path) { r += cat(a, "/", n, " "); }
        return r;
    }
};

// }}}
// {{{ solver threads

struct WC { int lit{0}; std::vector<clingo_weighted_literal_t> lits; I bound{0}; int type{0}; };

struct Mock;

struct Thr {
    Mock *m{nullptr};
    unsigned id{0};
    int strategy{-1};
    bool force{false}; // total check
    std::vector<signed char> val{0, 1};
    std::vector<int> lev{0, 0};
    Lits trail{1};
    std::vector<size_t> lim{0};
    size_t qhead{0};
    struct Clause { Lits lits; bool forget; };
    std::vector<Clause> clauses;
    std::vector<std::vector<int>> occ; // 2*var+sign -> clauses containing the literal
    std::vector<WC> wcs;
    std::vector<char> watch;
    Lits ptrail;
    size_t prop{0};
    struct Undo { int level; size_t begin; };
    std::vector<Undo> undos;
    size_t front{0};
    bool conflict{false};
    bool has_todo{false};
    bool todo_forget{false};
    Lits todo;
    enum State { IDLE, PROP, UNDO } state{IDLE};
    Lits decisions;
    int naux{0};
    uint64_t clauses_added{0};
    std::vector<std::vector<std::pair<I, I>>> snap; // bounds when a level was left by a decision
    std::vector<std::pair<int, int>> meaning;       // var -> (csp variable, value), (-1, 0) if unknown
    bool done{false};
    bool absent{false};                             // did not take part in the last step
    std::vector<Sol> sols;
    std::vector<Lits> base;                         // program and theory clauses, never forgotten
    std::vector<char> dead;                         // solutions excluded by the enumeration
    std::vector<std::vector<signed char>> wit;      // extension of every solution to all literals

    void end_step(int nstatic);                     // back to the top level without local literals
    void clone(Thr const &master);                  // integrate what init added

    int nvars() const { return static_cast<int>(val.size()) - 1; }
    int level() const { return static_cast<int>(lim.size()) - 1; }
    int value(int l) const { int v = val[static_cast<size_t>(std::abs(l))]; return l > 0 ? v : -v; }
    static size_t idx(int l) { return static_cast<size_t>(2 * std::abs(l) + (l < 0)); }
    void resize(int n) {
        while (nvars() < n) { val.push_back(0); lev.push_back(0); }
        occ.resize(2 * val.size() + 2);
        watch.resize(2 * val.size() + 2);
    }
    int add_var() { resize(nvars() + 1); return nvars(); }
    bool total() const { return trail.size() == val.size() - 1; }
    void assign(int l) {
        int v = value(l);
        if (v > 0) { return; }
        if (v < 0) { conflict = true; return; }
        val[static_cast<size_t>(std::abs(l))] = l > 0 ? 1 : -1;
        lev[static_cast<size_t>(std::abs(l))] = level();
        trail.push_back(l);
    }
    void store(Lits const &c, bool forget) {
        int id = static_cast<int>(clauses.size());
        clauses.push_back({c, forget});
        for (int l : c) { occ[idx(l)].push_back(id); }
    }
    void rebuild() {
        for (auto &o : occ) { o.clear(); }
        for (size_t i = 0; i < clauses.size(); ++i) { for (int l : clauses[i].lits) { occ[idx(l)].push_back(static_cast<int>(i)); } }
    }
    // evaluates a stored clause
    void eval(Lits const &c) {
        int free = 0, n = 0;
        for (int l : c) {
            int v = value(l);
            if (v > 0) { return; }
            if (v == 0) { free = l; ++n; }
        }
        if (n == 0) { conflict = true; }
        if (n == 1) { assign(free); }
    }
    void eval(WC const &w) {
        I sum = 0, max = 0;
        for (auto const &x : w.lits) {
            if (value(x.literal) > 0) { sum += x.weight; }
            if (value(x.literal) >= 0) { max += x.weight; }
        }
        bool ge = sum >= w.bound, lt = max < w.bound;
        // type < 0: the weight constraint implies the literal, type > 0: the other way around
        if (ge && w.type <= 0) { assign(w.lit); }
        if (lt && w.type >= 0) { assign(-w.lit); }
        if (conflict) { return; }
        if (value(w.lit) > 0 && w.type >= 0) {
            for (auto const &x : w.lits) { if (value(x.literal) == 0 && max - x.weight < w.bound) { assign(x.literal); if (conflict) { return; } } }
        }
        if (value(w.lit) < 0 && w.type <= 0) {
            for (auto const &x : w.lits) { if (value(x.literal) == 0 && sum + x.weight >= w.bound) { assign(-x.literal); if (conflict) { return; } } }
        }
    }
    bool unit();
    // returns false if propagation has to stop
    bool add_clause(Lits c, bool forget);
    void undo_to(int target);
};

struct Monitors {
    bool clauses{false};  // every clause is implied
    bool restore{false};  // bounds are restored
    std::function<void(Thr &)> state;
};

struct Mock {
    Ground const *g;
    std::vector<std::array<int, 3>> blocks; // first and last variable of a step and offset to solver variables
    std::vector<int> named;
    int root{0};          // 1 for multi-shot solving
    int nstatic{0};       // number of variables that survive the step
    int step{0};          // step literal
    size_t nbase{0};
    struct Event { int watch; Lits clause; WC wc; };
    std::vector<Event> events; // what init added
    std::set<int> watches;     // watches added by init in this step
    bool absent{false};        // only the first thread takes part in this step
    clingcon_theory_t *theory{nullptr};
    clingo_propagator_t cb{};
    void *data{nullptr};
    std::vector<Thr> th;
    int nthreads{1};
    int check_mode{0}, undo_mode{0};
    bool unsat{false};
    bool single{false};   // deliver changes one by one
    int strategy{0};      // default decision strategy
    Chooser *ch{nullptr};
    Ctx *ctx{nullptr};
    Monitors mon;
    std::vector<Sol> const *want{nullptr};
    std::vector<I> const *cost{nullptr}; // costs of the solutions in want
    std::optional<I> bound;              // cost of the last model
    std::vector<size_t> idx;             // indices of named variables
    uint64_t steps{0};
    uint64_t max_steps{20000};
    std::string deferred; // monitor message raised inside of a callback
    std::string log;
    std::function<void(clingcon_theory_t *)> configure; // further options
    bool allow_minimize{false};
    std::vector<std::array<int, 3>> minimize; // added elements of clasp's minimize constraint
    bool logging{false};
    bool stop{false};
    std::function<void()> yield = [] {};
    std::function<void(Thr &)> acquire = [](Thr &) {}, release = [](Thr &) {}; // model lock
    std::function<void(Thr &)> enter = [](Thr &) {}, leave = [](Thr &) {};     // around calls of the propagator
    void defer(std::string const &s) { if (deferred.empty()) { deferred = s; } }
    void check_deferred() { if (!deferred.empty()) { throw Violation(deferred); } }

    explicit Mock(Ground const &g) : g{&g} {}
    Mock(Mock const &) = delete;
    ~Mock() { if (theory != nullptr) { clingcon_destroy(theory); } }

    void note(std::string const &s) { if (logging) { log += s + "\n"; } }
    static std::string show(Lits const &c) { std::string r; for (int l : c) { r += cat(r.empty() ? "" : " ", l); } return r; }

    bool init(std::vector<Sol> const &sols, int threads);
    // starts another step
    bool next(Ground const &g, std::vector<Sol> const &sols, int threads);
    bool start(std::vector<Sol> const &sols, int threads);
    int glit(int p) const;
    int map(int l) const;
    void check_clause(Thr &t, Lits const &c);
    bool witness(Thr &t, size_t s);
    std::string bounds_diff(Thr &t, std::vector<std::pair<I, I>> const &a, std::vector<std::pair<I, I>> const &b);
    std::vector<std::pair<I, I>> bounds(Thr &t);
    void learn_meaning(Thr &t);
    // search
    bool fixpoint(Thr &t);
    bool handle_todo(Thr &t);
    void resolve(Thr &t, bool model);
    Sol solution(Thr &t);
    // searches exhaustively; model returns false to stop
    void search(Thr &t, std::function<bool(Thr &, Sol const &)> const &model);
};

extern Mock *cur;

// }}}

inline bool Thr::unit() {
    while (!conflict && qhead < trail.size()) {
        int p = trail[qhead++];
        if (watch[idx(p)] != 0) {
            if (undos.empty() ? level() > 0 : undos.back().level < level()) { undos.push_back({level(), ptrail.size()}); }
            ptrail.push_back(p);
        }
        auto const &os = occ[idx(-p)];
        for (size_t i = 0; i < os.size() && !conflict; ++i) { eval(clauses[static_cast<size_t>(os[i])].lits); }
        for (size_t i = 0; i < wcs.size() && !conflict; ++i) { eval(wcs[i]); }
    }
    return !conflict;
}

inline bool Thr::add_clause(Lits c, bool forget) {
    if (conflict || has_todo) { throw Bug("clause added after propagation had to stop"); }
    // simplify
    std::sort(c.begin(), c.end());
    c.erase(std::unique(c.begin(), c.end()), c.end());
    for (int l : c) { if (std::binary_search(c.begin(), c.end(), -l)) { return true; } }
    Lits r;
    for (int l : c) {
        bool fixed = value(l) != 0 && lev[static_cast<size_t>(std::abs(l))] == 0;
        if (fixed && value(l) > 0) { return true; }
        if (!fixed) { r.push_back(l); }
    }
    int nfree = 0, ntrue = 0, max = 0, second = 0;
    for (int l : r) {
        int v = value(l);
        if (v > 0) { ++ntrue; }
        else if (v == 0) { ++nfree; }
        else {
            int k = lev[static_cast<size_t>(std::abs(l))];
            if (k >= max) { second = max; max = k; } else if (k > second) { second = k; }
        }
    }
    int root = m->root;
    if (level() > root && ntrue == 0 && ((nfree == 1 && std::max(max, root) < level()) || (nfree == 0 && second < level()))) {
        // asserting on a lower level
        todo = r;
        has_todo = true;
        todo_forget = forget;
        return false;
    }
    store(r, forget && r.size() > 1);
    if (ntrue == 0 && nfree <= 1) { eval(r); }
    return !conflict;
}

inline void Thr::undo_to(int target) {
    while (level() > target) {
        while (trail.size() > lim.back()) {
            int v = std::abs(trail.back());
            val[static_cast<size_t>(v)] = 0;
            trail.pop_back();
        }
        if (!undos.empty() && undos.back().level == level()) {
            size_t beg = undos.back().begin;
            if (prop > beg || m->undo_mode != 0) {
                Lits changes(ptrail.begin() + static_cast<long>(beg), ptrail.begin() + static_cast<long>(prop));
                auto old = state;
                state = UNDO;
                m->yield();
                m->enter(*this);
                m->cb.undo(reinterpret_cast<clingo_propagate_control_t *>(this), changes.data(), changes.size(), m->data);
                m->leave(*this);
                state = old;
                prop = std::min(prop, beg);
            }
            ptrail.resize(beg);
            undos.pop_back();
        }
        lim.pop_back();
        decisions.pop_back();
    }
    qhead = std::min(qhead, trail.size());
    front = 0;
    conflict = false;
    if (m->mon.restore && static_cast<size_t>(target) < snap.size()) {
        auto now = m->bounds(*this);
        if (now != snap[static_cast<size_t>(target)]) { throw Violation(cat("backtracking to level ", target, " does not restore the bounds: ", m->bounds_diff(*this, snap[static_cast<size_t>(target)], now))); }
        m->ctx->count(CHECKS);
    }
    snap.resize(std::min(snap.size(), static_cast<size_t>(target)));
}

inline void Thr::end_step(int nstatic) {
    has_todo = false;
    conflict = false;
    undo_to(0);
    snap.clear();
    auto local = [&](int l) { return std::abs(l) > nstatic; };
    prop -= static_cast<size_t>(std::count_if(ptrail.begin(), ptrail.begin() + static_cast<long>(prop), local));
    ptrail.erase(std::remove_if(ptrail.begin(), ptrail.end(), local), ptrail.end());
    qhead -= static_cast<size_t>(std::count_if(trail.begin(), trail.begin() + static_cast<long>(qhead), local));
    trail.erase(std::remove_if(trail.begin(), trail.end(), local), trail.end());
    clauses.erase(std::remove_if(clauses.begin(), clauses.end(), [&](Clause const &c) { return std::any_of(c.lits.begin(), c.lits.end(), local); }), clauses.end());
    val.resize(static_cast<size_t>(nstatic) + 1);
    lev.resize(static_cast<size_t>(nstatic) + 1);
    occ.clear();
    watch.resize(2 * val.size());
    resize(nstatic);
    rebuild();
    front = 0;
    force = false;
    done = false;
    meaning.clear();
    wit.clear();
    dead.clear();
    for (size_t i = 0; i < clauses.size() && !conflict; ++i) { eval(clauses[i].lits); }
}

inline void Thr::clone(Thr const &master) {
    resize(master.nvars());
    for (int l : master.trail) { if (!conflict) { assign(l); } }
    for (auto const &e : m->events) {
        if (conflict) { return; }
        if (e.watch != 0) {
            auto &w = watch.at(idx(e.watch));
            if (w != 0) { continue; }
            w = 1;
            auto it = std::find(trail.begin(), trail.end(), e.watch);
            if (it != trail.end() && static_cast<size_t>(it - trail.begin()) < qhead) { ptrail.push_back(e.watch); }
        } else if (!e.clause.empty()) {
            add_clause(e.clause, false);
        } else {
            wcs.push_back(e.wc);
            eval(e.wc);
        }
    }
    base = master.base;
}

inline int Mock::map(int l) const {
    for (auto [a, b, o] : blocks) { if (a <= std::abs(l) && std::abs(l) <= b) { return l > 0 ? l + o : l - o; } }
    return l;
}

inline int Mock::glit(int p) const { return map(g->get(p)); }

} // namespace V::mock
