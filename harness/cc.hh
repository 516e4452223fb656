// Runs programs through clingcon's C API on the real clingo library.
#pragma once
#include "ref.hh"
#include "runner.hh"
#include <clingcon.h>
#include <clingo.hh>
#include <optional>

namespace V {

using Clingo::Detail::handle_error;

struct Conf {
    std::vector<std::string> args;                               // clingo options
    std::vector<std::pair<std::string, std::string>> opts;       // clingcon options
    std::string str() const {
        std::string r;
        for (auto const &x : args) { r += x + " "; }
        for (auto const &[k, v] : opts) { r += "--" + k + "=" + v + " "; }
        return r;
    }
    Conf with(std::string const &k, std::string const &v) const { Conf c{*this}; c.opts.emplace_back(k, v); return c; }
    Conf arg(std::string const &a) const { Conf c{*this}; c.args.emplace_back(a); return c; }
};

inline void quiet(Clingo::WarningCode, char const *) {}

class Theory {
  public:
    Theory(Conf const &conf, Clingo::Logger logger = quiet, std::function<void(Clingo::Control &)> const &before = nullptr) {
        handle_error(clingcon_create(&t_));
        try {
            for (auto const &[k, v] : conf.opts) { handle_error(clingcon_configure(t_, k.c_str(), v.c_str())); }
            std::vector<char const *> a;
            for (auto const &x : conf.args) { a.push_back(x.c_str()); }
            ctl_ = std::make_unique<Clingo::Control>(Clingo::StringSpan{a.data(), a.size()}, logger, 20);
            if (before) { before(*ctl_); }
            handle_error(clingcon_register(t_, ctl_->to_c()));
        } catch (...) {
            clingcon_destroy(t_);
            throw;
        }
    }
    Theory(Theory const &) = delete;
    ~Theory() {
        ctl_.reset();
        clingcon_destroy(t_);
    }
    void add(std::string const &prg) {
        struct D { clingcon_theory_t *t; clingo_program_builder_t *b; };
        clingo_program_builder_t *b = nullptr;
        handle_error(clingo_program_builder_init(ctl_->to_c(), &b));
        handle_error(clingo_program_builder_begin(b));
        D d{t_, b};
        handle_error(clingo_ast_parse_string(
            prg.c_str(),
            [](clingo_ast_t *ast, void *data) -> bool {
                auto *d = static_cast<D *>(data);
                return clingcon_rewrite_ast(
                    d->t, ast, [](clingo_ast_t *a, void *data) -> bool { return clingo_program_builder_add(static_cast<D *>(data)->b, a); }, d);
            },
            &d, nullptr, [](clingo_warning_t, char const *, void *) {}, nullptr, 20));
        handle_error(clingo_program_builder_end(b));
    }
    void ground(char const *part = "base", Clingo::SymbolSpan params = {}) { ctl_->ground({{part, params}}); }
    void prepare() { handle_error(clingcon_prepare(t_, ctl_->to_c())); }
    Clingo::Control &ctl() { return *ctl_; }
    clingcon_theory_t *c() { return t_; }

    clingcon_theory_t *t_{nullptr};
    std::unique_ptr<Clingo::Control> ctl_;
};

inline Clingo::Symbol sym(std::string const &s) { return Clingo::parse_term(s.c_str()); }

constexpr I UNDEF = -(1LL << 60);

struct Handler : Clingo::SolveEventHandler {
    Theory &t;
    std::vector<std::string> const &vars;
    std::vector<Clingo::Symbol> vsym, bsym;
    std::vector<Sol> sols;
    std::vector<I> costs;        // cost symbol per model
    std::vector<bool> proven;
    std::function<void(Clingo::Model &, Sol &)> hook;
    bool stat_ok = true;
    Handler(Theory &t, std::vector<std::string> const &vars) : t{t}, vars{vars} {
        for (auto const &v : vars) { vsym.push_back(sym(v)); }
        for (char c : BN) { bsym.push_back(sym(std::string(1, c))); }
    }
    bool on_model(Clingo::Model &m) override {
        handle_error(clingcon_on_model(t.c(), m.to_c()));
        Sol s{0, {}};
        for (size_t i = 0; i < bsym.size(); ++i) { if (m.contains(bsym[i])) { s.mask |= 1ULL << i; } }
        auto tid = m.thread_id();
        for (auto const &v : vsym) {
            size_t idx = 0;
            if (clingcon_lookup_symbol(t.c(), v.to_c(), &idx) && clingcon_assignment_has_value(t.c(), tid, idx)) {
                clingcon_value_t val;
                clingcon_assignment_get_value(t.c(), tid, idx, &val);
                s.vals.push_back(val.int_number);
            } else {
                s.vals.push_back(UNDEF);
            }
        }
        proven.push_back(m.optimality_proven());
        if (hook) { hook(m, s); }
        sols.push_back(std::move(s));
        return true;
    }
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override {
        handle_error(clingcon_on_statistics(t.c(), step.to_c(), accu.to_c()));
    }
};

struct Result {
    std::vector<Sol> sols;
    bool error{false};
    std::string msg;
    bool interrupted{false};
};

inline Result run(std::string const &prg, std::vector<std::string> const &vars, Conf const &conf) {
    Result r;
    try {
        Theory t{conf};
        t.add(prg);
        t.ground();
        t.prepare();
        Handler h{t, vars};
        auto res = t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
        r.interrupted = res.is_interrupted();
        r.sols = std::move(h.sols);
        std::sort(r.sols.begin(), r.sols.end());
    } catch (std::exception &e) {
        r.error = true;
        r.msg = e.what();
    }
    return r;
}

inline std::string report(std::string const &prg, Conf const &conf, std::string const &what) {
    return cat("program:\n", prg, "\noptions: ", conf.str(), "\n", what);
}

// The central comparison: clingcon's answer against the brute-force reference.
inline size_t compare(Ctx &ctx, Program const &p, std::vector<Sol> const &want, Conf const &conf) {
    std::string text = p.text();
    auto r = run(text, p.vars, conf);
    ctx.count(EXEC);
    ctx.count(SOLS, r.sols.size());
    if (r.error) { throw Violation(report(text, conf, "error: " + r.msg)); }
    if (r.interrupted) { throw Violation(report(text, conf, "solving was interrupted")); }
    if (r.sols != want) { throw Violation(report(text, conf, diff(want, r.sols, p.vars))); }
    return r.sols.size();
}

} // namespace V
