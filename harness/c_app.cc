// C25: command-line program, C27: Python package
#include "pool.hh"
#include <fcntl.h>
#include <poll.h>
#include <spawn.h>
#include <regex>
using namespace V;

extern char **environ;

namespace {

using Strs = std::vector<std::string>;

std::string bin() { return env("VERIF_BUILD", "/verif/build/dev"); }
std::string scratch() {
    static std::string const d = [] { std::string p = cat(bin(), "/scratch.", getpid()); mkdir(p.c_str(), 0755); return p; }();
    return d;
}
void cleanup() {
    std::string d = scratch();
    for (char const *f : {"/a.lp", "/b.lp", "/c.lp"}) { unlink((d + f).c_str()); }
    rmdir(d.c_str());
}

// {{{ processes

struct Proc { int code{-1}; std::string out, err; };

Proc spawn(Strs const &argv, std::string const &input) {
    int in[2], out[2], err[2];
    if (pipe2(in, O_CLOEXEC) != 0 || pipe2(out, O_CLOEXEC) != 0 || pipe2(err, O_CLOEXEC) != 0) { throw std::runtime_error("pipe"); }
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, in[0], 0);
    posix_spawn_file_actions_adddup2(&fa, out[1], 1);
    posix_spawn_file_actions_adddup2(&fa, err[1], 2);
    std::vector<char *> av;
    for (auto const &a : argv) { av.push_back(const_cast<char *>(a.c_str())); }
    av.push_back(nullptr);
    pid_t pid = 0;
    if (posix_spawn(&pid, av[0], &fa, nullptr, av.data(), environ) != 0) { throw std::runtime_error("cannot run " + argv[0]); }
    posix_spawn_file_actions_destroy(&fa);
    close(in[0]); close(out[1]); close(err[1]);
    for (size_t i = 0; i < input.size();) { // the input is smaller than the buffer of the pipe
        auto n = write(in[1], input.data() + i, input.size() - i);
        if (n <= 0) { break; }
        i += static_cast<size_t>(n);
    }
    close(in[1]);
    Proc r;
    char buf[65536];
    pollfd fds[2]{{out[0], POLLIN, 0}, {err[0], POLLIN, 0}};
    int open = 2;
    while (open > 0) {
        poll(fds, 2, -1);
        for (int i = 0; i < 2; ++i) {
            if (fds[i].fd < 0 || fds[i].revents == 0) { continue; }
            auto n = read(fds[i].fd, buf, sizeof buf);
            if (n <= 0) { close(fds[i].fd); fds[i].fd = -1; --open; continue; }
            (i == 0 ? r.out : r.err).append(buf, static_cast<size_t>(n));
        }
    }
    int st = 0;
    waitpid(pid, &st, 0);
    r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    return r;
}

struct Python {
    int in{-1}, out{-1};
    pid_t pid{0};
    std::string buf;
    void start() {
        int a[2], b[2];
        if (pipe2(a, O_CLOEXEC) != 0 || pipe2(b, O_CLOEXEC) != 0) { throw std::runtime_error("pipe"); }
        posix_spawn_file_actions_t fa;
        posix_spawn_file_actions_init(&fa);
        posix_spawn_file_actions_adddup2(&fa, a[0], 0);
        posix_spawn_file_actions_adddup2(&fa, b[1], 1);
        posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
        std::string path = cat("PYTHONPATH=", bin(), "/py"), root = env("VERIF_ROOT", "/verif") + "/harness/driver.py";
        std::vector<char *> e;
        for (char **x = environ; *x != nullptr; ++x) { if (std::strncmp(*x, "PYTHON", 6) != 0) { e.push_back(*x); } }
        e.push_back(const_cast<char *>(path.c_str()));
        e.push_back(const_cast<char *>("PYTHONDONTWRITEBYTECODE=1"));
        e.push_back(nullptr);
        char *av[]{const_cast<char *>("/opt/vp/pydeps/bin/python"), const_cast<char *>(root.c_str()), nullptr};
        if (posix_spawn(&pid, av[0], &fa, nullptr, av, e.data()) != 0) { throw std::runtime_error("cannot run python"); }
        posix_spawn_file_actions_destroy(&fa);
        close(a[0]); close(b[1]);
        in = a[1]; out = b[0];
    }
    Strs request(std::string const &op, Strs const &prg, Strs const &vars, Conf const &conf, std::string const &mode = "callback") {
        if (pid == 0) { start(); }
        auto list = [](Strs const &x) { std::string r = "["; for (auto const &y : x) { r += (r.size() > 1 ? "," : "") + json_str(y); } return r + "]"; };
        std::string o = "[";
        for (auto const &[k, v] : conf.opts) { o += cat(o.size() > 1 ? "," : "", "[", json_str(k), ",", json_str(v), "]"); }
        std::string q = cat("{\"op\":", json_str(op), ",\"prg\":", list(prg), ",\"vars\":", list(vars), ",\"args\":", list(conf.args), ",\"opts\":", o, "],\"mode\":", json_str(mode), "}\n");
        if (write(in, q.data(), q.size()) != static_cast<ssize_t>(q.size())) { died(); }
        Strs r;
        while (true) {
            auto p = buf.find('\n');
            if (p == std::string::npos) {
                char b[65536];
                auto n = read(out, b, sizeof b);
                if (n <= 0) { died(); }
                buf.append(b, static_cast<size_t>(n));
                continue;
            }
            auto l = buf.substr(0, p);
            buf.erase(0, p + 1);
            if (l == ".") { return r; }
            r.push_back(l);
        }
    }
    void died() {
        int st = 0;
        waitpid(pid, &st, 0);
        pid = 0;
        throw Violation(cat("python died: ", WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit"));
    }
} py;

// }}}
// {{{ output of the application

struct Shown { std::string atoms, assignment, cost, opt; };
bool operator<(Shown const &a, Shown const &b) { return std::tie(a.atoms, a.assignment, a.cost) < std::tie(b.atoms, b.assignment, b.cost); }
bool operator==(Shown const &a, Shown const &b) { return std::tie(a.atoms, a.assignment, a.cost) == std::tie(b.atoms, b.assignment, b.cost); }

struct Output { std::vector<Shown> models; std::string verdict, count; int code{-1}; };

std::string words(std::string const &s) {
    std::istringstream in{s};
    Strs w;
    for (std::string x; in >> x;) { w.push_back(x); }
    std::sort(w.begin(), w.end());
    std::string r;
    for (auto const &x : w) { r += (r.empty() ? "" : " ") + x; }
    return r;
}

Output parse(std::string const &out, int code) {
    Output r;
    r.code = code;
    std::istringstream in{out};
    Strs ls;
    for (std::string l; std::getline(in, l);) { ls.push_back(l); }
    auto starts = [](std::string const &s, char const *p) { return s.compare(0, std::strlen(p), p) == 0; };
    for (size_t i = 0; i < ls.size(); ++i) {
        auto const &l = ls[i];
        if (starts(l, "Answer: ")) {
            if (l != cat("Answer: ", r.models.size() + 1) && !starts(l, cat("Answer: ", r.models.size() + 1, " ").c_str())) { throw Violation("unexpected line " + l); }
            if (i + 3 >= ls.size() || ls[i + 2] != "Assignment:") { throw Violation("answer without assignment"); }
            r.models.push_back({words(ls[i + 1]), words(ls[i + 3]), "", ""});
            i += 3;
            if (i + 1 < ls.size() && starts(ls[i + 1], "Cost: ")) { r.models.back().cost = ls[++i].substr(6); }
        }
        else if (starts(l, "Optimization: ")) { if (r.models.empty()) { throw Violation("optimization value without model"); } r.models.back().opt = l.substr(14); }
        else if (starts(l, "Models       : ")) { r.count = l.substr(15); }
        else if (l == "SATISFIABLE" || l == "UNSATISFIABLE" || l == "UNKNOWN" || l == "OPTIMUM FOUND") { r.verdict = l; }
        else if (starts(l, "Cost") || starts(l, "Assignment:") || l.find("__csp") != std::string::npos) { throw Violation("unexpected line: " + l); }
    }
    return r;
}

std::string atoms(uint64_t mask) {
    std::string r;
    for (size_t i = 0; i < BN.size(); ++i) { if ((mask >> i) & 1) { r += cat(r.empty() ? "" : " ", BN[i]); } }
    return r;
}
std::string assignment(Strs const &vars, std::vector<I> const &vals, std::function<bool(std::string const &)> const &f = {}) {
    std::string r;
    for (size_t i = 0; i < vars.size(); ++i) { if (!f || f(vars[i])) { r += cat(" ", vars[i], "=", vals[i]); } }
    return words(r);
}

// }}}

Strs args(Conf const &c, char const *models) {
    Strs r{bin() + "/clingcon", "-"};
    for (auto const &a : c.args) { if (a != "0") { r.push_back(a); } }
    for (size_t i = 0; i < c.opts.size(); ++i) { // the last value counts
        auto const &[k, v] = c.opts[i];
        bool later = false;
        for (size_t j = i + 1; j < c.opts.size(); ++j) { later = later || c.opts[j].first == k; }
        if (!later) { r.push_back(cat("--", k, "=", v)); }
    }
    if (models != nullptr) { r.emplace_back(models); }
    return r;
}

bool flag(std::string const &k) { return k == "shift-constraints" || k == "sort-constraints" || k == "literals-only" || k == "add-order-clauses" || k == "check-solution" || k == "check-state"; }
// flags take a value on the command line only with no prefix
Strs cmd(Conf const &c, char const *models) {
    Strs r = args(c, models);
    for (auto &a : r) {
        auto p = a.find('=');
        if (a.compare(0, 2, "--") == 0 && p != std::string::npos && flag(a.substr(2, p - 2))) { a = a.substr(p + 1) == "yes" ? a.substr(0, p) : "--no-" + a.substr(2, p - 2); }
    }
    return r;
}

std::string tell(std::string const &text, Strs const &a, Proc const &p, std::string const &what) {
    std::string c;
    for (auto const &x : a) { c += x + " "; }
    return cat("program:\n", text, "\ncommand: ", c, "\n", what, "\nexit code ", p.code, "\noutput:\n", p.out.substr(0, 3000), p.err.substr(0, 1000));
}

struct Want {
    std::vector<Shown> models; // all solutions as shown
    std::vector<I> costs;      // cost of each solution
    bool objective{false};
};

// judges the output of the application
void judge(Ctx &ctx, Output const &o, Want const &w, char const *models, std::function<Violation(std::string const &)> const &fail) {
    ctx.count(SOLS, o.models.size());
    size_t n = o.models.size(), all = w.models.size();
    if (o.count.substr(0, o.count.find('+')) != cat(n)) { throw fail(cat("reported number of models: ", o.count)); }
    if (all == 0) {
        if (n != 0) { throw fail("unexpected model"); }
        if (o.verdict != "UNSATISFIABLE" || o.code != 20) { throw fail("problem is unsatisfiable"); }
        return;
    }
    bool sat = w.objective ? o.verdict == "SATISFIABLE" || o.verdict == "OPTIMUM FOUND" : o.verdict == "SATISFIABLE";
    if (!sat || (o.code != 10 && o.code != 30)) { throw fail("problem is satisfiable"); }
    std::map<std::pair<std::string, std::string>, std::vector<I>> ref;
    for (size_t i = 0; i < all; ++i) { ref[{w.models[i].atoms, w.models[i].assignment}].push_back(w.costs.empty() ? 0 : w.costs[i]); }
    I best = 0;
    if (w.objective) { best = *std::min_element(w.costs.begin(), w.costs.end()); }
    std::map<std::pair<std::string, std::string>, size_t> seen;
    I last = 0;
    for (size_t i = 0; i < n; ++i) {
        auto const &m = o.models[i];
        auto it = ref.find({m.atoms, m.assignment});
        if (it == ref.end() || ++seen[it->first] > it->second.size()) { throw fail(cat("unexpected or repeated answer ", i + 1)); }
        if (!w.objective) {
            if (!m.cost.empty() || !m.opt.empty()) { throw fail(cat("cost of answer ", i + 1)); }
            continue;
        }
        if (m.cost.empty() == m.opt.empty()) { throw fail(cat("answer ", i + 1, " needs exactly one cost")); }
        I c = 0;
        try { c = std::stoll(m.cost.empty() ? m.opt : m.cost); } catch (std::exception &) { throw fail(cat("cost of answer ", i + 1)); }
        if (std::find(it->second.begin(), it->second.end(), c) == it->second.end()) { throw fail(cat("wrong cost in answer ", i + 1)); }
        if (i > 0 && c >= last) { throw fail(cat("answer ", i + 1, " does not improve")); }
        last = c;
    }
    size_t limit = models == nullptr ? (w.objective ? 0 : 1) : std::strtoul(models, nullptr, 10);
    if (!w.objective) {
        if (n != (limit == 0 ? all : std::min(limit, all))) { throw fail(cat("there are ", all, " solutions")); }
    }
    else if (limit == 0 && last != best) { throw fail(cat("the optimum is ", best)); }
    else if (limit > 0 && (n == 0 || n > limit || (n < limit && last != best))) { throw fail(cat("at most ", limit, " models are requested")); }
}

Want want(Prog const &p, std::function<bool(std::string const &)> const &f = {}, bool show_atoms = true) {
    Want w;
    w.objective = !p.obj.empty();
    for (auto const &s : brute(p.p)) {
        w.models.push_back({show_atoms ? atoms(s.mask) : "", assignment(p.p.vars, s.vals, f), "", ""});
        if (w.objective) { w.costs.push_back(cost(p.obj, s.vals)); }
    }
    return w;
}

void cli(Ctx &ctx, std::string const &text, Want const &w, Conf const &c, char const *models) {
    auto a = cmd(c, models);
    auto p = spawn(a, text);
    ctx.count(EXEC);
    auto fail = [&](std::string const &what) { return Violation(tell(text, a, p, what)); };
    Output o;
    try { o = parse(p.out, p.code); } catch (Violation &e) { throw fail(e.what()); }
    judge(ctx, o, w, models, fail);
    ctx.count(CHECKS);
}

// the application refuses to solve
void refuse(Ctx &ctx, std::string const &text, Strs const &more, bool code = true) {
    Strs a{bin() + "/clingcon", "-", "0"};
    a.insert(a.end(), more.begin(), more.end());
    auto p = spawn(a, text);
    ctx.count(EXEC);
    ctx.count(CHECKS);
    if (p.code >= 1000) { throw Violation(tell(text, a, p, "the application crashes")); }
    if (p.out.find("Answer:") != std::string::npos || p.out.find("SATISFIABLE") != std::string::npos) { throw Violation(tell(text, a, p, "an error is expected")); }
    if (p.err.find("ERROR") == std::string::npos && p.err.find("error") == std::string::npos) { throw Violation(tell(text, a, p, "an error message is expected")); }
    if (code && (p.code == 0 || p.code == 10 || p.code == 20 || p.code == 30)) { throw Violation(tell(text, a, p, "the exit code does not indicate an error")); }
}

Strs const &broken() {
    static Strs const r{
        "&sum{ x/0 } <= 1.", "&sum{ 1/0*x } <= 1.", "&sum{ x } <= y/0.", "&sum{ x*y } <= 1.", "&distinct{ x*y; 1 }.", "&dom{ 1..x } = y.", "&dom{ 1..3 } = 2*y.", "&sum{ f(X) : p(Y) } <= 1.",
        "&sum{ x", "&summ{ x } <= 1.", "&sum{ \"a\"*\"b\" } <= 3.", "&diff{ x+y } <= 1.", "&diff{ x-y } >= 1 :- &foo{ x }.", "&sum{ 2147483648*x } <= 1.", "&show{ 1 }.", "&sum{ x } <= 3000000000.", "&sum{ x/y } <= 1."};
    return r;
}

// option and documented values
std::vector<std::pair<std::string, Strs>> const &options() {
    static std::vector<std::pair<std::string, Strs>> const r{
        {"refine-reasons", {"yes", "no"}}, {"refine-introduce", {"yes", "no"}}, {"propagate-chain", {"yes", "no"}}, {"split-all", {"yes", "no"}},
        {"order-heuristic", {"none", "max-chain"}}, {"sign-value", {"0", "-3", "+", "-"}}, {"shift-constraints", {"yes", "no"}}, {"sort-constraints", {"yes", "no"}},
        {"literals-only", {"yes", "no"}}, {"add-order-clauses", {"yes", "no"}}, {"check-solution", {"yes", "no"}}, {"check-state", {"yes", "no"}},
        {"translate-clauses", {"0", "5", "3,10", "1000,10000"}}, {"translate-pb", {"0", "5.5", "100"}}, {"translate-distinct", {"0", "100", "max"}}, {"translate-opt", {"0", "3", "max"}}};
    return r;
}

void c25(Ctx &ctx) {
    bool T = ctx.thorough();
    auto ps = programs();
    auto cs = confs(-10, 10);
    Conf box{{}, {{"min-int", "-10"}, {"max-int", "10"}}};
    // 1. all programs under all configurations and numbers of models
    for (auto const &p : ps) {
        ctx.test([&] {
            auto w = want(p);
            for (auto const &c : cs) { for (char const *n : {"0", static_cast<char const *>(nullptr), "2"}) { cli(ctx, text(p), w, c, n); } }
            for (char const *n : {"1", "3", "5"}) { cli(ctx, text(p), w, box, n); }
            for (char const *t : {"-t1", "-t2", "-t4"}) { for (char const *n : {"0", static_cast<char const *>(nullptr)}) { if (w.objective && t[2] != '1') { continue; } cli(ctx, text(p), w, box.arg(t), n); } }
            if (!w.models.empty()) { ctx.count(NONTRIV); }
            ctx.outcome(text(p));
            if (ctx.wants_sample()) { ctx.sample(cat(text(p), " => ", w.models.size(), " solutions")); } else { ctx.skip_sample(); }
        });
    }
    // 2. every option value (and pairs of options) reach the solver without changing the solutions
    for (auto const &[o, vs] : options()) {
        for (auto const &v : vs) {
            for (auto const &p : ps) {
                ctx.test([&, o = o] { cli(ctx, text(p), want(p), box.with(o, v), p.obj.empty() ? "0" : nullptr); ctx.outcome(cat(o, v, text(p))); });
            }
            if (!T) { continue; }
            for (auto const &[o2, vs2] : options()) {
                if (o2 <= o) { continue; }
                for (auto const &v2 : vs2) { for (auto const &p : ps) { ctx.test([&, o = o, o2 = o2] { cli(ctx, text(p), want(p), box.with(o, v).with(o2, v2), p.obj.empty() ? "0" : nullptr); ctx.outcome(cat(o, v, o2, v2, text(p))); }); } }
            }
        }
    }
    for (int lo = -3; lo <= 3; ++lo) {
        for (int hi = -3; hi <= 3; ++hi) {
            ctx.test([&] {
                std::string text = "{a}. &sum{ x } >= -100. &sum{ f(1); -1*x } >= 0 :- a.";
                Conf c{{}, {{"min-int", cat(lo)}, {"max-int", cat(hi)}}};
                if (lo > hi) { refuse(ctx, text, {cat("--min-int=", lo), cat("--max-int=", hi)}, false); return; }
                Want w;
                for (int x = lo; x <= hi; ++x) { for (int f = lo; f <= hi; ++f) { for (int a = 0; a < 2; ++a) { if (a == 0 || f - x >= 0) { w.models.push_back({atoms(static_cast<uint64_t>(a)), words(cat("x=", x, " f(1)=", f)), "", ""}); } } } }
                cli(ctx, text, w, c, "0");
                cli(ctx, text, w, Conf{{}, {{"max-int", cat(hi)}, {"min-int", cat(lo)}}}, "0");
                ctx.outcome(cat(lo, " ", hi));
            });
        }
    }
    // 3. shown variables and atoms
    for (auto const &p : ps) {
        for (char const *o : {"0", static_cast<char const *>(nullptr)}) {
            ctx.test([&] {
                auto t = text(p);
                auto sel = [&](std::set<std::string> const &s) { return want(p, [s](std::string const &x) { return s.count(x) > 0; }); };
                cli(ctx, t + "&show{ x }.", sel({"x"}), box, o);
                cli(ctx, t + "&show{ y; x }.", sel({"x", "y"}), box, o);
                cli(ctx, t + "&show{ }.", sel({}), box, o);
                cli(ctx, t + "&show{ x/0 }. &show{ y }.", sel({"x", "y"}), box, o);
                cli(ctx, t + "#show.", want(p, {}, false), box, o);
                cli(ctx, t + "#show. &show{ x }.", want(p, [](std::string const &x) { return x == "x"; }, false), box, o);
                ctx.outcome(t + "shown");
            });
        }
    }
    // 4. names of variables
    for (char const *name : {"x", "f(1)", "f(1,2)", "(1,2)", "(1,)", "\"str\"", "f(\"a=b\")", "f(g(x),h(-1))", "__x", "__csp(1,2)", "_a"}) {
        for (char const *nm : {"0", "1", static_cast<char const *>(nullptr)}) {
            ctx.test([&] {
                Want w;
                for (int x = -1; x <= 2; ++x) { w.models.push_back({"", cat(Clingo::parse_term(name).to_string(), "=", x), "", ""}); }
                std::string n = name;
                cli(ctx, cat("&sum{ ", n, " } <= 2. &sum{ ", n, " } >= -1."), w, box, nm);
                w.objective = true;
                w.costs = {2, 0, -2, -4};
                cli(ctx, cat("&sum{ ", n, " } <= 2. &sum{ ", n, " } >= -1. &maximize{ 2*", n, " }."), w, box, nm);
                ctx.outcome(name);
            });
        }
    }
    // 5. atoms, files, constants
    ctx.test([&] {
        cleanup();
        mkdir(scratch().c_str(), 0755);
        std::string a = scratch() + "/a.lp", b = scratch() + "/b.lp", c = scratch() + "/c.lp";
        { std::ofstream f(a); f << "#const n=1. &dom{ 0..n } = x. p(1..n)."; }
        { std::ofstream f(b); f << "{a}. &sum{ x } > 0 :- a. #show p/1."; }
        { std::ofstream f(c); f << "#include \"a.lp\"."; }
        for (int n = 1; n <= 4; ++n) {
            for (int mode = 0; mode < 4; ++mode) {
                Want w;
                for (int x = 0; x <= n; ++x) {
                    for (int k = 0; k < (mode == 3 || mode == 1 ? 1 : x > 0 ? 2 : 1); ++k) {
                        std::string ps;
                        for (int i = 1; i <= n; ++i) { ps += cat("p(", i, ") "); }
                        w.models.push_back({words(ps), cat("x=", x), "", ""});
                    }
                }
                Strs av{bin() + "/clingcon", "0", cat("-cn=", n), "--min-int=-10", "--max-int=10"};
                std::string input;
                if (mode == 0) { av.push_back(a); av.push_back(b); }
                if (mode == 1) { av.push_back(a); }
                if (mode == 2) { av.push_back(b); av.emplace_back("-"); input = "#const n=1. &dom{ 0..n } = x. p(1..n)."; }
                if (mode == 3) { av.push_back(c); }
                auto p = spawn(av, input);
                ctx.count(EXEC);
                auto fail = [&](std::string const &what) { return Violation(tell("files", av, p, what)); };
                Output o;
                try { o = parse(p.out, p.code); } catch (Violation &e) { throw fail(e.what()); }
                judge(ctx, o, w, "0", fail);
                ctx.count(CHECKS);
            }
        }
        refuse(ctx, "", {scratch() + "/missing.lp"});
        cleanup();
    });
    // 6. errors
    for (auto const &t : broken()) { ctx.test([&] { refuse(ctx, t, {}); ctx.outcome(t); }); }
    for (auto const &[o, vs] : options()) {
        if (flag(o)) { continue; }
        bool pb = o == "translate-pb";
        for (std::string v : {"maybe", "1x", "1,2,3", pb ? "x" : "99999999999999999999"}) { ctx.test([&, o = o] { refuse(ctx, "a.", {cat("--", o, "=", v)}); ctx.outcome(o + v); }); }
        ctx.test([&, o = o, vs = vs] { refuse(ctx, "a.", {cat("--", o, "=", vs[0]), cat("--", o, "=", vs[1])}); });
    }
    for (char const *o : {"--min-int=x", "--max-int=x", "--min-int=99999999999", "--max-int=1073741824", "--min-int=-1073741824", "--split-all=yes,64", "--split-all=yes,-1", "--no-such-option", "--check-state=maybe"}) { ctx.test([&] { refuse(ctx, "a.", {o}); ctx.outcome(o); }); }
    // 7. statistics and machine readable output
    for (auto const &p : ps) {
        ctx.test([&] {
            auto w = want(p);
            auto c = box.arg("--outf=2").arg("--stats");
            auto a = cmd(c, p.obj.empty() ? "0" : nullptr);
            auto r = spawn(a, text(p));
            ctx.count(EXEC);
            auto at = r.out.find("\"Clingcon\""), in = r.out.find("\"Variables\"", at == std::string::npos ? 0 : at);
            if (at == std::string::npos || in == std::string::npos) { throw Violation(tell(text(p), a, r, "statistics are missing")); }
            if (std::stoul(r.out.substr(r.out.find(':', in) + 1)) != p.p.vars.size()) { throw Violation(tell(text(p), a, r, "number of variables in statistics")); }
            size_t n = 0;
            std::multiset<std::string> got, all;
            for (size_t k = r.out.find("\"Value\""); k != std::string::npos; k = r.out.find("\"Value\"", k + 1), ++n) {
                auto b = r.out.find('[', k), e = r.out.find("\n          ]", b);
                auto s = r.out.substr(b + 1, e - b - 1);
                std::replace(s.begin(), s.end(), '\n', ' ');
                Strs vs;
                std::regex re{"\"((?:[^\"\\\\]|\\\\.)*)\""};
                for (std::sregex_iterator i{s.begin(), s.end(), re}, j; i != j; ++i) { auto x = (*i)[1].str(); if (x.find("__csp_cost") == std::string::npos) { vs.push_back(x); } }
                std::sort(vs.begin(), vs.end());
                std::string l;
                for (auto const &x : vs) { l += x + " "; }
                got.insert(l);
            }
            for (auto const &s : brute(p.p)) {
                Strs vs;
                for (size_t i = 0; i < BN.size(); ++i) { if ((s.mask >> i) & 1) { vs.emplace_back(1, BN[i]); } }
                for (size_t i = 0; i < p.p.vars.size(); ++i) { vs.push_back(cat("__csp(", p.p.vars[i], ",", s.vals[i], ")")); }
                std::sort(vs.begin(), vs.end());
                std::string l;
                for (auto const &x : vs) { l += x + " "; }
                all.insert(l);
            }
            if (p.obj.empty() ? got != all : !std::includes(all.begin(), all.end(), got.begin(), got.end()) || got.empty() != all.empty()) { throw Violation(tell(text(p), a, r, "wrong models")); }
            ctx.count(CHECKS);
        });
    }
    // 8. help mentions every option
    ctx.test([&] {
        auto p = spawn({bin() + "/clingcon", "--help=3"}, "");
        for (auto const &[o, vs] : options()) { if (p.out.find("--" + o) == std::string::npos && p.out.find("--[no-]" + o) == std::string::npos) { throw Violation("help does not mention " + o + "\n" + p.out.substr(0, 3000)); } }
        int x = 0, y = 0, z = 0;
        clingcon_version(&x, &y, &z);
        auto q = spawn({bin() + "/clingcon", "--version"}, "");
        if (q.out.find(cat("clingcon version ", x, ".", y, ".", z)) != 0) { throw Violation("version: " + q.out.substr(0, 100)); }
        ctx.count(EXEC, 2);
        ctx.count(CHECKS, 2);
    });
}

// {{{ python

std::string stats(Clingo::Statistics const &s) {
    switch (s.type()) {
        case Clingo::StatisticsType::Value: { char b[64]; std::snprintf(b, sizeof b, "%.6g", s.value()); return b; }
        case Clingo::StatisticsType::Array: { std::string r = "["; for (auto const &x : s) { r += stats(x) + ","; } return r + "]"; }
        case Clingo::StatisticsType::Map: {
            Strs ks;
            for (auto const *k : s.keys()) { if (std::string(k).find("ime") == std::string::npos) { ks.emplace_back(k); } }
            std::sort(ks.begin(), ks.end());
            std::string r = "{";
            for (auto const &k : ks) { r += k + ":" + stats(s[k.c_str()]) + ","; }
            return r + "}";
        }
        default: return "?";
    }
}

// the same run over the C interface: lines as printed by the driver
Strs native(Strs const &prg, Strs const &vars, Conf const &conf, bool multi) {
    Strs r;
    try {
        Theory t{conf};
        for (size_t i = 0; i < prg.size(); ++i) {
            if (multi) {
                t.add(cat("#program s", i, ". ", prg[i]));
                t.ground(cat("s", i).c_str());
            } else {
                t.add(prg[i]);
                if (i + 1 < prg.size()) { continue; }
                t.ground();
            }
            t.prepare();
            Handler h{t, vars};
            h.hook = [&](Clingo::Model &m, Sol &s) {
                Strs a, csp, cost;
                for (auto x : m.symbols(Clingo::ShowType::Shown)) { a.push_back(x.to_string()); }
                for (auto x : m.symbols(Clingo::ShowType::Theory)) {
                    if (x.match("__csp", 2)) { csp.push_back(cat(x.arguments()[0], "=", x.arguments()[1])); }
                    else if (x.match("__csp_cost", 1)) { cost.emplace_back(x.arguments()[0].string()); }
                    else { csp.push_back(cat("unexpected ", x)); }
                }
                auto join = [](Strs v) { std::sort(v.begin(), v.end()); std::string r; for (auto const &x : v) { r += (r.empty() ? "" : " ") + x; } return r; };
                std::string v;
                for (size_t k = 0; k < s.vals.size(); ++k) {
                    size_t idx = 0;
                    bool named = clingcon_lookup_symbol(t.c(), h.vsym[k].to_c(), &idx);
                    v += cat(k > 0 ? " " : "", !named ? "none" : s.vals[k] == UNDEF ? std::string{"novalue"} : cat(s.vals[k]));
                }
                r.push_back(cat("M ", join(a), ";", v, ";", join(csp), ";", join(cost)));
            };
            auto res = t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
            r.push_back(cat("R ", res.is_satisfiable() ? "SAT" : res.is_unsatisfiable() ? "UNSAT" : "UNKNOWN"));
            auto s = t.ctl().statistics();
            r.push_back(cat("S ", s.has_subkey("user_step") && s["user_step"].has_subkey("Clingcon") ? stats(s["user_step"]["Clingcon"]) : "{}"));
            if (multi) { r.emplace_back("step"); }
        }
    } catch (std::exception &e) {
        std::string m = e.what();
        std::replace(m.begin(), m.end(), '\n', ' ');
        r.push_back("F " + m);
    }
    return r;
}

std::string joined(Strs const &x) { std::string r; for (auto const &y : x) { r += y + "\n"; } return r.substr(0, 6000); }

void same(Ctx &ctx, std::string const &op, Strs const &prg, Strs const &vars, Conf const &conf, std::string const &mode) {
    auto got = py.request(op, prg, vars, conf, mode);
    auto exp = native(prg, vars, conf, op == "multi");
    ctx.count(EXEC, 2);
    for (auto const &l : got) { if (l[0] == 'E') { throw Violation(cat("program:\n", joined(prg), "options: ", conf.str(), "\npython (", mode, "): ", l)); } }
    if (got != exp) { throw Violation(cat("program:\n", joined(prg), "options: ", conf.str(), "\npython (", mode, "):\n", joined(got), "C interface:\n", joined(exp))); }
    ctx.count(CHECKS);
    ctx.count(SOLS, got.size());
}

void c27(Ctx &ctx) {
    bool T = ctx.thorough();
    auto ps = programs();
    auto cs = confs(-10, 10);
    Conf box{{"0"}, {{"min-int", "-10"}, {"max-int", "10"}}};
    for (auto &c : cs) { c.args.emplace_back("--stats"); }
    box.args.emplace_back("--stats");
    // 1. all programs under all configurations: equals the C interface and the reference
    for (auto const &p : ps) {
        for (auto const &c : cs) {
            ctx.test([&] {
                auto vars = p.p.vars;
                vars.emplace_back("undefined");
                for (char const *mode : {"callback", "yield"}) { same(ctx, "solve", {text(p)}, vars, c, mode); }
                // and the reference
                auto got = py.request("solve", {text(p)}, p.p.vars, c);
                std::multiset<std::string> g, w;
                for (auto const &l : got) { if (l[0] == 'M') { g.insert(l); } }
                for (auto const &s : brute(p.p)) {
                    std::string v;
                    for (I x : s.vals) { v += cat(v.empty() ? "" : " ", x); }
                    auto l = cat("M ", atoms(s.mask), ";", v, ";", assignment(p.p.vars, s.vals), ";");
                    w.insert(p.obj.empty() || (!g.empty() && g.begin()->back() == ';') ? l : cat(l, cost(p.obj, s.vals)));
                }
                if (p.obj.empty() ? g != w : !std::includes(w.begin(), w.end(), g.begin(), g.end()) || g.empty() != w.empty()) { throw Violation(cat("program:\n", text(p), "\noptions: ", c.str(), "\npython:\n", joined(got))); }
                if (!w.empty()) { ctx.count(NONTRIV); }
                ctx.outcome(cat(text(p), c.str()));
                if (ctx.wants_sample()) { ctx.sample(cat(text(p), " => ", g.size(), " models")); } else { ctx.skip_sample(); }
            });
        }
    }
    // 2. shown variables, names, option values
    for (auto const &p : ps) {
        ctx.test([&] { for (char const *s : {"&show{ x }.", "&show{ }.", "&show{ x/0; y }.", "#show. &show{ y }."}) { for (char const *mode : {"callback", "yield"}) { same(ctx, "solve", {text(p) + s}, p.p.vars, box, mode); } } ctx.outcome(text(p) + "show"); });
        for (auto const &[o, vs] : options()) { ctx.test([&, o = o, vs = vs] { for (auto const &v : vs) { same(ctx, "solve", {text(p)}, p.p.vars, box.with(o, v), "callback"); } ctx.outcome(o + text(p)); }); }
    }
    for (char const *n : {"x", "f(1)", "f(1,2)", "(1,2)", "(1,)", "\"str\"", "f(\"a;b\")", "f(g(x),h(-1))", "__x", "_a"}) {
        ctx.test([&] { for (char const *mode : {"callback", "yield"}) { same(ctx, "solve", {cat("&sum{ ", n, " } <= 2. &sum{ ", n, " } >= -1. {a}."), cat("&sum{ 2*", n, "; y } <= 1.")}, {n, "y"}, box.with("max-int", "3").with("min-int", "-3"), mode); } ctx.outcome(n); });
    }
    for (auto const &[o, vs] : options()) {
        Strs bad{"maybe", "1x", "1,2,3", "99999999999999999999"};
        bad.insert(bad.end(), vs.begin(), vs.end());
        for (auto const &v : bad) { ctx.test([&, o = o] { same(ctx, "solve", {"{a}. &dom{ 0..2 } = x. &sum{ x } > 1 :- a."}, {"x"}, box.with(o, v), "callback"); ctx.outcome(o + v); }); }
    }
    for (char const *o : {"min-int", "max-int", "no-such-option"}) { for (char const *v : {"-1", "0", "2", "x", "", "1073741823", "1073741824", "-1073741823", "-1073741824", "min", "max"}) { ctx.test([&] { same(ctx, "solve", {"&dom{ -1..2 } = x."}, {"x"}, Conf{{"0"}, {{o, v}}}, "callback"); ctx.outcome(cat(o, v)); }); } }
    // 3. errors
    for (auto const &t : broken()) { ctx.test([&] { for (char const *mode : {"callback", "yield"}) { same(ctx, "solve", {t}, {"x"}, box, mode); } ctx.outcome(t); }); }
    ctx.test([&] {
        auto r = py.request("errors", {"&sum{ x } <= 1. a."}, {}, box);
        if (r != Strs{"X True"}) { throw Violation("error raised in callback of rewrite_ast: " + joined(r)); }
        int x = 0, y = 0, z = 0;
        clingcon_version(&x, &y, &z);
        r = py.request("version", {}, {}, box);
        if (r != Strs{cat("V ", x, ".", y, ".", z)}) { throw Violation("version: " + joined(r)); }
        ctx.count(CHECKS, 2);
    });
    // 4. steps: all sequences over a pool of fragments
    Strs const frag{"&dom{ 0..2 } = x. {a}.", "&sum{ x; y } <= 2. &dom{ 0..2 } = y.", "b :- &sum{ x } > 1.", "&distinct{ x; z; 1 }. &dom{ -1..1 } = z.", ":- &sum{ x } <= 0.", "&show{ x }.", "&minimize{ x }.", "&sum{ x; -1*w } = 0. &dom{ 1..2 } = w."};
    size_t depth = T ? 4 : 3;
    std::function<void(Strs)> rec = [&](Strs s) {
        if (!s.empty()) {
            ctx.test([&] {
                for (char const *mode : {"callback", "yield"}) { same(ctx, "multi", s, {"x", "y", "z", "w"}, Conf{{"0", "--stats"}, {{"min-int", "-2"}, {"max-int", "2"}}}, mode); }
                ctx.outcome(joined(s));
            });
        }
        if (s.size() < depth) { for (auto const &f : frag) { if (std::find(s.begin(), s.end(), f) == s.end()) { auto d = s; d.push_back(f); rec(d); } } }
    };
    rec({});
    // 5. the application prints the same as the reference
    auto app = [&](std::string const &t, Want const &w, Conf const &c, char const *models) {
        auto a = cmd(c, models);
        Conf k{{a.begin() + 1, a.end()}, {}};
        auto r = py.request("app", {t}, {}, k);
        ctx.count(EXEC);
        Proc p;
        for (auto const &l : r) { if (l[0] == 'O') { p.out += l.substr(2) + "\n"; } else if (l[0] == 'C') { p.code = std::stoi(l.substr(2)); } else { throw Violation("python application: " + joined(r)); } }
        auto fail = [&](std::string const &what) { return Violation(tell(t, a, p, "python application: " + what)); };
        Output o;
        try { o = parse(p.out, p.code); } catch (Violation &e) { throw fail(e.what()); }
        judge(ctx, o, w, models, fail);
        ctx.count(CHECKS);
    };
    Conf plain{{}, {{"min-int", "-10"}, {"max-int", "10"}}};
    for (auto const &p : ps) {
        ctx.test([&] {
            auto w = want(p);
            for (auto const &c : cs) { auto d = c; d.args.clear(); for (char const *n : {"0", static_cast<char const *>(nullptr)}) { app(text(p), w, d, n); } }
            for (char const *n : {"1", "2", "3"}) { app(text(p), w, plain, n); }
            for (char const *n : {"0", static_cast<char const *>(nullptr)}) {
                auto sel = [&](std::set<std::string> const &s) { return want(p, [s](std::string const &x) { return s.count(x) > 0; }); };
                app(text(p) + "&show{ x }.", sel({"x"}), plain, n);
                app(text(p) + "&show{ }.", sel({}), plain, n);
                app(text(p) + "#show. &show{ x/0; y }.", want(p, [](std::string const &x) { return x == "x" || x == "y"; }, false), plain, n);
                app(text(p) + "__hidden.", w, plain, n);
            }
            ctx.outcome(text(p) + "app");
        });
    }
    for (int lo = -2; lo <= 2; ++lo) {
        for (int hi = lo; hi <= 2; ++hi) {
            ctx.test([&] {
                Want w;
                for (int x = lo; x <= hi; ++x) { w.models.push_back({"", cat("x=", x), "", ""}); }
                app("&sum{ x } >= -100.", w, Conf{{}, {{"min-int", cat(lo)}, {"max-int", cat(hi)}}}, "0");
                ctx.outcome(cat(lo, hi));
            });
        }
    }
    auto refused = [&](std::string const &t, Strs const &more) {
        Conf k{{"-", "0"}, {}};
        k.args.insert(k.args.end(), more.begin(), more.end());
        auto r = py.request("app", {t}, {}, k);
        ctx.count(EXEC);
        ctx.count(CHECKS);
        for (auto const &l : r) {
            if (l.compare(0, 8, "O Answer") == 0 || l.find("SATISFIABLE") != std::string::npos) { throw Violation(cat("python application accepts ", t, " ", joined(more), joined(r))); }
            if (l[0] == 'C' && (l == "C 10" || l == "C 20" || l == "C 30" || l.find('-') != std::string::npos)) { throw Violation(cat("python application: exit code for ", t, " ", joined(more), joined(r))); }
        }
    };
    for (auto const &t : broken()) { ctx.test([&] { refused(t, {}); }); }
    for (char const *o : {"--min-int=x", "--max-int=1073741824", "--split-all=yes,64", "--order-heuristic=foo", "--sign-value=x", "--translate-clauses=1,x", "--translate-pb=x"}) { ctx.test([&] { refused("a.", {o}); }); }
    ctx.test([&] { refused("a.", {"--min-int=3", "--max-int=1"}); });
    // 6. the module can be run
    ctx.test([&] {
        setenv("PYTHONPATH", (bin() + "/py").c_str(), 1);
        setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
        for (auto const &p : ps) {
            Strs a{"/opt/vp/pydeps/bin/python", "-m", "clingcon", "-", "--min-int=-10", "--max-int=10"};
            if (p.obj.empty()) { a.emplace_back("0"); }
            auto r = spawn(a, text(p));
            ctx.count(EXEC);
            auto fail = [&](std::string const &what) { return Violation(tell(text(p), a, r, what)); };
            Output o;
            try { o = parse(r.out, r.code); } catch (Violation &e) { throw fail(e.what()); }
            judge(ctx, o, want(p), p.obj.empty() ? "0" : nullptr, fail);
            ctx.count(CHECKS);
        }
    });
}

// }}}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    signal(SIGPIPE, SIG_IGN);
    if (id == "C25") {
        auto d = program_check(id, "The application is built from the tree and run on every program of the pool (with and without objective) under all configurations, option values, numbers of models, show statements, names of variables, input files, and errors; the printed answers, assignments, costs, verdict, number of models and exit code are compared with the brute-force solutions. distinct = program/option combinations.", c25);
        return run_check(d, argc - 2, argv + 2);
    }
    if (id == "C27") {
        auto d = program_check(id, "The Python package is built from the tree; every program of the pool under all configurations and option values, all sequences of steps over a pool of fragments, malformed statements and option values are executed by Python and by the C interface, and answers, values, costs, statistics and errors must agree line by line and with the brute-force solutions; likewise for the Python application. distinct = program/option combinations and histories.", c27);
        return run_check(d, argc - 2, argv + 2);
    }
    return 2;
}
