// Exhaustive case runner: every worker walks the same deterministic enumeration
// and executes the cases whose index falls into its residue class. Crashes, hangs
// and violations are confirmed by replaying the case alone before being reported.
#pragma once
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>
#include <thread>

namespace V {

struct Violation : std::runtime_error {
    explicit Violation(std::string const &what) : std::runtime_error(what) {}
};

inline auto json_str(std::string const &s) -> std::string {
    std::string r = "\"";
    for (unsigned char c : s) {
        switch (c) {
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\n': r += "\\n"; break;
            case '\t': r += "\\t"; break;
            case '\r': r += "\\r"; break;
            default:
                if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
                else { r += static_cast<char>(c); }
        }
    }
    return r + "\"";
}

template <class... A> auto cat(A const &...a) -> std::string {
    std::ostringstream o;
    (o << ... << a);
    return o.str();
}

inline auto hash_str(std::string const &s) -> uint64_t {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h = (h ^ c) * 1099511628211ULL; }
    return h;
}

constexpr int MAXW = 64;
constexpr int NCTR = 24;

struct Shared {
    struct W {
        volatile uint64_t current;   // index of current case + 1, 0 if none
        volatile double started;
        volatile uint64_t ctr[NCTR];
        volatile int status; // 0 running 1 done 2 violation 3 error
        volatile uint64_t viol_idx;
        char msg[16384];
        char sample[4096];
    } w[MAXW];
};

inline auto now() -> double {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// Handed to the enumeration; decides which cases run in this process.
class Ctx {
  public:
    Ctx(Shared::W &w, uint64_t n, uint64_t r, bool thorough) : w_{w}, n_{n}, r_{r}, thorough_{thorough} {}
    bool thorough() const { return thorough_; }
    // cheap test whether the next case is ours; always advances the index
    bool next() {
        ++idx_;
        if (only_ >= 0) { return static_cast<int64_t>(idx_ - 1) == only_; }
        if (until_ >= 0 && static_cast<int64_t>(idx_ - 1) > until_) { throw Stop{}; }
        // spread neighbouring cases, which tend to differ in one dimension only
        uint64_t h = (idx_ - 1) * 0x9E3779B97F4A7C15ULL;
        h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ULL;
        return (h ^ (h >> 32)) % n_ == r_;
    }
    struct Stop {};
    uint64_t total() const { return idx_; }
    void begin() {
        w_.started = now();
        w_.current = idx_;
    }
    void end() {
        w_.current = 0;
        w_.ctr[0] = w_.ctr[0] + 1;
    }
    // f is run for cases of this process
    template <class F> void test(F &&f) {
        if (!next()) { return; }
        begin();
        if (judge_) { f(); } else { try { f(); } catch (Stop &) { throw; } catch (std::exception &e) { if (getenv("VERIF_SHOW") != nullptr) { std::cerr << e.what() << std::endl; } ++unjudged_; } }
        end();
        if (only_ >= 0) { throw Stop{}; }
    }
    void count(int i, uint64_t k = 1) { w_.ctr[i] = w_.ctr[i] + k; }
    void heartbeat() { w_.started = now(); }
    void outcome(uint64_t h) { if (outcomes_.size() < 4000000) { outcomes_.insert(h); } }
    void outcome(std::string const &s) { outcome(hash_str(s)); }
    void sample(std::string const &s) {
        uint64_t k = ++nsample_;
        if ((k & (k - 1)) == 0) {
            std::strncpy(w_.sample, s.c_str(), sizeof(w_.sample) - 1);
        }
    }
    bool wants_sample() const { uint64_t k = nsample_ + 1; return (k & (k - 1)) == 0; }
    void skip_sample() { ++nsample_; }

    uint64_t idx_{0};
    bool judge_{true};        // otherwise only crashes count
    uint64_t unjudged_{0};
    int64_t only_{-1};
    int64_t until_{-1};
    uint64_t nsample_{0};
    std::unordered_set<uint64_t> outcomes_;
    Shared::W &w_;
    uint64_t n_, r_;
    bool thorough_;
};

struct CheckDef {
    std::string id;
    std::string level; // evidence level
    std::string rule;
    std::vector<std::string> assumptions;
    // names of counters 1.. ; counter 0 is "cases"
    std::map<int, std::string> counters;
    std::function<void(Ctx &)> enumerate;
    double case_timeout = 120;
};

enum Ctr { EXEC = 1, STATES = 2, TRANS = 3, CHECKS = 4, NONTRIV = 5, SOLS = 6, CLAUSES = 7, EXTRA1 = 8, EXTRA2 = 9, EXTRA3 = 10, EXTRA4 = 11 };

inline auto shm() -> Shared * {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<Shared *>(p);
}

inline void run_worker(CheckDef const &def, Shared::W &w, int n, int r, bool thorough, int64_t only, int64_t until,
                       std::string const &outfile) {
    Ctx ctx{w, static_cast<uint64_t>(n), static_cast<uint64_t>(r), thorough};
    ctx.only_ = only;
    ctx.until_ = until;
    try {
        try {
            def.enumerate(ctx);
        } catch (Ctx::Stop &) {
        }
        w.status = 1;
    } catch (Violation &e) {
        w.viol_idx = ctx.idx_ - 1;
        std::strncpy(w.msg, e.what(), sizeof(w.msg) - 1);
        w.status = 2;
    } catch (std::exception &e) {
        w.viol_idx = ctx.idx_ - 1;
        std::strncpy(w.msg, cat("unexpected exception: ", e.what()).c_str(), sizeof(w.msg) - 1);
        w.status = w.current != 0 ? 2 : 3;
    }
    w.ctr[NCTR - 1] = ctx.idx_;
    if (!outfile.empty()) {
        std::ofstream f(outfile, std::ios::binary);
        for (auto h : ctx.outcomes_) { f.write(reinterpret_cast<char const *>(&h), sizeof h); }
    }
}

struct Outcome { int kind; std::string msg; }; // 0 fine, 1 violation, 2 error, 3 crash/hang

// Run one case (or the prefix of a worker) in a fresh process.
inline Outcome replay(CheckDef const &def, bool thorough, int n, int r, int64_t only, int64_t until, double limit) {
    auto *s = shm();
    pid_t pid = fork();
    if (pid == 0) {
        run_worker(def, s->w[0], n, r, thorough, only, until, "");
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    Outcome res{0, ""};
    while (true) {
        pid_t p = waitpid(pid, &st, WNOHANG);
        if (p == pid) { break; }
        if (now() - t0 > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            res = {3, cat("did not terminate within ", limit, "s")};
            munmap(s, sizeof(Shared));
            return res;
        }
        usleep(2000);
    }
    if (WIFSIGNALED(st)) { res = {3, cat("crashed with signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")")}; }
    else if (WEXITSTATUS(st) != 0 && s->w[0].status == 0) { res = {3, cat("process exited with code ", WEXITSTATUS(st))}; }
    else if (s->w[0].status == 2) { res = {1, s->w[0].msg}; }
    else if (s->w[0].status == 3) { res = {2, s->w[0].msg}; }
    munmap(s, sizeof(Shared));
    return res;
}

inline auto env(char const *k, char const *d) -> std::string { auto *v = getenv(k); return v != nullptr && *v != 0 ? v : d; }

inline int run_check(CheckDef const &def, int argc, char **argv) {
    std::string tier = env("VERIF_TIER", "quick");
    std::string root = env("VERIF_ROOT", "/verif");
    int64_t only = -1;
    int workers = std::min(MAXW, std::max(1, atoi(env("VERIF_JOBS", "0").c_str())));
    if (env("VERIF_JOBS", "").empty()) { workers = std::min<int>(MAXW, std::max(1u, std::thread::hardware_concurrency())); }
    for (int i = 0; i < argc; ++i) {
        if (std::string(argv[i]) == "--replay" && i + 1 < argc) { only = atoll(argv[++i]); }
        if (std::string(argv[i]) == "--tier" && i + 1 < argc) { tier = argv[++i]; }
    }
    bool thorough = tier == "thorough";
    if (only >= 0) {
        auto o = replay(def, thorough, 1, 0, only, -1, 600);
        std::cout << (o.kind == 0 ? "case passes" : "case fails: " + o.msg) << std::endl;
        return o.kind == 0 ? 0 : 1;
    }
    double t0 = now();
    auto *s = shm();
    std::string tmp = cat(env("VERIF_BUILD", "/tmp"), "/out.", def.id, ".", getpid());
    std::vector<pid_t> pids;
    std::cout.flush(); std::cerr.flush();
    for (int i = 0; i < workers; ++i) {
        pid_t p = fork();
        if (p == 0) {
            run_worker(def, s->w[i], workers, i, thorough, -1, -1, cat(tmp, ".", i));
            _exit(0);
        }
        pids.push_back(p);
    }
    std::vector<int> alive(workers, 1);
    int left = workers;
    int64_t bad = -1; int badw = -1; std::string badmsg; bool suspect_hang = false; bool crashed = false;
    while (left > 0) {
        int st = 0;
        bool any = false;
        for (int i = 0; i < workers; ++i) {
            if (!alive[i]) { continue; }
            pid_t p = waitpid(pids[i], &st, WNOHANG);
            if (p == pids[i]) {
                any = true; alive[i] = 0; --left;
                int64_t b = -1; std::string m;
                if (WIFSIGNALED(st) || s->w[i].status == 0) {
                    b = static_cast<int64_t>(s->w[i].current) - 1;
                    m = WIFSIGNALED(st) ? cat("crashed with signal ", WTERMSIG(st)) : cat("exited with code ", WEXITSTATUS(st));
                    if (b < 0) { std::cerr << "worker " << i << " died outside of a case: " << m << std::endl; for (auto q : pids) { kill(q, SIGKILL); } return 3; }
                } else if (s->w[i].status == 2) { b = static_cast<int64_t>(s->w[i].viol_idx); m = s->w[i].msg; }
                else if (s->w[i].status == 3) { std::cerr << "error in harness: " << s->w[i].msg << std::endl; for (auto q : pids) { kill(q, SIGKILL); } return 3; }
                if (b >= 0 && (bad < 0 || b < bad)) {
                    bad = b; badw = i; badmsg = m; suspect_hang = false;
                    int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
                    crashed = sig == SIGABRT || sig == SIGSEGV || sig == SIGBUS || sig == SIGFPE || sig == SIGILL;
                }
            } else if (s->w[i].current != 0 && now() - s->w[i].started > def.case_timeout) {
                int64_t b = static_cast<int64_t>(s->w[i].current) - 1;
                kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0);
                any = true; alive[i] = 0; --left;
                if (bad < 0 || b < bad) { bad = b; badw = i; badmsg = "timeout"; suspect_hang = true; }
            }
        }
        if (bad >= 0) {
            for (int i = 0; i < workers; ++i) { if (alive[i]) { kill(pids[i], SIGKILL); waitpid(pids[i], &st, 0); alive[i] = 0; } }
            break;
        }
        if (!any) { usleep(5000); }
    }
    int violations = 0;
    std::string path;
    if (bad >= 0) {
        // replay before report
        auto o = replay(def, thorough, 1, 0, bad, -1, suspect_hang ? 2 * def.case_timeout : def.case_timeout);
        std::string how = "replayed alone";
        if (o.kind == 0) {
            o = replay(def, thorough, workers, badw, -1, bad, 600);
            how = cat("replayed after the preceding cases of worker ", badw, "/", workers);
        }
        // failures that depend on the state of the process (addresses, uninitialized memory, real threads)
        for (int i = 0; i < 10 && o.kind == 0; ++i) {
            o = i % 2 == 0 ? replay(def, thorough, 1, 0, bad, -1, def.case_timeout) : replay(def, thorough, workers, badw, -1, bad, 60);
            how = cat("replayed repeatedly (", i + 1, " attempts)");
        }
        if (o.kind == 2) { std::cerr << "error in harness: " << o.msg << std::endl; return 3; }
        // a crash is a failure of the library even if it depends on the schedule of real threads
        if (o.kind == 0 && crashed) {
            o = {3, "crashed once, depending on the schedule of solver threads"};
            how = "observed once";
        }
        if (o.kind == 0) {
            std::cerr << "UNREPRODUCED: case " << bad << " failed once but not on replay: " << badmsg << std::endl;
            return 4;
        }
        violations = 1;
        mkdir(cat(root, "/replays").c_str(), 0755);
        path = cat(root, "/replays/", def.id, ".txt");
        std::ofstream f(path);
        f << "property: " << def.id << "\ntier: " << tier << "\ncase: " << bad << "\nconfirmed: " << how
          << "\nreplay: ./check " << def.id << " " << tier << " --replay " << bad << "\n\n" << (o.kind == 3 ? o.msg + "\n" + badmsg : o.msg) << "\n";
        f.close();
        std::cout << "case " << bad << " (" << how << "):\n" << o.msg << "\n";
    }
    // evidence
    std::unordered_set<uint64_t> outs;
    for (int i = 0; i < workers; ++i) {
        std::ifstream f(cat(tmp, ".", i), std::ios::binary);
        uint64_t h;
        while (f.read(reinterpret_cast<char *>(&h), sizeof h)) { outs.insert(h); }
        f.close();
        unlink(cat(tmp, ".", i).c_str());
    }
    uint64_t ctr[NCTR] = {};
    uint64_t space = 0;
    for (int i = 0; i < workers; ++i) {
        for (int j = 0; j + 1 < NCTR; ++j) { ctr[j] += s->w[i].ctr[j]; }
        space = std::max<uint64_t>(space, uint64_t{s->w[i].ctr[NCTR - 1]});
    }
    double wall = now() - t0;
    std::ofstream ev(cat(root, "/evidence/", def.id, ".json"));
    ev << "{\n  \"property\": \"" << def.id << "\",\n  \"tier\": \"" << tier << "\",\n  \"seed\": " << atoi(env("VERIF_SEED", "1").c_str())
       << ",\n  \"level\": \"" << def.level << "\",\n  \"coverage\": {\n    \"evaluations\": " << ctr[0]
       << ",\n    \"case_space\": " << space << ",\n    \"exhaustive\": " << (bad < 0 && ctr[0] == space ? "true" : "false");
    for (auto const &[i, name] : def.counters) { ev << ",\n    \"" << name << "\": " << ctr[i]; }
    ev << ",\n    \"distinct_nontrivial\": " << outs.size() << ",\n    \"rule\": " << json_str(def.rule) << ",\n    \"samples\": [";
    bool sep = false;
    for (int i = 0; i < std::min(workers, 4); ++i) {
        if (s->w[i].sample[0] != 0) { ev << (sep ? ", " : "") << json_str(s->w[i].sample); sep = true; }
    }
    ev << "]\n  },\n  \"assumptions\": [";
    for (size_t i = 0; i < def.assumptions.size(); ++i) { ev << (i ? ", " : "") << json_str(def.assumptions[i]); }
    ev << "],\n  \"wall_s\": " << wall << ",\n  \"violations\": " << violations << "\n}\n";
    ev.close();
    std::cout << def.id << " " << tier << ": cases=" << ctr[0] << "/" << space;
    for (auto const &[i, name] : def.counters) { std::cout << " " << name << "=" << ctr[i]; }
    std::cout << " distinct_outcomes=" << outs.size() << " wall=" << wall << "s" << std::endl;
    if (violations > 0) {
        std::cout << "VIOLATION property=" << def.id << " replay=" << path << std::endl;
        return 1;
    }
    if (ctr[0] == 0) { std::cerr << "nothing was explored" << std::endl; return 3; }
    return 0;
}

} // namespace V
