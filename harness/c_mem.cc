// C34 memory safety: the library runs under AddressSanitizer and UBSan with
// poisoned fresh memory; results are not judged here
#include "mock_api.hh"
#include "pool.hh"
#include <cmath>
#include <cstring>
#include <mutex>
#include <new>

// records the allocations made by the code in this executable (clingo keeps
// growing tables of its own)
extern "C" char __executable_start, etext;
static bool tracking = false;
static std::mutex track_mutex;
static void *tracked[1 << 16];
static size_t ntracked = 0;
static void *alloc(size_t n, void *from) noexcept {
    void *p = std::malloc(n);
    if (tracking && from >= &__executable_start && from < &etext) {
        std::lock_guard<std::mutex> g{track_mutex};
        if (ntracked < sizeof(tracked) / sizeof(tracked[0])) { tracked[ntracked++] = p; }
    }
    return p;
}
static void dealloc(void *p) noexcept {
    if (tracking && p != nullptr) {
        std::lock_guard<std::mutex> g{track_mutex};
        for (size_t i = ntracked; i-- > 0;) { if (tracked[i] == p) { tracked[i] = tracked[--ntracked]; break; } }
    }
    std::free(p);
}
void *operator new(size_t n) { if (void *p = alloc(n, __builtin_return_address(0))) { return p; } throw std::bad_alloc{}; }
void *operator new[](size_t n) { if (void *p = alloc(n, __builtin_return_address(0))) { return p; } throw std::bad_alloc{}; }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return alloc(n, __builtin_return_address(0)); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return alloc(n, __builtin_return_address(0)); }
void operator delete(void *p) noexcept { dealloc(p); }
void operator delete[](void *p) noexcept { dealloc(p); }
void operator delete(void *p, size_t) noexcept { dealloc(p); }
void operator delete[](void *p, size_t) noexcept { dealloc(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { dealloc(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { dealloc(p); }

extern "C" char const *__asan_default_options() { return "detect_stack_use_after_return=0:strict_init_order=1:check_initialization_order=1:alloc_dealloc_mismatch=0"; }

namespace HI {
#include "c_hist.cc"
}
namespace TE {
#include "c_term.cc"
}
namespace SH {
#include "c_show.cc"
}
namespace MI {
#include "c_mix.cc"
}
namespace MO {
#include "c_mock.cc"
}
namespace ST {
#include "c_steps.cc"
}
using namespace V;

namespace {

struct Throwing : Handler {
    using Handler::Handler;
    bool on_model(Clingo::Model &m) override { Handler::on_model(m); throw std::runtime_error("error in model callback"); }
};

char const *const malformed[] = {"&sum{x}.", "&sum{x;1..2}<=3.", "&sum{x*y}<=3.", "&sum{x/0}>=1.", "&diff{x-y-z}<=2.", "&diff{x-y}<=a.", "&dom{1..a}=x.", "&dom{1}=2*x.", "&dom{99999999999}=x.",
    "&distinct{x*y}.", "&disjoint{x}.", "&disjoint{x@y}.", "&show{1}.", "&show{x/a}.", "&minimize{x@y}.", "&nsum{x**y}<=1.", "{e}. &sum{x:e}<=1.", "a :- &sum{x*\"s\"}<=1.", "&sum{2147483647*x;2147483647*x}<=1.", "x :- .", "&foo{x}."};

// memory in use after complete life cycles of a theory; bad is added in the second step if kind is 7 and in the first if kind is 6
void leak(Ctx &ctx, Prog const &p, Conf const &conf, int kind, char const *bad = "") {
    auto cycle = [&] {
        Theory t{conf};
        if (kind == 0) { return; }
        t.add(text(p));
        if (kind == 1) { return; }
        try {
            if (kind == 6) { t.add(bad); }
            t.ground();
            t.prepare();
            if (kind == 2) { return; }
            for (int i = 0; i < 2; ++i) {
                if (kind == 5) {
                    Throwing h{t, p.p.vars};
                    t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
                } else {
                    Handler h{t, p.p.vars};
                    t.ctl().solve(Clingo::LiteralSpan{}, &h, false, false).get();
                }
                ctx.count(EXEC);
                if (kind == 3) { return; }
                if (kind == 7) {
                    t.add(cat("#program n.\n", bad));
                    t.ground("n");
                    t.prepare();
                }
            }
        } catch (std::exception const &e) {
            if (kind < 5) { throw; }
        }
    };
    // the first cycles fill tables that are kept
    cycle();
    ntracked = 0;
    tracking = true;
    cycle();
    size_t before = ntracked;
    cycle();
    tracking = false;
    if (ntracked > before) { throw Violation(report(text(p) + bad, conf, cat("a life cycle (kind ", kind, ") leaks ", ntracked - before, " blocks of memory"))); }
}

void c34(Ctx &ctx) {
    bool T = ctx.thorough();
    auto ps = programs();
    auto cs = confs(-4, 9);
    mock::mock_on = false;
    for (auto const &p : ps) {
        for (auto const &c : cs) {
            if (std::find(c.args.begin(), c.args.end(), "-t2") != c.args.end()) { continue; }
            for (int kind = 0; kind < 6; ++kind) { ctx.test([&] { leak(ctx, p, c, kind); }); }
            for (auto const *bad : malformed) {
                for (int kind = 6; kind < 8; ++kind) { ctx.test([&] { leak(ctx, p, c, kind, bad); }); }
            }
        }
    }
    ctx.judge_ = false;
    std::string only = env("VERIF_FAM", "");
    auto fam = [&](char const *name, auto &&f) { if ((only.empty() && (T || std::string(name) == "c22" || std::string(name) == "c18" || std::string(name) == "c24" || std::string(name) == "c12" || std::string(name) == "c29")) || only == name) { f(); } };
    fam("c09", [&] { HI::c09(ctx); });
    fam("c20", [&] { HI::c20(ctx); });
    fam("c22", [&] { HI::c22(ctx); });
    fam("c23", [&] { HI::c23(ctx); });
    fam("c18", [&] { TE::c18(ctx); });
    fam("c24", [&] { TE::c24(ctx); });
    fam("c21", [&] { SH::c21(ctx); });
    fam("c28", [&] { MI::c28(ctx); });
    mock::mock_on = true;
    fam("c12", [&] {
        MO::Setup s;
        s.restore = true;
        MO::all(ctx, s, T ? 2 : 1, {0, 1, 2, 3, 4, 5});
    });
    fam("c29", [&] { ST::undirected = !T; ST::c29(ctx); });
}

} // namespace

int main(int argc, char **argv) {
    auto d = program_check("C34", "The families of C18, C22 and C24 (thorough: also C09, C20, C21, C23, C28), all cuts of pool programs into steps, and all decision/backjump/restart prefixes on the controlled solver, executed by a library built with AddressSanitizer, UBSan, checked containers and assertions; memory is filled with a pattern when it is allocated. Checked: no invalid access, no undefined operation, no crash; plus all life cycles of pool programs: destruction returns all memory. distinct counts program outcomes.", c34);
    return run_check(d, argc - 2, argv + 2);
}
