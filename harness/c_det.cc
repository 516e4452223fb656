// C39 reproducibility: the memory handed to the library differs in layout,
// order and content between runs; everything observable has to be the same
#include "pool.hh"
#include <alloca.h>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <sys/mman.h>

extern "C" char __executable_start, etext;

// {{{ allocator with a choice of layouts

namespace {

enum Layout { UP, DOWN, SCATTER, QUEUE, LAYOUTS };
char const *const LAYOUT_NAMES[] = {"ascending, recently freed memory first, zeros", "descending, filled with 0xff", "scattered, filled with 0xa5", "longest freed memory first, filled with 0x01"};

struct Arena {
    static constexpr size_t SIZE = size_t{1} << 34, STEP = 16, CLASSES = 4096;
    char *base{nullptr};
    size_t low{0}, high{SIZE};
    uint64_t rnd{88172645463325252ULL};
    struct Free { void **data; size_t first, size, cap; } free[CLASSES];
    bool has(void *p) const { return base != nullptr && p >= base && p < base + SIZE; }
    void *get(Layout l, size_t n) {
        if (base == nullptr) {
            base = static_cast<char *>(mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            if (base == MAP_FAILED) { std::abort(); }
        }
        size_t c = (n + 16 + STEP - 1) / STEP;
        if (c >= CLASSES) { return nullptr; }
        auto &f = free[c];
        char *p = nullptr;
        if (f.size > f.first) {
            size_t i = f.size - 1;
            if (l == QUEUE) { i = f.first++; p = static_cast<char *>(f.data[i]); if (f.first == f.size) { f.first = f.size = 0; } }
            else {
                if (l == SCATTER) { i = f.first + next() % (f.size - f.first); }
                p = static_cast<char *>(f.data[i]);
                f.data[i] = f.data[--f.size];
            }
        } else if (l == DOWN || (l == SCATTER && (next() & 1) != 0)) {
            high -= c * STEP + (l == SCATTER ? next() % 8 * STEP : 0);
            p = base + high;
        } else {
            low += l == SCATTER ? next() % 8 * STEP : 0;
            p = base + low;
            low += c * STEP;
        }
        if (low + (1 << 20) > high) { std::abort(); }
        *reinterpret_cast<size_t *>(p) = c;
        std::memset(p + 16, l == UP ? 0 : l == DOWN ? 0xff : l == SCATTER ? 0xa5 : 0x01, c * STEP - 16);
        return p + 16;
    }
    void put(void *q) {
        char *p = static_cast<char *>(q) - 16;
        size_t c = *reinterpret_cast<size_t *>(p);
        auto &f = free[c];
        if (f.size == f.cap) {
            if (f.first > f.cap / 2) { std::memmove(f.data, f.data + f.first, (f.size - f.first) * sizeof(void *)); f.size -= f.first; f.first = 0; }
            else {
                f.cap = f.cap == 0 ? 64 : 2 * f.cap;
                f.data = static_cast<void **>(std::realloc(f.data, f.cap * sizeof(void *)));
            }
        }
        std::memset(p + 16, 0xdd, c * STEP - 16);
        f.data[f.size++] = p;
    }
    uint64_t next() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd >> 11; }
};
Arena arenas[LAYOUTS];
int layout = -1; // only while the library is used by one thread

void *alloc(size_t n, void *from) noexcept {
    if (layout >= 0 && from >= &__executable_start && from < &etext) {
        if (void *p = arenas[layout].get(static_cast<Layout>(layout), n)) { return p; }
    }
    return std::malloc(n);
}
void dealloc(void *p) noexcept {
    for (auto &a : arenas) { if (a.has(p)) { a.put(p); return; } }
    std::free(p);
}

} // namespace

void *operator new(size_t n) { if (void *p = alloc(n, __builtin_return_address(0))) { return p; } throw std::bad_alloc{}; }
void *operator new[](size_t n) { if (void *p = alloc(n, __builtin_return_address(0))) { return p; } throw std::bad_alloc{}; }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return alloc(n, __builtin_return_address(0)); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return alloc(n, __builtin_return_address(0)); }
void operator delete(void *p) noexcept { dealloc(p); }
void operator delete[](void *p) noexcept { dealloc(p); }
void operator delete(void *p, size_t) noexcept { dealloc(p); }
void operator delete[](void *p, size_t) noexcept { dealloc(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { dealloc(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { dealloc(p); }

// }}}
// {{{ the stack below each callback has a chosen content, too

namespace {

__attribute__((noinline)) void fill_stack() {
    constexpr size_t N = 1 << 14;
    auto *p = static_cast<volatile char *>(alloca(N));
    std::memset(const_cast<char *>(p), layout == UP ? 0 : layout == DOWN ? 0xff : layout == SCATTER ? 0xa5 : 0x01, N);
    asm volatile("" ::"r"(p) : "memory");
}

struct Wrapped {
    clingo_propagator_t p;
    void *data;
};
bool w_init(clingo_propagate_init_t *i, void *d) { fill_stack(); auto *w = static_cast<Wrapped *>(d); return w->p.init == nullptr || w->p.init(i, w->data); }
bool w_propagate(clingo_propagate_control_t *c, clingo_literal_t const *l, size_t n, void *d) { fill_stack(); auto *w = static_cast<Wrapped *>(d); return w->p.propagate(c, l, n, w->data); }
void w_undo(clingo_propagate_control_t const *c, clingo_literal_t const *l, size_t n, void *d) { fill_stack(); auto *w = static_cast<Wrapped *>(d); w->p.undo(c, l, n, w->data); }
bool w_check(clingo_propagate_control_t *c, void *d) { fill_stack(); auto *w = static_cast<Wrapped *>(d); return w->p.check(c, w->data); }
bool w_decide(clingo_id_t t, clingo_assignment_t const *a, clingo_literal_t f, void *d, clingo_literal_t *r) { fill_stack(); auto *w = static_cast<Wrapped *>(d); return w->p.decide(t, a, f, w->data, r); }
std::vector<std::unique_ptr<Wrapped>> wrapped;

} // namespace

extern "C" bool clingo_control_register_propagator(clingo_control_t *control, clingo_propagator_t const *p, void *data, bool sequential) {
    static auto real = reinterpret_cast<decltype(&clingo_control_register_propagator)>(dlsym(RTLD_NEXT, "clingo_control_register_propagator"));
    auto saved = layout;
    layout = -1;
    wrapped.push_back(std::make_unique<Wrapped>(Wrapped{*p, data}));
    clingo_propagator_t w{w_init, p->propagate ? w_propagate : nullptr, p->undo ? w_undo : nullptr, p->check ? w_check : nullptr, p->decide ? w_decide : nullptr};
    bool ret = real(control, &w, wrapped.back().get(), sequential);
    layout = saved;
    return ret;
}

// }}}

using namespace V;

namespace {

struct Log : Clingo::SolveEventHandler {
    Theory &t;
    std::string &out;
    int limit;
    Log(Theory &t, std::string &out, int limit) : t{t}, out{out}, limit{limit} {}
    bool on_model(Clingo::Model &m) override {
        handle_error(clingcon_on_model(t.c(), m.to_c()));
        std::vector<std::string> s;
        for (auto x : m.symbols(Clingo::ShowType::Shown | Clingo::ShowType::Theory)) { s.push_back(x.to_string()); }
        std::sort(s.begin(), s.end()); // sets do not have an order
        out += "model";
        for (auto const &x : s) { out += " " + x; }
        clingcon_assignment_begin(t.c(), m.thread_id(), &begin);
        out += " |";
        for (size_t i = begin; clingcon_assignment_next(t.c(), m.thread_id(), &i);) {
            out += " " + Clingo::Symbol{clingcon_get_symbol(t.c(), i)}.to_string();
        }
        out += "\n";
        return --limit != 0;
    }
    void on_statistics(Clingo::UserStatistics step, Clingo::UserStatistics accu) override { handle_error(clingcon_on_statistics(t.c(), step.to_c(), accu.to_c())); }
    size_t begin{0};
};

void stats(Clingo::Statistics const &s, std::string const &key, std::string &out) {
    if (key.find("ime") != std::string::npos || key.find("cpu") != std::string::npos) { return; }
    switch (s.type()) {
        case Clingo::StatisticsType::Value: { out += cat("  ", key, "=", s.value(), "\n"); break; }
        case Clingo::StatisticsType::Array: { for (size_t i = 0; i < s.size(); ++i) { stats(s[i], cat(key, ".", i), out); } break; }
        case Clingo::StatisticsType::Map: { for (auto const *k : s.keys()) { stats(s[k], key + "." + k, out); } break; }
        default: { break; }
    }
}

std::string trace(std::string const &prg, Conf conf, int limit) {
    std::string out;
    try {
        fill_stack();
        conf.args.emplace_back("--stats=2");
        Theory t{conf};
        t.add(prg + "#program n. { i }. ");
        for (int step = 0; step < 3; ++step) {
            fill_stack();
            if (step != 1) { t.ground(step == 0 ? "base" : "n"); t.prepare(); }
            Log log{t, out, step == 0 ? limit : 0};
            auto res = t.ctl().solve(Clingo::LiteralSpan{}, &log, false, false).get();
            out += cat("verdict ", res.is_satisfiable(), res.is_exhausted(), "\n");
            stats(t.ctl().statistics(), "", out);
        }
    } catch (std::exception const &e) {
        out += cat("error: ", e.what(), "\n");
    }
    return out;
}

void c39(Ctx &ctx) {
    bool T = ctx.thorough();
    auto ps = programs();
    auto cs = confs(-4, 9);
    for (size_t i = 0, n = cs.size(); i < n; ++i) {
        cs.push_back(cs[i].arg("--rand-freq=0.3").arg("--seed=5"));
        if (T) { cs.push_back(cs[i].arg("--heuristic=Berkmin").arg("--restarts=F,3")); cs.push_back(cs[i].with("split-all", "yes").with("order-heuristic", "max-chain")); }
    }
    for (auto const &p : ps) {
        for (auto const &c : cs) {
            for (int limit : {0, 2}) {
                ctx.test([&] {
                    auto prg = text(p);
                    auto want = trace(prg, c, limit);
                    ctx.count(EXEC);
                    ctx.count(NONTRIV, want.find("model") != std::string::npos);
                    ctx.outcome(want);
                    for (int l = 0; l < LAYOUTS; ++l) {
                        layout = l;
                        auto got = trace(prg, c, limit);
                        layout = -1;
                        wrapped.clear();
                        ctx.count(EXEC);
                        if (got != want) {
                            size_t i = 0, line = 0;
                            while (i < got.size() && i < want.size() && got[i] == want[i]) { if (got[i] == '\n') { line = i + 1; } ++i; }
                            auto part = [&](std::string const &s) { return s.substr(line, std::min(s.find('\n', line), s.size()) - line); };
                            throw Violation(report(prg, c, cat("the same calls lead to different results if the library's memory is ", LAYOUT_NAMES[l], "\n  ", part(want), "\n  ", part(got))));
                        }
                    }
                });
            }
        }
    }
}

} // namespace

int main(int argc, char **argv) {
    std::string id = argc > 1 ? argv[1] : "";
    if (id == "C39") { return run_check(program_check(id, "pool programs under all configurations with fixed seeds, over three solve calls: models in order, verdicts, and all counters of clingcon and clasp are the same for every layout, reuse order and initial content of the memory the library gets", c39), argc - 2, argv + 2); }
    return 2;
}
