#include "tsan.hh"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <dlfcn.h>
#include <cxxabi.h>

namespace V::race {
int thread = -1;
bool enabled = true;
bool locked = false;
void (*on_atomic)() = nullptr;
namespace {
// state of an 8 byte cell; the masks describe threads
struct Cell {
    uintptr_t key;
    uint32_t epoch;
    uint8_t rd, wr;   // threads that read or wrote without lock
    uint8_t lrd, lwr; // threads that read or wrote holding the lock
    uint8_t mrd[4], mwr[4]; // accessed bytes per thread
    void *pc[4];
};
constexpr size_t SIZE = 1 << 20;
Cell *cells = nullptr;
uint32_t epoch = 1;
unsigned long naccess = 0, nshared = 0, nused = 0;
char msg[1024];

Cell *get(uintptr_t key, bool create) {
    if (cells == nullptr) {
        if (!create) { return nullptr; }
        cells = static_cast<Cell *>(calloc(SIZE, sizeof(Cell)));
    }
    size_t h = (key * 0x9E3779B97F4A7C15ULL) >> 44;
    for (;; h = (h + 1) % SIZE) {
        auto &c = cells[h];
        if (c.epoch != epoch) {
            if (!create) { return nullptr; }
            if (++nused > SIZE / 2) { std::fprintf(stderr, "shadow memory exhausted\n"); std::abort(); }
            memset(&c, 0, sizeof c);
            c.key = key;
            c.epoch = epoch;
            return &c;
        }
        if (c.key == key) { return &c; }
    }
}

void name(void *pc, char *buf, size_t n) {
    Dl_info info;
    if (dladdr(pc, &info) != 0 && info.dli_sname != nullptr) {
        int st = 0;
        char *d = abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &st);
        std::snprintf(buf, n, "%s", d != nullptr ? d : info.dli_sname);
        free(d);
    } else if (dladdr(pc, &info) != 0) {
        std::snprintf(buf, n, "offset 0x%lx", static_cast<unsigned long>(static_cast<char *>(pc) - static_cast<char *>(info.dli_fbase)));
    } else {
        std::snprintf(buf, n, "%p", pc);
    }
}

void access(uintptr_t a, size_t n, bool write, void *pc) {
    if (thread < 0 || !enabled) { return; }
    char *fp = static_cast<char *>(__builtin_frame_address(0));
    // the stack of the running thread is private
    if (a > reinterpret_cast<uintptr_t>(fp) - 4096 && a < reinterpret_cast<uintptr_t>(fp) + (1 << 18)) { return; }
    ++naccess;
    int t = thread & 3;
    while (n > 0) {
        uintptr_t key = a & ~static_cast<uintptr_t>(7);
        unsigned off = static_cast<unsigned>(a - key);
        unsigned len = n < 8 - off ? static_cast<unsigned>(n) : 8 - off;
        auto mask = static_cast<uint8_t>(((1U << len) - 1) << off);
        auto *c = get(key, true);
        auto bit = static_cast<uint8_t>(1U << t);
        for (int o = 0; o < 4; ++o) {
            if (o == t) { continue; }
            auto ob = static_cast<uint8_t>(1U << o);
            bool other = ((c->rd | c->wr | c->lrd | c->lwr) & ob) != 0;
            if (!other) { continue; }
            uint8_t theirs = write ? static_cast<uint8_t>(c->mrd[o] | c->mwr[o]) : c->mwr[o];
            if ((theirs & mask) == 0) { continue; }
            // both accesses hold the lock
            bool unlocked = write ? ((c->rd | c->wr) & ob) != 0 : (c->wr & ob) != 0;
            if (locked && !unlocked) { continue; }
            if (msg[0] == 0) {
                char p[400], q[400];
                name(pc, p, sizeof p);
                name(c->pc[o], q, sizeof q);
                std::snprintf(msg, sizeof msg, "data race: thread %d %s %zu bytes in %s that were accessed by thread %d in %s", t, write ? "writes" : "reads", n, p, o, q);
            }
        }
        uint8_t all = static_cast<uint8_t>(c->rd | c->wr | c->lrd | c->lwr);
        if (all != 0 && (all & bit) == 0 && (all & (all - 1)) == 0) { ++nshared; }
        if (write) { (locked ? c->lwr : c->wr) |= bit; c->mwr[t] |= mask; }
        else { (locked ? c->lrd : c->rd) |= bit; c->mrd[t] |= mask; }
        c->pc[t] = pc;
        a += len;
        n -= len;
    }
}
void release(void *p) {
    if (p == nullptr || cells == nullptr || nused == 0) { return; }
    auto a = reinterpret_cast<uintptr_t>(p);
    size_t n = malloc_usable_size(p);
    for (uintptr_t k = a & ~static_cast<uintptr_t>(7); k < a + n; k += 8) {
        if (auto *c = get(k, false)) { auto key = c->key; auto e = c->epoch; memset(c, 0, sizeof *c); c->key = key; c->epoch = e; }
    }
}
} // namespace
void reset() { ++epoch; naccess = nshared = nused = 0; msg[0] = 0; }
std::string found() { return msg; }
unsigned long accesses() { return naccess; }
unsigned long shared_cells() { return nshared; }
} // namespace V::race

using V::race::access;

void *operator new(size_t n) { void *p = malloc(n == 0 ? 1 : n); if (p == nullptr) { throw std::bad_alloc{}; } return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { V::race::release(p); free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

#define PC __builtin_return_address(0)
#define A(p) reinterpret_cast<uintptr_t>(p)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                  \
    void __tsan_read##n(void *p) { access(A(p), n, false, PC); }               \
    void __tsan_write##n(void *p) { access(A(p), n, true, PC); }               \
    void __tsan_unaligned_read##n(void *p) { access(A(p), n, false, PC); }     \
    void __tsan_unaligned_write##n(void *p) { access(A(p), n, true, PC); }     \
    void __tsan_volatile_read##n(void *p) { access(A(p), n, false, PC); }      \
    void __tsan_volatile_write##n(void *p) { access(A(p), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(A(p), n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(A(p), n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) { access(A(p), 8, true, PC); } }
void __tsan_vptr_read(void **p) { access(A(p), 8, false, PC); }
#define ATOMIC(bits, T)                                                                                                   \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { if (V::race::on_atomic != nullptr) { V::race::on_atomic(); } return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int) { if (V::race::on_atomic != nullptr) { V::race::on_atomic(); } *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { if (V::race::on_atomic != nullptr) { V::race::on_atomic(); } T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { if (V::race::on_atomic != nullptr) { V::race::on_atomic(); } T o = *a; *a = static_cast<T>(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { if (V::race::on_atomic != nullptr) { V::race::on_atomic(); } T o = *a; *a = static_cast<T>(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { if (V::race::on_atomic != nullptr) { V::race::on_atomic(); } T o = *a; *a = static_cast<T>(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { if (V::race::on_atomic != nullptr) { V::race::on_atomic(); } T o = *a; *a = static_cast<T>(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { if (V::race::on_atomic != nullptr) { V::race::on_atomic(); } T o = *a; *a = static_cast<T>(o ^ v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { if (V::race::on_atomic != nullptr) { V::race::on_atomic(); } if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { if (V::race::on_atomic != nullptr) { V::race::on_atomic(); } if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { if (V::race::on_atomic != nullptr) { V::race::on_atomic(); } T o = *a; if (o == c) { *a = v; } return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
