// Happens-before race detector and the __tsan_* entry points (flavour T).
#include "simrt_int.hpp"
#include <cstdio>
#include <cstring>
#include <sys/mman.h>

namespace sim {
#ifndef SIM_T
void race_init() {}
void race_reset() {}
void race_forget(const void*, size_t) {}
void hb_acquire(const void*) {}
void hb_release(const void*) {}
int race_count() { return 0; }
void race_clear() {}
const char* race_text() { return ""; }
#else

struct Ent { uint32_t clk; uint8_t tid, mask, w, at; const void* pc; };   // 16 bytes
constexpr int kEnt = 6;
struct Cell { uint64_t key; uint32_t gen; uint32_t n; Ent e[kEnt]; };
constexpr uint32_t kCells = 1 << 17;
struct Sync { const void* key; uint32_t gen; VC vc; };
constexpr uint32_t kSync = 1 << 13;

static Cell* cells;
static Sync* syncs;
static uint32_t gen = 1, sgen = 1;
static uint64_t evict = 88172645463325252ull;
static int nraces;
static char text[4096];
static size_t textlen;
static struct { const void *a, *b; } seen[16];

void race_init() {
    cells = (Cell*)mmap(nullptr, sizeof(Cell) * kCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    syncs = (Sync*)mmap(nullptr, sizeof(Sync) * kSync, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void race_reset() { ++gen; ++sgen; }
int race_count() { return nraces; }
void race_clear() { nraces = 0; }
const char* race_text() { return text; }

static inline uint32_t slot(uint64_t k, uint32_t n) { return (uint32_t)((k * 0x9e3779b97f4a7c15ull) >> 40) & (n - 1); }

static Cell* cell(uint64_t g, bool make) {
    uint32_t i = slot(g, kCells);
    Cell* victim = nullptr;
    for (int k = 0; k < 8; ++k) {
        Cell* c = &cells[(i + k) & (kCells - 1)];
        if (c->gen == gen && c->key == g) return c;
        if (c->gen != gen && !victim) victim = c;
    }
    if (!make) return nullptr;
    if (!victim) victim = &cells[i];           // table full here: forget something (never a false alarm)
    victim->key = g;
    victim->gen = gen;
    victim->n = 0;
    return victim;
}

void race_forget(const void* p, size_t n) {
    if (!tracking() || !cells || !n) return;
    uint64_t a = (uint64_t)p >> 3, b = ((uint64_t)p + n - 1) >> 3;
    for (uint64_t g = a; g <= b; ++g)
        if (Cell* c = cell(g, false)) c->n = 0;
}

static void report(Thr* t, uint64_t addr, bool w, const void* pc, const Ent& e) {
    for (int i = 0; i < 16; ++i) {
        if (!seen[i].a) { seen[i].a = pc; seen[i].b = e.pc; break; }
        if ((seen[i].a == pc && seen[i].b == e.pc) || (seen[i].a == e.pc && seen[i].b == pc)) return;
        if (i == 15) return;
    }
    ++nraces;
    int k = snprintf(text + textlen, sizeof text - textlen,
                     "%s by thread %d at pc=%p conflicts with earlier %s by thread %d at pc=%p; ",
                     w ? "write" : "read", t->id, pc, e.w ? "write" : "read", e.tid, e.pc);
    if (k > 0 && textlen + k < sizeof text) textlen += k;
    (void)addr;
}

static inline void check1(Thr* t, uint64_t g, uint8_t mask, bool w, bool at, const void* pc) {
    Cell* c = cell(g, true);
    int put = -1;
    for (uint32_t i = 0; i < c->n; ++i) {
        Ent& e = c->e[i];
        if (e.tid == t->id) {
            if (e.w == w && e.at == at && (e.mask & ~mask) == 0) put = (int)i;
            continue;
        }
        if ((e.mask & mask) && (w || e.w) && !(at && e.at) && t->vc.c[e.tid] < e.clk) report(t, g << 3, w, pc, e);
    }
    if (put < 0) {
        if (c->n < (uint32_t)kEnt) put = (int)c->n++;
        else {
            // overwrite an entry of this thread, or one that is ordered before us, or any
            for (int i = 0; i < kEnt && put < 0; ++i)
                if (t->vc.c[c->e[i].tid] >= c->e[i].clk) put = i;
            if (put < 0) { evict = evict * 6364136223846793005ull + 1; put = (int)((evict >> 33) % kEnt); }
        }
    }
    c->e[put] = Ent{t->vc.c[t->id], (uint8_t)t->id, mask, (uint8_t)w, (uint8_t)at, pc};
}
static inline void check(Thr* t, uint64_t a, size_t n, bool w, bool at, const void* pc) {
    uint64_t end = a + n;
    while (a < end) {
        uint64_t g = a >> 3;
        uint64_t stop = (g + 1) << 3;
        if (stop > end) stop = end;
        unsigned lo = (unsigned)(a & 7), len = (unsigned)(stop - a);
        check1(t, g, (uint8_t)(((1u << len) - 1) << lo), w, at, pc);
        a = stop;
    }
}
static inline void mem(const void* a, size_t n, bool w, const void* pc) {
    if (!tracking()) return;
    Thr* t = me;
    if (!t || t->in_rt) return;
    if (++t->pts >= t->stop_at) slow_point(t);
    if (tracking()) check(t, (uint64_t)a, n, w, false, pc);
}

static Sync* sync_of(const void* k, bool make) {
    uint32_t i = slot((uint64_t)k, kSync);
    for (int j = 0; j < 64; ++j) {
        Sync* s = &syncs[(i + j) & (kSync - 1)];
        if (s->gen == sgen && s->key == k) return s;
        if (s->gen != sgen) {
            if (!make) return nullptr;
            s->gen = sgen;
            s->key = k;
            s->vc = VC();
            return s;
        }
    }
    return nullptr;
}
void hb_acquire(const void* o) {
    Thr* t = me;
    if (!t || !tracking()) return;
    if (Sync* s = sync_of(o, false)) t->vc.join(s->vc);
}
void hb_release(const void* o) {
    Thr* t = me;
    if (!t || !tracking()) return;
    if (Sync* s = sync_of(o, true)) s->vc.join(t->vc);
    t->vc.c[t->id]++;
}

// ---- atomics
static void at_before(const volatile void* a, size_t n, bool w, bool spin, const void* pc) {
    Thr* t = me;
    if (!t || !tracking()) return;
    if (spin) {
        if (++t->spins > 24) forced_yield();
        else sync_point();
    } else {
        t->spins = 0;
        sync_point();
    }
    if (tracking()) check(t, (uint64_t)a, n, w, true, pc);
}
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_load(const volatile void* a, int mo) {
    Thr* t = me;
    if (!t || !tracking()) return;
    Sync* s = sync_of((const void*)a, false);
    if (!s) return;
    t->acq.join(s->vc);
    if (acq(mo)) t->vc.join(s->vc);
}
static void at_store(const volatile void* a, int mo) {
    Thr* t = me;
    if (!t || !tracking()) return;
    if (rel(mo)) hb_release((const void*)a);
    else if (t->has_rel) { if (Sync* s = sync_of((const void*)a, true)) s->vc.join(t->rel); }
}
static void at_fence(int mo) {
    Thr* t = me;
    if (!t || !tracking()) return;
    sync_point();
    if (acq(mo)) t->vc.join(t->acq);
    if (rel(mo)) { t->rel = t->vc; t->has_rel = true; t->vc.c[t->id]++; }
}
#endif
} // namespace sim

#ifdef SIM_T
using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                          \
    void __tsan_read##N(void* a) { mem(a, N, false, PC); }             \
    void __tsan_write##N(void* a) { mem(a, N, true, PC); }             \
    void __tsan_unaligned_read##N(void* a) { mem(a, N, false, PC); }   \
    void __tsan_unaligned_write##N(void* a) { mem(a, N, true, PC); }   \
    void __tsan_volatile_read##N(void* a) { mem(a, N, false, PC); }    \
    void __tsan_volatile_write##N(void* a) { mem(a, N, true, PC); }    \
    void __tsan_read##N##_pc(void* a, void* p) { mem(a, N, false, p); }\
    void __tsan_write##N##_pc(void* a, void* p) { mem(a, N, true, p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#undef RW
void __tsan_read_range(void* a, unsigned long n) { mem(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { mem(a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { mem(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { mem(a, 8, false, PC); }

#define AT(B, T)                                                                                   \
    T __tsan_atomic##B##_load(const volatile T* a, int mo) {                                       \
        at_before(a, B / 8, false, true, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); at_load(a, mo); return v; } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {                                    \
        at_before(a, B / 8, true, false, PC); at_store(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) {                                    \
        at_before(a, B / 8, true, true, PC); at_load(a, mo); at_store(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) {                                   \
        at_before(a, B / 8, true, false, PC); at_load(a, mo); at_store(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) {                                   \
        at_before(a, B / 8, true, false, PC); at_load(a, mo); at_store(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) {                                   \
        at_before(a, B / 8, true, false, PC); at_load(a, mo); at_store(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) {                                    \
        at_before(a, B / 8, true, false, PC); at_load(a, mo); at_store(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) {                                   \
        at_before(a, B / 8, true, false, PC); at_load(a, mo); at_store(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) {                                  \
        at_before(a, B / 8, true, false, PC); at_load(a, mo); at_store(a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) {        \
        at_before(a, B / 8, true, true, PC); at_load(a, mo);                                       \
        int ok = __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);      \
        if (ok) at_store(a, mo); return ok; }                                                      \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {      \
        return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); }                     \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {          \
        __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
#undef AT
void __tsan_atomic_thread_fence(int mo) { at_fence(mo); }
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (n) { mem(s, n, false, PC); mem(d, n, true, PC); }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (n) { mem(s, n, false, PC); mem(d, n, true, PC); }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
    if (n) mem(d, n, true, PC);
    return __real_memset(d, c, n);
}
} // extern "C"
#endif
