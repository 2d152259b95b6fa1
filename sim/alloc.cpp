// Allocation seam (operator new/delete, malloc family of the library and of Eigen), random source.
#include "simrt_int.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <random>

#include <atomic>
#include <sys/mman.h>

#ifdef SIM_A
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace sim {
static bool g_fill = false, g_armed = false;
static AllocFault g_fault;
static long g_seen = 0, g_failed = 0;

#ifdef SIM_T
// Heap of the simulated process: at a fixed address and with a fixed policy, so that addresses (and
// with them the layout of pointer-keyed tables) are a function of the run alone.
static const uintptr_t kHeap = 0x200000000000ull;
static const size_t kHeapSize = 8ull << 30;
static bool g_heap = false;
static uintptr_t g_top = 0;
static void* g_free[256];
static std::atomic_flag g_hl = ATOMIC_FLAG_INIT;
struct HL { HL() { while (g_hl.test_and_set(std::memory_order_acquire)) {} } ~HL() { g_hl.clear(std::memory_order_release); } };
struct Hdr { uint64_t cls, size; };
static inline bool own(void* p) { return (uintptr_t)p - kHeap < kHeapSize; }
static inline Hdr* hdr(void* p) { return (Hdr*)((char*)p - sizeof(Hdr)); }
static void class_of(size_t n, unsigned& c, size_t& sz) {
    if (n <= 1024) { c = (unsigned)((n + 15) / 16); if (!c) c = 1; sz = c * 16; return; }
    unsigned b = 63 - __builtin_clzll(n - 1);          // four classes per power of two
    size_t step = (size_t)1 << (b - 2);
    sz = (n + step - 1) / step * step;
    c = 65 + (b - 10) * 4 + (unsigned)((sz - ((size_t)1 << b)) / step);
}
static void* heap_get(size_t n) {
    unsigned c;
    size_t sz;
    class_of(n, c, sz);
    HL l;
    void* p = c < 256 ? g_free[c] : nullptr;
    if (p) g_free[c] = *(void**)p;
    else {
        if (c >= 256 || g_top + sz + sizeof(Hdr) > kHeap + kHeapSize) return nullptr;
        p = (void*)(g_top + sizeof(Hdr));
        g_top += sz + sizeof(Hdr);
        hdr(p)->cls = c;
    }
    hdr(p)->size = n;
    return p;
}
static void heap_put(void* p) {
    HL l;
    uint64_t w = hdr(p)->cls;
    p = (char*)p - (w >> 32);                           // aligned blocks know their distance from the start
    unsigned c = (unsigned)w;
    *(void**)p = g_free[c];
    hdr(p)->cls = c;
    g_free[c] = p;
}
static void* heap_get_aligned(size_t a, size_t n) {
    if (a < 16) a = 16;
    char* p = (char*)heap_get(n + a);
    if (!p || !((uintptr_t)p & (a - 1))) return p;
    char* q = (char*)(((uintptr_t)p + a - 1) & ~(uintptr_t)(a - 1));
    uint64_t c = hdr(p)->cls;
    hdr(q)->cls = c | (uint64_t)(q - p) << 32;
    hdr(q)->size = n;
    return q;
}
#endif
void alloc_init(bool fill) {
    g_fill = fill;
#ifdef SIM_T
    void* m = mmap((void*)kHeap, kHeapSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m == (void*)kHeap) { g_heap = true; g_top = kHeap; }
#endif
}
void alloc_arm(AllocFault f) { g_fault = f; g_seen = g_failed = 0; g_armed = true; }
long alloc_disarm() { g_armed = false; return g_seen; }
long alloc_failures() { return g_failed; }
size_t heap_room(const void* p) {
#ifdef SIM_T
    if (g_heap && own((void*)p)) return hdr((void*)p)->size;
#endif
    return (size_t)-1;
}
size_t live_bytes() {
#ifdef SIM_A
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
static inline void alloc_point() { if (me && !me->in_rt) sync_point(); }
static bool fail() {
    if (!g_armed || !me || me->in_rt) return false;
    long k = g_seen++;
    bool f = g_fault.index >= 0 && (g_fault.persistent ? k >= g_fault.index : k == g_fault.index);
    if (f) { ++g_failed; count("fault.alloc"); }
    return f;
}
// Fresh memory is filled with a pattern that reads as a NaN (and as a large integer).
static void fresh(void* p, size_t n) {
    race_forget(p, n);
#ifdef SIM_T
    if (g_fill && p) {
        uint32_t* w = (uint32_t*)p;
        for (size_t i = 0; i < n / 4; ++i) w[i] = 0x7fc0dead;
    }
#else
    (void)p; (void)n;
#endif
}
static void stale(void* p) {
#ifdef SIM_T
    if (!p) return;
    if (!own(p)) return;
    size_t n = hdr(p)->size;
    race_forget(p, n);
    if (g_fill) {
        uint32_t* w = (uint32_t*)p;
        for (size_t i = 0; i < n / 4; ++i) w[i] = 0x7fc0beef;
    }
#else
    (void)p;
#endif
}
} // namespace sim

extern "C" {
#ifdef SIM_T
// The whole process, with the C and C++ runtime and the image libraries, allocates here.
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
static void* base_malloc(size_t n) {
    if (!sim::g_heap) return __libc_malloc(n);
    void* p = sim::heap_get(n);
    if (p) sim::race_forget(p, n); else errno = ENOMEM;
    return p;
}
static void base_free(void* p) {
    if (!p) return;
    if (sim::own(p)) { sim::race_forget(p, sim::hdr(p)->size); sim::heap_put(p); }
    else if (!sim::g_heap) __libc_free(p);             // memory from before the simulated process began is left alone
}
static void* base_calloc(size_t a, size_t b) {
    if (!sim::g_heap) return __libc_calloc(a, b);
    void* p = a && b > (size_t)-1 / a ? nullptr : base_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
static void* base_realloc(void* q, size_t n) {
    if (!sim::g_heap) return __libc_realloc(q, n);
    void* p = base_malloc(n);
    if (p && q) {
        size_t k = sim::own(q) ? sim::hdr(q)->size : malloc_usable_size(q);
        memcpy(p, q, k < n ? k : n);
        base_free(q);
    }
    return p;
}
static void* base_memalign(size_t a, size_t n) {
    if (!sim::g_heap) return __libc_memalign(a, n);
    void* p = sim::heap_get_aligned(a, n);
    if (p) sim::race_forget(p, n);
    return p;
}
void* malloc(size_t n) { return base_malloc(n); }
void free(void* p) { base_free(p); }
void* calloc(size_t a, size_t b) { return base_calloc(a, b); }
void* realloc(void* p, size_t n) { return base_realloc(p, n); }
void* memalign(size_t a, size_t n) { return base_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return base_memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = base_memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
#else
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
int __real_posix_memalign(void**, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
static void* base_malloc(size_t n) { return __real_malloc(n); }
static void base_free(void* p) { __real_free(p); }
static void* base_calloc(size_t a, size_t b) { return __real_calloc(a, b); }
static void* base_realloc(void* p, size_t n) { return __real_realloc(p, n); }
static void* base_memalign(size_t a, size_t n) { void* p = nullptr; return __real_posix_memalign(&p, a < 16 ? 16 : a, n) ? nullptr : p; }
#endif
void* __wrap_malloc(size_t n) {
    sim::alloc_point();
    if (sim::fail()) { errno = ENOMEM; return nullptr; }
    void* p = base_malloc(n);
    if (p) sim::fresh(p, n);
    return p;
}
void* __wrap_calloc(size_t a, size_t b) {
    if (sim::fail()) { errno = ENOMEM; return nullptr; }
    return base_calloc(a, b);
}
void* __wrap_realloc(void* q, size_t n) {
    if (sim::fail()) { errno = ENOMEM; return nullptr; }
    return base_realloc(q, n);
}
int __wrap_posix_memalign(void** r, size_t a, size_t n) {
    if (sim::fail()) return ENOMEM;
    void* p = base_memalign(a, n);
    if (!p) return ENOMEM;
    sim::fresh(p, n);
    *r = p;
    return 0;
}
void* __wrap_aligned_alloc(size_t a, size_t n) {
    if (sim::fail()) { errno = ENOMEM; return nullptr; }
    void* p = base_memalign(a, n);
    if (p) sim::fresh(p, n);
    return p;
}
void __wrap_free(void* p) {
    sim::stale(p);
    base_free(p);
}
} // extern "C"

static void* do_new(size_t n) {
    sim::alloc_point();
    if (sim::fail()) return nullptr;
    if (n > (size_t)1 << 36) return nullptr;
    void* p = base_malloc(n ? n : 1);
    if (p) sim::fresh(p, n);
    return p;
}
void* operator new(size_t n) { void* p = do_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = do_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n); }
static void do_delete(void* p) { sim::stale(p); base_free(p); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }
static void* do_new_al(size_t n, std::align_val_t a) {
    sim::alloc_point();
    if (sim::fail()) throw std::bad_alloc();
    void* p = base_memalign((size_t)a, n ? n : 1);
    if (!p) throw std::bad_alloc();
    sim::fresh(p, n);
    return p;
}
void* operator new(size_t n, std::align_val_t a) { return do_new_al(n, a); }
void* operator new[](size_t n, std::align_val_t a) { return do_new_al(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }

// ---------------------------------------------------------------- randomness
namespace sim {
static Rng g_rd(1), g_topo(1);
static uint64_t g_draws = 0, g_orders = 0;
static uint32_t g_rd_off = 1;
static bool g_rd_on = false, g_topo_on = false;
void seed_random_device(uint64_t s) { g_rd = Rng(s ^ 0xabcdef); g_rd_off = (uint32_t)(g_rd.next() >> 16); g_rd_on = true; g_draws = 0; }
uint64_t random_device_draws() { return g_draws; }
uint64_t order_choices() { return g_orders; }
void seed_topology(uint64_t s) { g_topo = Rng(s ^ 0x70901); g_topo_on = s != 0; }
} // namespace sim
extern "C" unsigned ade_shim_pick(unsigned n) { if (n > 1) ++sim::g_orders; return sim::g_topo_on ? sim::g_topo.below(n) : 0; }

void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval() {
    // a bijection of the number of the draw: no word comes twice in a run (a real device may repeat one,
    // two threads would then rightly draw the same numbers)
    uint32_t x = (uint32_t)++sim::g_draws * 0x9e3779b9u + sim::g_rd_off;
    x = (x ^ x >> 16) * 0x85ebca6bu;
    x = (x ^ x >> 13) * 0xc2b2ae35u;
    return x ^ x >> 16;
}
void std::random_device::_M_init_pretr1(const std::string&) {}
std::random_device::result_type std::random_device::_M_getval_pretr1() { return _M_getval(); }
double std::random_device::_M_getentropy() const noexcept { return 32; }
extern "C" {
long __wrap_random(void) { return (long)(sim::g_rd.next() >> 33); }
int rand(void) { return (int)(sim::g_rd.next() >> 33); }
void srand(unsigned) {}
int getentropy(void* p, size_t n) {
    for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)(sim::g_rd.next() >> 24);
    return 0;
}
}
