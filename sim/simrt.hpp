// Deterministic simulator: public interface for the harness.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- random numbers
inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed ^ 0x5bd1e995u)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 32) * (uint64_t)n >> 32) : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    float real(float lo, float hi) { return lo + (float)unit() * (hi - lo); }
    template <typename V> auto pick(const V& v) -> decltype(v[0]) { return v[below((uint32_t)v.size())]; }
};

// ---------------------------------------------------------------- result area (shared with the zygote)
struct SwRec { uint32_t tid, to; uint64_t pts; };
constexpr int kMaxSw = 1 << 15, kMaxCounters = 96, kLogCap = 1 << 16;
struct Shared {
    volatile int finished;          // the run came to its regular end
    volatile int violated;
    char cls[64];
    char detail[8192];
    char phase[256];
    uint64_t hash, points, switches, ilv_hash;
    uint32_t teams, max_live;
    uint32_t nsw, nctr;
    struct { char name[48]; uint64_t n; } ctr[kMaxCounters];
    uint32_t loglen;
    char log[kLogCap];
    SwRec sw[kMaxSw];
};
extern Shared* S;

void count(const char* name, uint64_t n = 1);          // reach counters and fault counters
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void phase(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_bytes(const void* p, size_t n);
void hash_u64(uint64_t v);
// Report a violation and end the run at once (does not return).
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void end_run(int code);                   // leave the simulated process

// ---------------------------------------------------------------- schedule
struct SchedCfg {
    enum Mode { NONE = 0, RANDOM = 1, PCT = 2, REPLAY = 3 } mode = NONE;
    uint64_t seed = 1;
    double p_mem = 0, p_sync = 0;
    int max_threads = 4;        // what omp_get_max_threads answers
    bool fewer = false;         // teams may come out smaller than requested
    uint64_t team_seed = 1;     // decides team sizes (kept in replay)
    std::vector<SwRec> replay;
};
void sched_init(const SchedCfg& cfg);   // makes the caller simulated thread 0
int  race_count();
void race_clear();
const char* race_text();

// Caller threads (real threads, one running at a time).
struct ThreadRef { int id; };
ThreadRef spawn(std::function<void()> fn);
void join(ThreadRef t);

// ---------------------------------------------------------------- randomness
void seed_random_device(uint64_t seed);
uint64_t random_device_draws();
uint64_t order_choices();
void seed_topology(uint64_t seed);      // order of the topological sort in the ade stand-in

// ---------------------------------------------------------------- allocation
void alloc_init(bool fill);
struct AllocFault { long index = -1; bool persistent = false; };  // index: n-th allocation after arming
void alloc_arm(AllocFault f);
long alloc_disarm();                    // number of allocations seen since arming
long alloc_failures();                  // failures delivered since arming
size_t heap_room(const void* p);        // flavour T: bytes of the block that starts at p; -1 if unknown
size_t live_bytes();                    // flavour A only: live heap bytes

// ---------------------------------------------------------------- disk
enum class IoOp { OPEN, READ, WRITE, CLOSE, SEEK, RENAME, SYNC, N };
struct IoFault {
    IoOp op = IoOp::READ;
    long index = -1;            // n-th call of that kind after arming
    int  err = 0;               // errno to deliver (0: see kill)
    bool sticky = false;        // all later calls of that kind fail as well
    bool kill = false;          // the process dies during this call...
    double part = 0;            // ...after this fraction of the request was performed
};
struct IoBenign { uint64_t seed = 0; double p_short = 0, p_eintr = 0; };
void io_root(const char* dir);          // only files below dir are simulated
void io_arm(const std::vector<IoFault>& f, const IoBenign& b);
struct IoCounts { long n[(int)IoOp::N]; long hard; long withheld; long bytes_read, bytes_written; };
IoCounts io_disarm();
void io_dir_seed(uint64_t s);            // order of directory entries
int  io_open_handles();                 // simulated files currently open

} // namespace sim
