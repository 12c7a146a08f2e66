// Seams owned by the simulator: PRNG, heap, hash keys, simulated clock, verdicts.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <vector>
#include <string>

namespace sim {
using u64 = std::uint64_t;
using u32 = std::uint32_t;

inline u64 mix(u64 x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline u64 mix2(u64 a, u64 b) { return mix(a ^ mix(b + 0x51ed2701)); }

struct Rng {
    u64 s = 0;
    explicit Rng(u64 seed = 0) : s(mix(seed)) {}
    u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
    bool chance(u64 num, u64 den) { return below(den) < num; }
};

// environment of a run: everything outside the library that its results could depend on
struct Env {
    int hash_mode = 0;   // 0 as drawn; 1 few bits; 2 constant; 3 table end; 4 sequential; 5 two values
    u64 hash_seed = 1;
    int heap_reuse = 0;  // 0 LIFO, 1 FIFO, 2 never, 3 random
    int heap_place = 0;  // 0 ascending, 1 descending, 2 random ends with gaps
    int heap_fill = 0;   // 0 zero, 1 ones, 2 random
    u64 heap_seed = 1;
};

struct Arena; // opaque

struct Ctx {
    bool in_sut = false;
    bool in_gc = false; // inside a collection of garbage
    bool in_turn = false; // inside a repetition of a lifetime that went well the first time
    Arena* arena = nullptr;
    int tid = 0;
    Env env;
    Rng hash_rng, dev_rng;
    u64 hash_counter = 0;
    u64 steps = 0, op_steps = 0, step_limit = ~0ull;
    u64 trace_hash = 0, prev_pc = 0;
    // allocation fault plan for the current operation
    bool armed = false;
    u64 op_allocs = 0, fail_from = ~0ull, fail_to = 0, fails_fired = 0;
    u64 total_allocs = 0;
    int cur_op = -1;
};
extern thread_local Ctx* tctx;

Arena* arena_create(int tid, const Env& env);
u64 arena_live_blocks(Arena*);
u64 arena_live_bytes(Arena*);
u64 arena_total_bytes(Arena*);
void arena_owner_range(int tid, u64& lo, u64& hi);

struct SutScope {
    bool old;
    SutScope() : old(tctx->in_sut) { tctx->in_sut = true; }
    ~SutScope() { tctx->in_sut = old; }
};
struct HostScope {
    bool old;
    HostScope() : old(tctx ? tctx->in_sut : false) { if(tctx) tctx->in_sut = false; }
    ~HostScope() { if(tctx) tctx->in_sut = old; }
};

constexpr int MAXOPS = 1024;
constexpr int NCNT = 160;
constexpr int COVSZ = 1 << 16;
constexpr int MAXSW = 4096;
enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOL = 2 };
struct Shared {
    volatile int status;
    char cls[16];
    char msg[600];
    int op, in_gc, in_turn;
    u64 steps, trace_hash, log_hash, nops;
    u64 cnt[NCNT];
    u32 op_allocs[MAXOPS];
    u64 obs[MAXOPS];
    int nobs;
    u32 nsw; // switches of the threaded variant (may exceed what fits below)
    unsigned char cov[COVSZ / 8]; // from here on not cleared between runs
    u64 sw_at[MAXSW]; unsigned char sw_to[MAXSW];
};
extern Shared* shared;

// record a violation and end the run
[[noreturn]] void die(const char* cls, const char* fmt, ...);
void enter_run(); // install handlers, called in the child on the simulated stack
void run_on_stack(u64 stack_seed, void (*f)(void*), void* arg);
} // namespace sim
