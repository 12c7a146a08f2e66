// Compiled without sanitizers and without coverage instrumentation.
#include "seams.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <unordered_map>
#include <deque>
#include <new>
#include <random>
#include <csignal>
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));

namespace sim {

thread_local Ctx* tctx = nullptr;
Shared* shared = nullptr;

void die(const char* cls, const char* fmt, ...)
{
    if(shared && shared->status == ST_NONE)
    {
        snprintf(shared->cls, sizeof shared->cls, "%s", cls);
        va_list ap; va_start(ap, fmt);
        vsnprintf(shared->msg, sizeof shared->msg, fmt, ap);
        va_end(ap);
        if(tctx) { shared->op = tctx->cur_op; shared->in_gc = tctx->in_gc; shared->in_turn = tctx->in_turn; shared->trace_hash = tctx->trace_hash; shared->steps = tctx->steps; }
        shared->status = ST_VIOL;
    }
    _exit(0);
}

// ---------------------------------------------------------------- heap
constexpr u64 ARENA_BASE = 0x200000000000ull;
constexpr u64 ARENA_SIZE = 0x000400000000ull; // 16 GB of address space per simulated thread
constexpr u64 RED = 64;
constexpr u64 ARENA_CAP = 3ull << 30;

static inline void poison(u64 a, u64 n) { if(__asan_poison_memory_region) __asan_poison_memory_region((void*)a, n); }
static inline void unpoison(u64 a, u64 n) { if(__asan_unpoison_memory_region) __asan_unpoison_memory_region((void*)a, n); }

struct Block { u64 size; u64 cap; bool live; bool array; };
struct Arena {
    int tid; Env env; Rng rng;
    u64 base, lo, hi;
    std::unordered_map<u64, Block> blocks;
    std::map<u64, std::deque<u64>> free_by_cap;
    u64 live_blocks = 0, live_bytes = 0, total = 0;
    explicit Arena(const Env& e) : env(e), rng(mix2(e.heap_seed, 77)) {}
};

void arena_owner_range(int tid, u64& lo, u64& hi) { lo = ARENA_BASE + tid * ARENA_SIZE; hi = lo + ARENA_SIZE; }

Arena* arena_create(int tid, const Env& env)
{
    HostScope hs;
    Arena* a = new Arena(env);
    a->tid = tid;
    u64 lo, hi; arena_owner_range(tid, lo, hi);
    void* p = mmap((void*)lo, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(p != (void*)lo) { fprintf(stderr, "sim: cannot map arena\n"); _exit(9); }
    madvise(p, ARENA_SIZE, MADV_HUGEPAGE);
    a->base = lo; a->lo = lo + (1 << 20); a->hi = hi - (1 << 20);
    return a;
}
u64 arena_live_blocks(Arena* a) { return a->live_blocks; }
u64 arena_live_bytes(Arena* a) { return a->live_bytes; }
u64 arena_total_bytes(Arena* a) { return a->total; }

static void fill(Arena* a, u64 p, u64 n, bool freed)
{
    constexpr u64 LIM = 256 << 10;
    u64 m = n < LIM ? n : LIM;
    int mode = freed ? 2 : a->env.heap_fill;
    for(int part = 0; part < 2; ++part)
    {
        u64 q = p, k = m;
        if(part == 1) { if(n <= LIM) break; k = n - LIM < 4096 ? n - LIM : 4096; q = p + n - k; }
        if(mode == 0) memset((void*)q, 0, k);
        else if(mode == 1) memset((void*)q, 0xff, k);
        else
        {
            u64 x = mix2(a->env.heap_seed ^ (freed ? 0xdead : 0), q - a->base);
            u64 i = 0;
            for(; i + 8 <= k; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy((void*)(q + i), &x, 8); }
            for(; i < k; ++i) ((unsigned char*)q)[i] = (unsigned char)(x >> (8 * (i & 7)));
        }
    }
}

static void* arena_alloc(Arena* a, u64 n, bool array)
{
    const u64 asked = n;
    if(n == 0) n = 1;
    const u64 cap = (n + 31) & ~31ull;
    u64 p = 0;
    auto it = a->env.heap_reuse == 2 ? a->free_by_cap.end() : a->free_by_cap.find(cap);
    if(it != a->free_by_cap.end() && !it->second.empty())
    {
        auto& q = it->second;
        if(a->env.heap_reuse == 0) { p = q.back(); q.pop_back(); }
        else if(a->env.heap_reuse == 1) { p = q.front(); q.pop_front(); }
        else { size_t i = a->rng.below(q.size()); p = q[i]; q.erase(q.begin() + i); }
    }
    else
    {
        if(a->total + cap > ARENA_CAP) die("MEMORY", "more than %llu bytes of memory in use by one run", (unsigned long long)ARENA_CAP);
        bool up = a->env.heap_place == 0;
        u64 gap = RED;
        if(a->env.heap_place == 2) { up = a->rng.chance(1, 2); if(a->rng.chance(1, 4)) gap += 32 * a->rng.below(64); }
        if(up) { p = a->lo + gap; poison(a->lo, gap); a->lo = p + cap; }
        else { p = a->hi - gap - cap; p &= ~31ull; poison(p + cap, a->hi - (p + cap)); a->hi = p; }
        if(__asan_poison_memory_region) { if(up) poison(a->lo, 4096); else poison(p - 4096, 4096); }
        a->total += cap;
    }
    unpoison(p, cap);
    fill(a, p, cap, false);
    if(cap > n) poison(p + n, cap - n);
    a->blocks[p] = Block{asked, cap, true, array};
    a->live_blocks++; a->live_bytes += asked;
    return (void*)p;
}

constexpr u64 UNSIZED = ~0ull;
static void arena_free(Arena* a, u64 p, bool array, u64 size)
{
    auto it = a->blocks.find(p);
    if(it == a->blocks.end()) die("HEAP", "release of an address that was never allocated");
    if(!it->second.live) die("HEAP", "double release of a block of %llu bytes", (unsigned long long)it->second.size);
    if(it->second.array != array) die("HEAP", "a block of %llu bytes made by operator new%s is released by operator delete%s", (unsigned long long)it->second.size, it->second.array ? "[]" : "", array ? "[]" : "");
    if(size != UNSIZED && size != it->second.size) die("HEAP", "a block of %llu bytes is released as one of %llu", (unsigned long long)it->second.size, (unsigned long long)size);
    it->second.live = false;
    a->live_blocks--; a->live_bytes -= it->second.size;
    unpoison(p, it->second.cap);
    fill(a, p, it->second.cap, true);
    poison(p, it->second.cap);
    a->free_by_cap[it->second.cap].push_back(p);
}

#ifdef SIM_THREADS
void race_heap(int owner, u64 p, u64 n, bool free_);
#endif
static Arena* arenas[16];
static void* sim_new(std::size_t n, bool array)
{
    Ctx* c = tctx;
    if(c && c->in_sut)
    {
        HostScope hs;
        c->total_allocs++;
        if(c->armed)
        {
            u64 k = c->op_allocs++;
            if(k >= c->fail_from && k < c->fail_to) { c->fails_fired++; throw std::bad_alloc(); }
        }
        if(n > (4ull << 30)) throw std::bad_alloc();
        arenas[c->tid] = c->arena;
        void* p = arena_alloc(c->arena, n, array);
#ifdef SIM_THREADS
        race_heap(c->tid, (u64)p, n, false);
#endif
        return p;
    }
    void* p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
static void sim_delete(void* p, bool array, u64 size = UNSIZED)
{
    if(!p) return;
    u64 a = (u64)p;
    if(a >= ARENA_BASE && a < ARENA_BASE + 16 * ARENA_SIZE)
    {
        HostScope hs;
        int t = (int)((a - ARENA_BASE) / ARENA_SIZE);
        if(!arenas[t]) die("HEAP", "release of an address that was never allocated");
#ifdef SIM_THREADS
        { auto it = arenas[t]->blocks.find(a); if(it != arenas[t]->blocks.end() && it->second.live) race_heap(t, a, it->second.size, true); }
#endif
        arena_free(arenas[t], a, array, size);
        return;
    }
    free(p);
}
} // namespace sim

void* operator new(std::size_t n) { return sim::sim_new(n, false); }
void* operator new[](std::size_t n) { return sim::sim_new(n, true); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return sim::sim_new(n, false); } catch(...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return sim::sim_new(n, true); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { sim::sim_delete(p, false); }
void operator delete[](void* p) noexcept { sim::sim_delete(p, true); }
void operator delete(void* p, std::size_t n) noexcept { sim::sim_delete(p, false, n); }
void operator delete[](void* p, std::size_t n) noexcept { sim::sim_delete(p, true, n); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::sim_delete(p, false); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::sim_delete(p, true); }

// ---------------------------------------------------------------- randomness
namespace std {
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval()
{
    sim::Ctx* c = sim::tctx;
    return c ? (unsigned)c->dev_rng.next() : 12345u;
}
random_device::result_type random_device::_M_getval_pretr1() { return _M_getval(); }
double random_device::_M_getentropy() const noexcept { return 32; }
}

extern "C" std::size_t lbdd_sim_hash_key(std::size_t drawn)
{
    sim::Ctx* c = sim::tctx;
    if(!c) return drawn;
    const sim::Env& e = c->env;
    constexpr std::size_t M = (std::size_t(1) << 22) - 1;
    switch(e.hash_mode)
    {
        case 1: return c->hash_rng.next() & ((1ull << (1 + e.hash_seed % 4)) - 1);
        case 2: return e.hash_seed & M;
        case 3: return M - c->hash_rng.below(3);
        case 4: return (c->hash_counter++) & M;
        case 5: return c->hash_rng.chance(1, 2) ? (e.hash_seed & M) : ((e.hash_seed >> 22) & M);
        default: return drawn;
    }
}

// ---------------------------------------------------------------- simulated clock
extern "C" void __sanitizer_cov_trace_pc()
{
    sim::Ctx* c = sim::tctx;
    if(!c || !c->in_sut) return;
    sim::u64 pc = (sim::u64)__builtin_return_address(0);
    c->trace_hash = (c->trace_hash ^ pc) * 0x100000001b3ull;
    c->trace_hash ^= c->trace_hash >> 29;
    sim::u64 e = (pc ^ (c->prev_pc >> 1)) * 0x9e3779b97f4a7c15ull;
    c->prev_pc = pc;
    sim::u32 bit = (sim::u32)(e >> 48);
    if(sim::shared) sim::shared->cov[bit >> 3] |= (unsigned char)(1u << (bit & 7));
    c->steps++;
    if(++c->op_steps > c->step_limit)
    {
        c->in_sut = false;
        sim::die("HANG", "operation still running after %llu simulated steps", (unsigned long long)c->op_steps);
    }
}

#ifdef SIM_WRAP
// moving memory takes time, too: one tick for 32 bytes
static inline void block_cost(size_t n)
{
    sim::Ctx* c = sim::tctx;
    if(n < 64 || !c || !c->in_sut) return;
    c->steps += n / 32;
    if((c->op_steps += n / 32) > c->step_limit)
    {
        c->in_sut = false;
        sim::die("HANG", "operation still running after %llu simulated steps", (unsigned long long)c->op_steps);
    }
}
extern "C" {
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { block_cost(n); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { block_cost(n); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { block_cost(n); return __real_memset(d, c, n); }
}
#endif

// ---------------------------------------------------------------- crashes
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* func) noexcept
{
    if(sim::tctx) sim::tctx->in_sut = false;
    const char* b = strrchr(file, '/');
    (void)func;
    sim::die("CRASH", "assertion failed: %s (%s:%u)", expr, b ? b + 1 : file, line);
}

extern "C" void __asan_on_error() {
    if(sim::tctx) sim::tctx->in_sut = false;
    extern const char* sim_asan_desc();
    sim::die("CRASH", "address sanitizer: %s", sim_asan_desc());
}
extern "C" const char* __asan_get_report_description() __attribute__((weak));
const char* sim_asan_desc() { const char* d = __asan_get_report_description ? __asan_get_report_description() : nullptr; return d ? d : "error"; }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:abort_on_error=1:use_sigaltstack=0:detect_stack_use_after_return=0:allocator_may_return_null=1:print_summary=0:log_path=/dev/null"; }

namespace sim {
static void on_signal(int s)
{
    if(tctx) tctx->in_sut = false;
    const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : "SIGILL";
    die("CRASH", "%s", n);
}
static char altstack[16][65536];
void enter_run()
{
    static int used = 0;
    stack_t ss{}; ss.ss_sp = altstack[__atomic_fetch_add(&used, 1, __ATOMIC_SEQ_CST) & 15]; ss.ss_size = sizeof altstack[0];
    sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for(int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
}

struct StackJob { void (*f)(void*); void* arg; };
static void* stack_main(void* p) { StackJob* j = (StackJob*)p; enter_run(); j->f(j->arg); return nullptr; }
void run_on_stack(u64 stack_seed, void (*f)(void*), void* arg)
{
    constexpr u64 SB = 0x300000000000ull, SZ = 256ull << 20;
    void* p = mmap((void*)SB, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(p != (void*)SB) { fprintf(stderr, "sim: cannot map stack\n"); _exit(9); }
    // garbage in the part of the stack that ordinary calls use
    u64 n = 128 << 10, x = mix(stack_seed);
    for(u64 i = 0; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; u64 v = stack_seed % 3 == 0 ? 0 : stack_seed % 3 == 1 ? ~0ull : x; memcpy((char*)p + SZ - n + i, &v, 8); }
    mprotect(p, 4096, PROT_NONE);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, p, SZ);
    StackJob j{f, arg};
    pthread_t t;
    if(pthread_create(&t, &at, stack_main, &j)) { fprintf(stderr, "sim: cannot start thread\n"); _exit(9); }
    pthread_join(t, nullptr);
}
} // namespace sim
