// The threaded simulation: every client is a real thread with its own world, but only the thread that holds
// the baton runs. The library is compiled with -fsanitize=thread, whose calls land here instead of in the
// ThreadSanitizer runtime: each memory access of the library is a scheduling point of the simulator and is
// checked by a vector-clock race oracle. The schedule is a function of the scenario's schedule seed, or the
// explicit list of switches of a replay file.
// Compiled without instrumentation.
#include "scenario.h"
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <unordered_map>
#include <vector>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" char __data_start, _end;

namespace sim {
constexpr int MAXT = 4;
using VC = std::array<u32, MAXT>;

struct Thread {
    Ctx ctx; sem_t sem; VC vc{}; bool done = false; const void* blocked = nullptr;
    int tid = 0; u64 accesses = 0;
};
static Thread T[MAXT];
static int nthreads = 0, current = 0;
static bool active = false;
static thread_local int my_tid = -1;
static const Scenario* scen;
static u64 gstep = 0;             // global number of scheduling points
static u64 next_sw = ~0ull;       // global step of the next planned preemption
static Rng srng;
static int policy = 0; static u64 mean_gap = 1000; static u32 static_den = 4; static u64 budget = 0;
static std::vector<std::pair<u64, int>> plan; static size_t plan_i = 0;
static int prio[MAXT];

// ---------------------------------------------------------------- scheduler
static void draw_gap();
static bool runnable(int t) { return !T[t].done && !T[t].blocked; }
static void record(int to, bool forced)
{
    if(shared->nsw < MAXSW) { shared->sw_at[shared->nsw] = 2 * gstep + forced; shared->sw_to[shared->nsw] = to; }
    shared->nsw++;
}
static int choose(bool self_ok)
{
    std::vector<int> c;
    for(int t = 0; t < nthreads; ++t) if(runnable(t) && (self_ok || t != current)) c.push_back(t);
    if(c.empty()) return -1;
    if(scen->explicit_sched)
    {
        if(plan_i < plan.size() && plan[plan_i].first <= 2 * gstep + 1)
        {
            const int t = plan[plan_i++].second; draw_gap();
            for(int x : c) if(x == t) return t;
        }
        return c[0];
    }
    if(policy == 1) { int b = c[0]; for(int t : c) if(prio[t] > prio[b]) b = t; return b; }
    return c[srng.below(c.size())];
}
static void draw_gap()
{
    if(scen->explicit_sched) { next_sw = plan_i < plan.size() ? plan[plan_i].first : ~0ull; return; }
    next_sw = budget ? gstep + 1 + srng.below(2 * mean_gap) : ~0ull;
}
static void switch_to(int t, bool wait, bool forced)
{
    const int me = current;
    if(t == me) return;
    record(t, forced);
    T[me].ctx.trace_hash = mix2(T[me].ctx.trace_hash, gstep * 8 + t);
    current = t;
    sem_post(&T[t].sem);
    if(wait) while(sem_wait(&T[me].sem)) {}
}
// a point at which the running thread may lose the baton
static void preempt(bool hot)
{
    if(!active) return;
    ++gstep;
    bool now = scen->explicit_sched ? 2 * gstep >= next_sw : gstep >= next_sw;
    if(!now && hot && !scen->explicit_sched && budget) now = srng.chance(1, static_den);
    if(!now) return;
    HostScope hs;
    if(scen->explicit_sched)
    {
        int t = plan[plan_i++].second; draw_gap();
        if(t < nthreads && runnable(t)) switch_to(t, true, false);
        return;
    }
    if(policy == 1) prio[current] = -(int)(gstep >> 1) - 1; // the running thread falls to the lowest priority
    const int t = choose(policy == 1 || srng.chance(1, 8));
    draw_gap();
    if(t >= 0 && t != current) { if(budget) --budget; shared->cnt[158]++; switch_to(t, true, false); }
}
static void block_on(const void* a)
{
    HostScope hs;
    T[current].blocked = a;
    const int t = choose(false);
    if(t < 0) die("DEADLOCK", "every client waits for a lock or for an initialisation of another");
    shared->cnt[159]++;
    switch_to(t, true, true);
}
static void wake(const void* a) { for(int t = 0; t < nthreads; ++t) if(T[t].blocked == a) T[t].blocked = nullptr; }

// ---------------------------------------------------------------- happens-before
static std::unordered_map<const void*, VC>* syncs;
static void acquire(const void* a) { auto it = syncs->find(a); if(it != syncs->end()) for(int i = 0; i < MAXT; ++i) T[my_tid].vc[i] = std::max(T[my_tid].vc[i], it->second[i]); }
static void release(const void* a) { VC& v = (*syncs)[a]; for(int i = 0; i < MAXT; ++i) v[i] = std::max(v[i], T[my_tid].vc[i]); T[my_tid].vc[my_tid]++; }

struct Cell { u32 w[MAXT], r[MAXT]; u64 wpc[MAXT], rpc[MAXT]; };
static std::unordered_map<u64, Cell>* cells; // per byte: static data, and arena memory touched by a foreign thread
static u64* own_shadow[MAXT];               // per 8 bytes of a thread's arena: write clock << 32 | read clock of the owner
static u64 arena_lo, arena_span, arena_end;
static bool any_foreign = false;

[[noreturn]] static void race(u64 a, int other, bool wr, bool owr, u64 pc, u64 opc)
{
    if(tctx) tctx->in_sut = false;
    const bool st = a >= (u64)&__data_start && a < (u64)&_end;
    die("RACE", "clients %d and %d access %s 0x%llx without synchronisation (%s at 0x%llx, %s%s%llx)", my_tid, other,
        st ? "static data at" : "heap memory at", (unsigned long long)a, wr ? "write" : "read", (unsigned long long)pc, owr ? "write" : "read", opc ? " at 0x" : " earlier ", (unsigned long long)opc);
}
static void cell_access(u64 a, u64 n, bool wr, u64 pc)
{
    HostScope hs;
    const int me = my_tid; const VC& vc = T[me].vc;
    for(u64 b = a; b < a + n; ++b)
    {
        Cell& c = (*cells)[b];
        for(int t = 0; t < nthreads; ++t)
        {
            if(t == me) continue;
            if(c.w[t] > vc[t]) race(b, t, wr, true, pc, c.wpc[t]);
            if(wr && c.r[t] > vc[t]) race(b, t, wr, false, pc, c.rpc[t]);
        }
        if(wr) { c.w[me] = vc[me]; c.wpc[me] = pc; } else { c.r[me] = vc[me]; c.rpc[me] = pc; }
    }
}
static inline void access(u64 a, u64 n, bool wr, u64 pc)
{
    Ctx* c = tctx;
    if(!c || !c->in_sut || !active) return;
    if(pc >= (u64)&_end || pc < 0x10000) pc &= 0xfff; // called from a shared library, whose address is not the simulator's to choose
    c->trace_hash = (c->trace_hash ^ pc) * 0x100000001b3ull; c->trace_hash ^= c->trace_hash >> 29;
    const u64 e = (pc ^ (c->prev_pc >> 1)) * 0x9e3779b97f4a7c15ull; c->prev_pc = pc;
    const u32 bit = (u32)(e >> 48); shared->cov[bit >> 3] |= (unsigned char)(1u << (bit & 7));
    c->steps++;
    if(++c->op_steps > c->step_limit) { c->in_sut = false; die("HANG", "operation still running after %llu simulated steps", (unsigned long long)c->op_steps); }
    bool hot = false;
    if(a >= arena_lo && a < arena_end)
    {
        const int o = (int)((a - arena_lo) / arena_span);
        if(o == my_tid)
        {
            u64* s = own_shadow[o] + ((a - arena_lo - o * arena_span) >> 3); u64* z = own_shadow[o] + ((a + n - 1 - arena_lo - o * arena_span) >> 3);
            for(; s <= z; ++s) *s = wr ? ((*s & 0xffffffffu) | ((u64)T[o].vc[o] << 32)) : ((*s >> 32 << 32) | T[o].vc[o]);
            if(any_foreign) cell_access(a, n, wr, pc);
        }
        else if(o < nthreads)
        {
            any_foreign = true; hot = true;
            for(u64 b = a & ~7ull; b < a + n; b += 8)
            {
                const u64 s = own_shadow[o][(b - arena_lo - o * arena_span) >> 3];
                if((s >> 32) > T[my_tid].vc[o]) race(b, o, wr, true, pc, 0);
                if(wr && (s & 0xffffffffu) > T[my_tid].vc[o]) race(b, o, wr, false, pc, 0);
            }
            cell_access(a, n, wr, pc);
        }
    }
    else if(a >= (u64)&__data_start && a < (u64)&_end) { hot = true; shared->cnt[157]++; cell_access(a, n, wr, pc); }
    preempt(hot);
}
// memory handed out or released by the simulated heap
void race_heap(int owner, u64 p, u64 n, bool free_)
{
    if(!active || my_tid < 0) return;
    const u64 k = n < 256 ? n : 256;
    if(owner != my_tid && free_)
    {
        any_foreign = true;
        for(u64 b = p; b < p + k; b += 8)
        {
            const u64 s = own_shadow[owner][(b - arena_lo - owner * arena_span) >> 3];
            if((s >> 32) > T[my_tid].vc[owner]) race(b, owner, true, true, 0, 0);
        }
    }
    if(!free_) { memset(own_shadow[owner] + ((p - arena_lo - owner * arena_span) >> 3), 0, ((n + 7) >> 3) * 8); if(any_foreign) for(u64 b = p; b < p + n && b < p + 4096; ++b) cells->erase(b); }
}

// ---------------------------------------------------------------- running
struct Job { int tid; std::vector<const Op*> ops; };
static Job jobs[MAXT];
static void boundary() { Ctx* c = tctx; const bool o = c->in_sut; c->in_sut = true; preempt(true); c->in_sut = o; }
static void* client_main(void* p)
{
    Job* j = (Job*)p;
    enter_run();
    my_tid = j->tid;
    tctx = &T[j->tid].ctx;
    while(sem_wait(&T[j->tid].sem)) {}
    run_client(*scen, j->tid, boundary);
    {
        T[j->tid].done = true;
        const int t = choose(false);
        if(t >= 0) switch_to(t, false, true);
        else
        {
            for(int k = 0; k < nthreads; ++k) if(!T[k].done) die("DEADLOCK", "client %d waits for a lock that is never released", k);
        }
    }
    tctx = nullptr;
    return nullptr;
}
void run_threads(const Scenario& s)
{
    mallopt(M_ARENA_MAX, 1);
    run_setup(s);
    scen = &s; Ctx base = *tctx; tctx = nullptr;
    syncs = new std::unordered_map<const void*, VC>; cells = new std::unordered_map<u64, Cell>;
    int maxc = -1; for(auto& o : s.ops) maxc = std::max(maxc, o.cl);
    nthreads = std::min(maxc + 1, MAXT);
    u64 lo, hi; arena_owner_range(0, lo, hi); arena_lo = lo; arena_span = hi - lo; arena_end = lo + MAXT * arena_span;
    srng = Rng(mix2(s.sched_seed, 91));
    policy = (int)srng.below(3) == 0 ? 1 : 0;
    static const u64 gaps[] = {3, 10, 30, 100, 300, 1000, 5000, 20000, 100000};
    mean_gap = gaps[srng.below(9)]; static_den = 1 + (u32)srng.below(6);
    budget = srng.chance(1, 4) ? srng.below(8) : 100 + srng.below(1200);
    for(int t = 0; t < MAXT; ++t) prio[t] = (int)srng.below(1000);
    plan = s.sw; plan_i = 0; shared->nsw = 0;
    static const u64 SHW = 1ull << 34;
    for(int t = 0; t < nthreads; ++t)
    {
        T[t].tid = t; sem_init(&T[t].sem, 0, 0); T[t].vc[t] = 1;
        Ctx& c = T[t].ctx; c = Ctx(); c.tid = t; c.env = s.env; c.step_limit = base.step_limit;
        c.hash_rng = Rng(mix2(s.env.hash_seed, 10 + t)); c.dev_rng = Rng(mix2(s.env.hash_seed, 20 + t));
        Env e = s.env; e.heap_seed = mix2(e.heap_seed, t); c.arena = t == 0 ? base.arena : arena_create(t, e);
        own_shadow[t] = (u64*)mmap((void*)(0x400000000000ull + t * SHW), SHW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(own_shadow[t] == MAP_FAILED) { fprintf(stderr, "sim: cannot map shadow\n"); _exit(9); }
        if(s.only >= 0 && t != s.only) T[t].done = true;
    }
    pthread_t th[MAXT];
    for(int t = 0; t < nthreads; ++t)
    {
        if(T[t].done) continue;
        jobs[t].tid = t;
        constexpr u64 SB = 0x310000000000ull, SZ = 256ull << 20;
        void* p = mmap((void*)(SB + t * (SZ + (1 << 20))), SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(p == MAP_FAILED) { fprintf(stderr, "sim: cannot map stack\n"); _exit(9); }
        mprotect(p, 4096, PROT_NONE);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, p, SZ);
        if(pthread_create(&th[t], &at, client_main, &jobs[t])) { fprintf(stderr, "sim: cannot start thread\n"); _exit(9); }
    }
    current = 0; if(s.only >= 0) current = s.only; else if(!s.explicit_sched) current = (int)srng.below(nthreads);
    else if(!plan.empty() && plan[0].first == 0) { current = plan[0].second % nthreads; ++plan_i; }
    if(nthreads)
    {
        if(!T[current].done) record(current, false);
        draw_gap();
        active = true;
        sem_post(&T[current].sem);
        for(int t = 0; t < nthreads; ++t) if(s.only < 0 || t == s.only) pthread_join(th[t], nullptr);
        active = false;
    }
    shared->steps = 0; shared->trace_hash = 0;
    for(int t = 0; t < nthreads; ++t) { shared->steps += T[t].ctx.steps; shared->trace_hash = mix2(shared->trace_hash, T[t].ctx.trace_hash); }
    shared->cnt[156] += gstep;
    shared->status = ST_OK;
    _exit(0);
}
} // namespace sim

using namespace sim;
#define PC ((u64)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { access((u64)p, N, false, PC); } void __tsan_write##N(void* p) { access((u64)p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { access((u64)p, N, false, PC); } void __tsan_volatile_write##N(void* p) { access((u64)p, N, true, PC); } \
    void __tsan_unaligned_volatile_read##N(void* p) { access((u64)p, N, false, PC); } void __tsan_unaligned_volatile_write##N(void* p) { access((u64)p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { access((u64)p, N, false, PC); } void __tsan_unaligned_write##N(void* p) { access((u64)p, N, true, PC); } \
    void __tsan_read##N##_pc(void* p, void* pc) { access((u64)p, N, false, (u64)pc); } void __tsan_write##N##_pc(void* p, void* pc) { access((u64)p, N, true, (u64)pc); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if(n) access((u64)p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { if(n) access((u64)p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access((u64)p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access((u64)p, 8, false, PC); }

static void atomic_point(const volatile void* p, int mo)
{
    Ctx* c = tctx; if(!c || !c->in_sut || !active) return;
    c->steps++; const u64 q = (u64)p; c->trace_hash = mix2(c->trace_hash, q < (u64)&_end || (q >= arena_lo && q < arena_end) ? q : 0); // other memory has addresses of the system's choice
    preempt(true);
    HostScope hs;
    if(mo != 0) { acquire((const void*)p); release((const void*)p); }
}
#define AT(B, TY) \
    TY __tsan_atomic##B##_load(const volatile TY* p, int mo) { atomic_point(p, mo); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##B##_store(volatile TY* p, TY v, int mo) { atomic_point(p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_exchange(volatile TY* p, TY v, int mo) { atomic_point(p, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_add(volatile TY* p, TY v, int mo) { atomic_point(p, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY* p, TY v, int mo) { atomic_point(p, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_and(volatile TY* p, TY v, int mo) { atomic_point(p, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_or(volatile TY* p, TY v, int mo) { atomic_point(p, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY* p, TY v, int mo) { atomic_point(p, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_fetch_nand(volatile TY* p, TY v, int mo) { atomic_point(p, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int mo, int) { atomic_point(p, mo); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int mo, int) { atomic_point(p, mo); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY* p, TY e, TY v, int mo, int) { atomic_point(p, mo); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { static char fence; atomic_point(&fence, 5); }
void __tsan_atomic_signal_fence(int) {}

// function-local statics
int __cxa_guard_acquire(unsigned char* g)
{
    Ctx* c = tctx;
    const bool simd = c && active && my_tid >= 0;
    for(;;)
    {
        if(simd && c->in_sut) preempt(true);
        if(g[0]) { if(simd) { HostScope hs; acquire(g); } return 0; }
        if(!g[1]) { g[1] = (unsigned char)(1 + (my_tid < 0 ? 0 : my_tid)); if(simd) { HostScope hs; acquire(g); } return 1; }
        if(!simd || g[1] == 1 + my_tid) die("DEADLOCK", "recursive initialisation of a static");
        block_on(g);
    }
}
void __cxa_guard_release(unsigned char* g) { if(tctx && active && my_tid >= 0) { HostScope hs; release(g); wake(g); } g[1] = 0; g[0] = 1; }
void __cxa_guard_abort(unsigned char* g) { if(tctx && active && my_tid >= 0) { HostScope hs; release(g); wake(g); } g[1] = 0; }

// mutexes used by the library
static std::map<const void*, std::pair<int, int>>* held;
static bool simulated() { return tctx && tctx->in_sut && active && my_tid >= 0; }
static int real_call(const char* n, void* m)
{
    typedef int (*F)(void*);
    F f = (F)dlsym(RTLD_NEXT, n);
    return f ? f(m) : 0;
}
static int lock_impl(void* m, bool try_)
{
    preempt(true);
    for(;;)
    {
        HostScope hs;
        if(!held) held = new std::map<const void*, std::pair<int, int>>;
        auto it = held->find(m);
        if(it == held->end()) { (*held)[m] = {my_tid, 1}; acquire(m); return 0; }
        if(it->second.first == my_tid)
        {
            if(((pthread_mutex_t*)m)->__data.__kind & 1) { it->second.second++; return 0; }
            if(try_) return 16;
            die("DEADLOCK", "a client locks a mutex it already holds");
        }
        if(try_) return 16;
        block_on(m);
    }
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return simulated() ? lock_impl(m, false) : real_call("pthread_mutex_lock", m); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return simulated() ? lock_impl(m, true) : real_call("pthread_mutex_trylock", m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if(tctx && active && my_tid >= 0 && held)
    {
        auto it = held->find(m);
        if(it != held->end())
        {
            HostScope hs;
            if(--it->second.second == 0) { held->erase(it); release(m); wake(m); }
            return 0;
        }
    }
    return real_call("pthread_mutex_unlock", m);
}
struct Rw { int writer = -1; std::map<int, int> readers; };
static std::map<const void*, Rw>* rws;
static int rw_lock(void* l, bool wr, bool try_)
{
    preempt(true);
    for(;;)
    {
        HostScope hs;
        if(!rws) rws = new std::map<const void*, Rw>;
        Rw& r = (*rws)[l];
        bool free_ = r.writer < 0;
        if(wr) free_ = free_ && r.readers.empty();
        if(free_) { if(wr) r.writer = my_tid; else r.readers[my_tid]++; acquire(l); return 0; }
        if(try_) return 16;
        if(r.writer == my_tid) die("DEADLOCK", "a client locks a read-write lock it already holds");
        block_on(l);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return simulated() ? rw_lock(l, false, false) : real_call("pthread_rwlock_rdlock", l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return simulated() ? rw_lock(l, true, false) : real_call("pthread_rwlock_wrlock", l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return simulated() ? rw_lock(l, false, true) : real_call("pthread_rwlock_tryrdlock", l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return simulated() ? rw_lock(l, true, true) : real_call("pthread_rwlock_trywrlock", l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
    if(tctx && active && my_tid >= 0 && rws)
    {
        auto it = rws->find(l);
        if(it != rws->end())
        {
            HostScope hs;
            if(it->second.writer == my_tid) it->second.writer = -1;
            else { auto q = it->second.readers.find(my_tid); if(q != it->second.readers.end() && --q->second == 0) it->second.readers.erase(q); }
            release(l); wake(l);
            return 0;
        }
    }
    return real_call("pthread_rwlock_unlock", l);
}
static std::set<const void*>* onces;
int pthread_once(pthread_once_t* o, void (*f)())
{
    if(!simulated()) { typedef int (*F)(pthread_once_t*, void (*)()); return ((F)dlsym(RTLD_NEXT, "pthread_once"))(o, f); }
    preempt(true);
    for(;;)
    {
        {
            HostScope hs;
            if(!onces) onces = new std::set<const void*>;
            if(*(int*)o & 2) { acquire(o); return 0; }
            if(onces->count(o)) { block_on(o); continue; }
            onces->insert(o); acquire(o);
        }
        try { f(); } catch(...) { HostScope hs; onces->erase(o); release(o); wake(o); throw; }
        HostScope hs;
        onces->erase(o); *(int*)o = 2; release(o); wake(o);
        return 0;
    }
}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if(n && tctx && tctx->in_sut) { access((u64)s, n, false, PC); access((u64)d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if(n && tctx && tctx->in_sut) { access((u64)s, n, false, PC); access((u64)d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if(n && tctx && tctx->in_sut) access((u64)d, n, true, PC); return __real_memset(d, c, n); }
}
