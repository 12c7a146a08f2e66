// Runner: executes scenarios in child processes, searches over seeds, confirms, minimises and replays violations.
#include "world.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstddef>
#include <map>
#include <fstream>
#include <sstream>
#include <set>
#include <algorithm>
#include <chrono>
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

namespace sim {
#ifdef SIM_THREADS
void run_threads(const Scenario& s); // never returns normally
#endif
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static bool verbose = false, raw = false;

struct Verdict {
    int status = 0; std::string cls, msg; int op = -1; bool in_gc = false, in_turn = false;
    u64 steps = 0, trace_hash = 0, log_hash = 0, nops = 0;
    std::vector<u64> cnt, obs; std::vector<u32> allocs; int nobs = 0;
    bool viol() const { return status == ST_VIOL; }
};
[[noreturn]] static void fail(const char* m) { fprintf(stderr, "sim error: %s\n", m); fflush(nullptr); _exit(9); }

struct RunArg { const Scenario* s; u32 cls; };
static void run_main(void* p)
{
    RunArg* a = (RunArg*)p; const Scenario& s = *a->s;
    static Ctx ctx;
    ctx.env = s.env; ctx.hash_rng = Rng(mix2(s.env.hash_seed, 1)); ctx.dev_rng = Rng(mix2(s.env.hash_seed, 2));
    ctx.arena = arena_create(0, s.env); ctx.step_limit = 150000000 + (s.act.empty() ? 0 : s.act.back()) * 20000ull;
    tctx = &ctx;
#ifdef SIM_THREADS
    run_threads(s);
#else
    if(s.prop == "C05") run_pools(s); else run_world(s, a->cls);
#endif
    _exit(0);
}
static Verdict run_once(const Scenario& s, u32 cls)
{
    memset((void*)shared, 0, offsetof(Shared, cov));
    fflush(nullptr);
    pid_t p = fork();
    if(p < 0) fail("fork");
    if(p == 0)
    {
        rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        alarm(400);
        rlimit cpu{110, 120}; setrlimit(RLIMIT_CPU, &cpu);
        if(!verbose) { FILE* f = freopen("/dev/null", "w", stderr); (void)f; }
        RunArg a{&s, cls};
        run_on_stack(s.stack_seed, run_main, &a);
        _exit(9);
    }
    int st = 0;
    while(waitpid(p, &st, 0) < 0) if(errno != EINTR) fail("waitpid");
    Verdict v;
    v.status = shared->status; v.cls = shared->cls; v.msg = shared->msg; v.op = shared->op; v.in_gc = shared->in_gc != 0; v.in_turn = shared->in_turn != 0;
    v.steps = shared->steps; v.trace_hash = shared->trace_hash; v.log_hash = shared->log_hash; v.nops = shared->nops;
    v.cnt.assign(shared->cnt, shared->cnt + NCNT); v.obs.assign(shared->obs, shared->obs + MAXOPS);
    v.allocs.assign(shared->op_allocs, shared->op_allocs + MAXOPS); v.nobs = shared->nobs;
    if(v.status == ST_NONE)
    {
        if(WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL && WTERMSIG(st) != SIGXCPU && WTERMSIG(st) != SIGTERM && WTERMSIG(st) != SIGALRM)
        { v.status = ST_VIOL; v.cls = "CRASH"; v.msg = "killed by signal " + std::to_string(WTERMSIG(st)); }
        else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { v.status = ST_VIOL; v.cls = "HANG"; v.msg = "run does not end"; }
        else { fprintf(stderr, "run of seed %llu ended without a verdict (status %x)\n%s", (unsigned long long)s.seed, st, to_text(s).c_str()); fail("run without verdict"); }
    }
    if(verbose) fprintf(stderr, "  run: %s %s %s steps=%llu trace=%016llx log=%016llx ops=%llu\n", v.viol() ? "VIOL" : "ok", v.cls.c_str(), v.msg.c_str(), (unsigned long long)v.steps, (unsigned long long)v.trace_hash, (unsigned long long)v.log_hash, (unsigned long long)v.nops);
    return v;
}

static bool has_faults(const Scenario& s) { for(auto& o : s.ops) if(o.fault) return true; return false; }
static Scenario without_faults(Scenario s) { for(auto& o : s.ops) o.fault = false; return s; }
static bool is_gc(const Op& o) { return o.kind == K_GC || (o.kind == K_DEEP && (o.a[0] % DEEP_KINDS == 14 || o.a[0] % DEEP_KINDS == 15)); }
static Scenario without_gc(Scenario s)
{
    std::vector<Op> o; for(auto& x : s.ops) { if(is_gc(x)) continue; if(x.kind == K_GROW || x.kind == K_MEMO) x.a[5] &= ~2u; o.push_back(x); }
    s.ops.swap(o); return s;
}

struct Agg {
    u64 runs = 0, steps = 0, ops = 0; std::vector<u64> cnt = std::vector<u64>(NCNT, 0);
    std::vector<u64> traces; u64 trace_acc = 0; bool nontrivial = false;
    const std::vector<int>* rel = nullptr;
    void add(const Verdict& v)
    {
        ++runs; steps += v.steps; ops += v.nops;
        for(int i = 0; i < NCNT; ++i) { if(i == N_NODES_MAX || i == N_HANDLES_MAX || i == N_VARS_MAX || i == N_TABLE_BIG || i == N_WORK_RATIO || i == N_BIG_STEPS || i == N_DEEP_LEVELS || i == N_BROAD_NODES) cnt[i] = std::max(cnt[i], v.cnt[i]); else cnt[i] += v.cnt[i]; }
        if(v.cnt[N_DEEP_OPS]) nontrivial = true;
        if(rel) for(int i : *rel) if(v.cnt[i]) nontrivial = true;
        trace_acc = mix2(trace_acc, v.trace_hash);
    }
};
// an event of one of these kinds must have happened for a run to count as exercising the property
static std::vector<int> relevant(const std::string& p)
{
    if(p == "C01" || p == "C02") return {N_RESULTS};
    if(p == "C03") return {K_GC, K_DROP, K_DROPN, K_MOVE, K_ASGN, K_SELF, K_VEC, K_DIE};
    if(p == "C04") return {N_GC_RECLAIMED};
    if(p == "C05") return {N_POOL_REUSE, N_FAULT_FIRED};
    if(p == "C06") return {K_QRY, K_QALL};
    if(p == "C07") return {N_FAULT_FIRED, N_STREAM_SHORT, N_STREAM_THROW, N_STREAM_CUSTOM};
    if(p == "C08") return {K_CARD};
    if(p == "C09") return {N_ACCEPTED, N_REFUSE_BIN};
    if(p == "C10") return {K_REB};
    if(p == "C11") return {K_CORV, K_CREB, K_CREM};
    if(p == "C12") return {N_ACCEPTED, N_REFUSED};
    if(p == "C13") return {K_CADD, K_CEXP};
    if(p == "C14" || p == "C15") return {N_FAULT_FIRED};
    if(p == "C18") return {N_GROWN, K_ADDV};
    if(p == "C20") return {K_PRN, K_CGV};
    if(p == "C21") return {K_CVIEW};
    if(p == "C22") return {K_CBLD};
    if(p == "C23") return {K_DEPTH};
    if(p == "C24") return {N_DEEP_OPS};
    if(p == "C25") return {N_WORK_CHECKED};
    return {N_RESULTS};
}

struct Outcome { bool viol = false; bool foreign = false; std::string cls, msg; u64 hash = 0; };
static Outcome out_of(const Verdict& v) { Outcome o; o.viol = v.viol(); o.cls = v.cls; o.msg = v.msg; o.hash = mix2(v.trace_hash, mix2(v.log_hash, v.steps)); return o; }
static Outcome foreign(const Verdict& v) { Outcome o = out_of(v); o.viol = false; o.foreign = true; return o; }

static u32 class_bit(const std::string& c)
{
    static const char* const names[] = {"SEM", "CANON", "STABLE", "GC", "TRAV", "TRACE", "CARD", "LIMIT", "REBASE", "COLL", "CAND", "XFER", "EXC", "GROW", "LEAK", "PRINT", "VIEW", "BUILD", "POOL", "WORK", "DEPTH", "DEEP"};
    for(int i = 0; i < 22; ++i) if(c == names[i]) return 1u << i;
    return 0;
}
// what the fault-free execution of a scenario already gets wrong is not what the faults did:
// returns the classes to look at in its faulted variants, 0 if the fault-free run cannot serve as a baseline
static u32 baseline(const Scenario& s, u32 cls, Agg* ag, Verdict& v)
{
    for(int tries = 0; tries < 4; ++tries)
    {
        v = run_once(s, cls); if(ag) ag->add(v);
        if(!v.viol()) return cls;
        const u32 b = class_bit(v.cls) & ~C_EXC;
        if(!(b & cls)) return 0;
        cls &= ~b;
        if(!cls) return 0;
    }
    return 0;
}

// decides one fully specified scenario
static Outcome decide(const Scenario& s, Agg* ag, std::vector<u32>* allocs, u32* mask = nullptr)
{
    if(mask) *mask = classes_of(s.prop);
    const std::string& p = s.prop; const u32 cls = classes_of(p);
    auto run = [&](const Scenario& x) { Verdict v = run_once(x, cls); if(ag) ag->add(v); return v; };
    if(p == "C14" || p == "C15")
    {
        if(has_faults(s))
        {
            Verdict b; const u32 c = baseline(without_faults(s), cls, ag, b);
            if(!c) return foreign(b);
            Verdict v = run_once(s, c); if(ag) ag->add(v);
            return out_of(v);
        }
        Verdict v; const u32 c = baseline(s, cls, ag, v); if(allocs) *allocs = v.allocs;
        if(mask) *mask = c;
        return c ? out_of(v) : foreign(v);
    }
    if(p == "C04")
    {
        Verdict v = run(s);
        if(!v.viol() || v.cls == "GC" || v.op < 0 || v.in_gc) return out_of(v);
        for(auto& o : s.ops) if(o.id == v.op && is_gc(o)) return out_of(v);
        Verdict w = run(without_gc(s));
        return w.viol() ? foreign(v) : out_of(v);
    }
    if(p == "C16")
    {
        Verdict v = run(s);
        if(v.viol() && (v.cls == "INTERFERE" || v.in_turn)) return out_of(v);
        std::set<int> cl; for(auto& o : s.ops) cl.insert(o.cl);
        Outcome r = out_of(v);
        bool solo_bad = false; std::string diff;
        for(int c : cl)
        {
            Scenario x = s; x.only = c; Verdict w = run(x); r.hash = mix2(r.hash, w.log_hash);
            if(w.viol()) { solo_bad = true; continue; }
            for(auto& o : s.ops) if(o.cl == c && o.id < MAXOPS && diff.empty() && w.obs[o.id] != v.obs[o.id])
                diff = "op " + std::to_string(o.id) + " (" + kind_name[o.kind] + ") of client " + std::to_string(c) + " has another outcome than when the client runs alone";
        }
        if(solo_bad) { r.viol = false; r.foreign = true; return r; }
        if(!v.viol() && !diff.empty()) { r.viol = true; r.cls = "INTERFERE"; r.msg = diff; }
        return r;
    }
    if(p == "C17")
    {
        Verdict v = run(s);
        Scenario x = s; Rng r(mix2(s.seed, 31337));
        extern Env random_env(Rng&); x.env = random_env(r); if(s.act.size() > (size_t)MAXN) x.env.hash_mode = 0; x.stack_seed = r.below(1000);
        Verdict w = run(x);
        Outcome o = out_of(v); o.hash = mix2(o.hash, mix2(w.trace_hash, w.log_hash));
        if(v.viol() && w.viol()) { o.viol = false; o.foreign = true; return o; }
        if(v.viol() || w.viol()) { o.viol = true; o.cls = "ENVDIFF"; o.msg = std::string("only in one of two environments: ") + (v.viol() ? v.msg : w.msg); return o; }
        for(auto& q : s.ops) if(q.id < MAXOPS && v.obs[q.id] != w.obs[q.id])
        { o.viol = true; o.cls = "ENVDIFF"; o.msg = "op " + std::to_string(q.id) + " (" + kind_name[q.kind] + ") has different outcomes in two environments"; return o; }
        if(v.log_hash != w.log_hash) { o.viol = true; o.cls = "ENVDIFF"; o.msg = "the final state differs between two environments"; }
        return o;
    }
    Verdict v = run(s); if(allocs) *allocs = v.allocs;
    return out_of(v);
}
static bool wants_faults(const std::string& p) { return p == "C14" || p == "C15" || p == "C07" || p == "C20" || p == "C19" || p == "C23"; }

// the fault sequences tried on one fault-free base scenario
static std::vector<Scenario> fault_plans(const Scenario& s, const std::vector<u32>& al, bool thorough)
{
    std::vector<Scenario> r;
    std::vector<u32> a = al;
    if(s.prop == "C07" || s.prop == "C20")
        for(auto& o : s.ops) if(o.id < MAXOPS && o.kind != K_QRY && o.kind != K_QALL && o.kind != K_PRN && o.kind != K_CGV) a[o.id] = 0;
    if(s.prop == "C23") for(auto& o : s.ops) if(o.id < MAXOPS && o.kind != K_DEPTH) a[o.id] = 0;
    Rng g(mix2(s.seed, 4711));
    const int n = thorough ? 5 : 2;
    for(int i = 0; i < n; ++i) { Scenario x = s; add_faults(x, a.data(), mix2(s.seed, i)); if(has_faults(x)) r.push_back(x); }
    // every single allocation of one operation fails in turn
    if(g.chance(1, 3))
    {
        std::vector<size_t> c; for(size_t i = 0; i < s.ops.size(); ++i) if(s.ops[i].id < MAXOPS && a[s.ops[i].id] > 0 && a[s.ops[i].id] <= (thorough ? 120u : 30u)) c.push_back(i);
        if(!c.empty())
        {
            const size_t i = c[g.below(c.size())];
            const int ext = (int)g.below(3);
            for(u32 k = 0; k < a[s.ops[i].id]; ++k) { Scenario x = s; x.ops[i].fault = true; x.ops[i].from = k; x.ops[i].len = ext == 2 ? 1000000 : 1; r.push_back(x); }
        }
    }
    return r;
}

static Scenario minimise(Scenario s, const Outcome& target, int budget, int& used)
{
    auto same = [&](const Scenario& x) {
        if(used >= budget) return false;
        ++used; Outcome o = decide(x, nullptr, nullptr);
        return o.viol && o.cls == target.cls;
    };
    const double t0 = now();
    auto over = [&] { return used >= budget || now() - t0 > 150; };
    // drop operations
    for(size_t chunk = std::max<size_t>(1, s.ops.size() / 2); !over(); )
    {
        bool any = false;
        for(size_t i = 0; i < s.ops.size() && !over(); )
        {
            Scenario x = s; const size_t e = std::min(i + chunk, s.ops.size());
            x.ops.erase(x.ops.begin() + i, x.ops.begin() + e);
            if(same(x)) { s = x; any = true; } else i = e;
        }
        if(chunk == 1) { if(!any) break; } else chunk = std::max<size_t>(1, chunk / 2);
    }
    // fewer and smaller faults
    for(size_t i = 0; i < s.ops.size() && !over(); ++i) if(s.ops[i].fault)
    {
        Scenario x = s; x.ops[i].fault = false; if(s.prop != "C05" || true) { if(same(x)) { s = x; continue; } }
        if(s.ops[i].len > 1) { x = s; x.ops[i].len = 1; if(same(x)) s = x; }
        if(s.ops[i].from > 0) { x = s; x.ops[i].from = 0; if(same(x)) s = x; }
    }
    // plainer environment
    { Scenario x = s; x.env = Env(); x.stack_seed = 0; if(!over() && same(x)) s = x; else {
        for(int k = 0; k < 5 && !over(); ++k) { x = s; if(k == 0) x.env.hash_mode = 0; if(k == 1) x.env.heap_reuse = 0; if(k == 2) x.env.heap_place = 0; if(k == 3) x.env.heap_fill = 0; if(k == 4) x.stack_seed = 0; if(same(x)) s = x; } } }
    // smaller arguments
    for(size_t i = 0; i < s.ops.size() && !over(); ++i)
        for(int k = 0; k < 6 && !over(); ++k)
        {
            const u32 v = s.ops[i].a[k];
            for(u32 t : {0u, v % 10u, v % 100u, v % 1000u}) { if(t >= v) continue; Scenario x = s; x.ops[i].a[k] = t; if(same(x)) { s = x; break; } }
        }
    // fewer variables
    while(s.act.size() > 1 && !over()) { Scenario x = s; x.act.pop_back(); if(same(x)) s = x; else break; }
    { Scenario x = s; x.teardown_rev = false; for(auto& o : x.ops) o.cl = 0; if(s.prop != "C16" && !over() && same(x)) s = x; }
    return s;
}

#ifdef SIM_THREADS
// replaces the schedule seed by the list of switches it leads to, and drops the switches that are not needed
static Scenario minimise_schedule(const Scenario& s, const Outcome& target, int budget, int& used)
{
    Scenario x = s; x.explicit_sched = true; x.sw.clear();
    run_once(s, classes_of(s.prop));
    if(shared->nsw > (u32)MAXSW) return s;
    for(u32 i = 0; i < shared->nsw; ++i) x.sw.push_back({shared->sw_at[i], shared->sw_to[i]});
    const double t0 = now();
    auto same = [&](const Scenario& y) { ++used; Outcome o = decide(y, nullptr, nullptr); return o.viol && o.cls == target.cls; };
    if(!same(x)) return s;
    budget += used;
    for(size_t chunk = std::max<size_t>(1, x.sw.size() / 2); used < budget && now() - t0 < 60; )
    {
        bool any = false;
        for(size_t i = 0; i < x.sw.size() && used < budget; )
        {
            Scenario y = x; y.sw.erase(y.sw.begin() + i, y.sw.begin() + std::min(i + chunk, y.sw.size()));
            if(same(y)) { x = y; any = true; } else i += chunk;
        }
        if(chunk == 1) { if(!any) break; } else chunk = std::max<size_t>(1, chunk / 2);
    }
    return x;
}
#endif

struct Slot { // one per worker, in shared memory
    u64 runs, scen, steps, ops, foreign, nontrivial, dup_checked, viol_index; int viol; u64 cnt[NCNT];
    unsigned char cov[COVSZ / 8]; u64 ntr; u64 tr[1 << 16]; char vtext[200000]; char cls[16]; char msg[600]; u64 vhash; int err; char errmsg[300];
    char ftext[400];
};
static void jstr(std::ostream& o, const std::string& s)
{
    o << '"';
    for(char c : s) { if(c == '"' || c == '\\') o << '\\' << c; else if(c == '\n') o << "\\n"; else if((unsigned char)c < 32) o << ' '; else o << c; }
    o << '"';
}

static u64 seed_of(u64 base, const std::string& prop, u64 i) { u64 h = mix(base + 17); for(char c : prop) h = mix2(h, c); return mix2(h, i) >> 1; }

static int batch(const std::string& prop, u64 seed, u64 runs, double tmax, int workers, bool thorough, const std::string& outdir)
{
    Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    u64* best = (u64*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *best = ~0ull;
    const double t0 = now();
    const std::vector<int> rel = relevant(prop);
    std::vector<pid_t> ps;
    for(int w = 0; w < workers; ++w)
    {
        pid_t p = fork();
        if(p == 0)
        {
            shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            Slot& sl = slots[w];
            for(u64 i = w; i < runs; i += workers)
            {
                if(i > __atomic_load_n(best, __ATOMIC_SEQ_CST) || now() - t0 > tmax) break;
                Scenario s = generate(prop, seed_of(seed, prop, i), thorough, i);
                Agg ag; ag.rel = &rel;
                std::vector<u32> al;
                Scenario bad = s;
                u32 mask = 0; Outcome o = decide(s, &ag, &al, &mask);
                if(!o.viol && i % 16 == 3)
                { // determinism gate on ordinary runs
                    Outcome o2 = decide(s, nullptr, nullptr);
                    ++sl.dup_checked;
                    if(o2.viol != o.viol || o2.hash != o.hash) { sl.err = 1; snprintf(sl.errmsg, sizeof sl.errmsg, "seed %llu: two executions differ", (unsigned long long)s.seed); break; }
                }
                if(o.foreign) { ++sl.foreign; snprintf(sl.ftext, sizeof sl.ftext, "%s: %s [index %llu]", o.cls.c_str(), o.msg.c_str(), (unsigned long long)i); }
                else if(!o.viol && wants_faults(prop))
                    for(const Scenario& x : fault_plans(s, al, thorough))
                    {
                        // the fault-free run of this scenario was clean
                        Verdict v = run_once(x, mask); ag.add(v);
                        if(v.viol()) { o = out_of(v); bad = x; break; }
                    }
                ++sl.scen; sl.runs += ag.runs; sl.steps += ag.steps; sl.ops += ag.ops;
                if(ag.nontrivial) { ++sl.nontrivial; if(sl.ntr < (1 << 16)) sl.tr[sl.ntr++] = ag.trace_acc; }
                for(int k = 0; k < NCNT; ++k) { if(k == N_NODES_MAX || k == N_HANDLES_MAX || k == N_VARS_MAX || k == N_TABLE_BIG || k == N_WORK_RATIO || k == N_BIG_STEPS || k == N_DEEP_LEVELS || k == N_BROAD_NODES) sl.cnt[k] = std::max(sl.cnt[k], ag.cnt[k]); else sl.cnt[k] += ag.cnt[k]; }
                if(o.viol)
                {
                    std::string t = to_text(bad);
                    if(t.size() + 1 > sizeof sl.vtext) { sl.err = 1; snprintf(sl.errmsg, sizeof sl.errmsg, "scenario too long"); break; }
                    strcpy(sl.vtext, t.c_str()); snprintf(sl.cls, sizeof sl.cls, "%s", o.cls.c_str()); snprintf(sl.msg, sizeof sl.msg, "%s", o.msg.c_str());
                    sl.viol = 1; sl.viol_index = i; sl.vhash = o.hash;
                    u64 b = __atomic_load_n(best, __ATOMIC_SEQ_CST);
                    while(i < b && !__atomic_compare_exchange_n(best, &b, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
                    break;
                }
            }
            memcpy(sl.cov, shared->cov, sizeof sl.cov);
            _exit(0);
        }
        ps.push_back(p);
    }
    bool err = false; std::string errmsg;
    for(pid_t p : ps) { int st; waitpid(p, &st, 0); if(!WIFEXITED(st) || WEXITSTATUS(st)) { err = true; errmsg = "worker failed"; } }
    const double t1 = now();
    shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Slot tot{}; std::set<u64> traces; const Slot* v = nullptr; std::string ftext;
    for(int w = 0; w < workers; ++w)
    {
        Slot& s = slots[w];
        if(s.err) { err = true; errmsg = s.errmsg; }
        tot.runs += s.runs; tot.scen += s.scen; tot.steps += s.steps; tot.ops += s.ops; tot.foreign += s.foreign; tot.nontrivial += s.nontrivial; tot.dup_checked += s.dup_checked;
        for(int k = 0; k < NCNT; ++k) { if(k == N_NODES_MAX || k == N_HANDLES_MAX || k == N_VARS_MAX || k == N_TABLE_BIG || k == N_WORK_RATIO || k == N_BIG_STEPS || k == N_DEEP_LEVELS || k == N_BROAD_NODES) tot.cnt[k] = std::max(tot.cnt[k], s.cnt[k]); else tot.cnt[k] += s.cnt[k]; }
        for(size_t k = 0; k < sizeof tot.cov; ++k) tot.cov[k] |= s.cov[k];
        for(u64 k = 0; k < s.ntr; ++k) traces.insert(s.tr[k]);
        if(s.viol && (!v || s.viol_index < v->viol_index)) v = &s;
        if(s.ftext[0]) ftext = s.ftext;
    }
    u64 edges = 0; for(unsigned char c : tot.cov) edges += __builtin_popcount(c);
    std::string replay, mintext; Outcome vo; int used = 0; size_t before = 0, after = 0;
    if(v && !err)
    {
        Scenario s; if(!from_text(v->vtext, s)) fail("cannot read own scenario");
        before = s.ops.size();
        Outcome a = decide(s, nullptr, nullptr), b = decide(s, nullptr, nullptr);
        if(!a.viol || !b.viol || a.cls != v->cls || b.cls != a.cls || a.msg != b.msg || a.hash != b.hash) { err = true; errmsg = std::string("violation does not repeat: ") + v->msg + " / " + a.cls + " " + a.msg + " / " + b.cls + " " + b.msg; }
        else
        {
            Scenario m = raw ? s : minimise(s, a, thorough ? 4000 : 1200, used);
#ifdef SIM_THREADS
            if(!raw) m = minimise_schedule(m, a, 400, used);
#endif
            vo = decide(m, nullptr, nullptr);
            Outcome vo2 = decide(m, nullptr, nullptr);
            if(!vo.viol || vo2.hash != vo.hash || vo2.msg != vo.msg) { err = true; errmsg = "minimised violation does not repeat"; }
            after = m.ops.size();
            replay = outdir + "/" + prop + "-" + std::to_string(s.seed) + ".replay";
            std::ofstream f(replay);
            f << "" << to_text(m) << "# violation " << vo.cls << ": " << vo.msg << "\n# hash " << vo.hash << "\n# found at run " << v->viol_index << " with VERIF_SEED " << seed << "; " << before << " operations before minimising, " << after << " after\n";
        }
    }
    std::ostringstream o;
    o << "{\"prop\":\"" << prop << "\",\"error\":"; if(err) jstr(o, errmsg); else o << "null";
    o << ",\"scenarios\":" << tot.scen << ",\"runs\":" << tot.runs << ",\"foreign\":" << tot.foreign << ",\"foreign_sample\":"; jstr(o, ftext);
    o << ",\"nontrivial\":" << tot.nontrivial << ",\"distinct\":" << traces.size() << ",\"steps\":" << tot.steps << ",\"ops\":" << tot.ops << ",\"edges\":" << edges << ",\"dup_checked\":" << tot.dup_checked << ",\"secs\":" << (t1 - t0) << ",\"counters\":{";
    static const char* const nm[] = {"alloc_faults_fired", "alloc_fault_bursts", "alloc_faults_absorbed", "operations_repeated_after_fault", "stream_short_writes", "stream_exceptions", "custom_stream_exceptions", "client_deaths", "collections", "nodes_reclaimed", "collections_that_reclaimed_nothing", "refusals_collection", "accepted_within_limit", "constant_results", "audits", "max_nodes", "max_handles", "max_variables", "foreign_observations", "results_checked", "nodes_grown", "managers", "collections_objects", "reuse_after_gc", "refusals_manager", "equal_handle_pairs", "largest_table", "stored_diagrams_removed", "pool_growths", "pool_reuses", "skipped_ops", "expected_exceptions", "out_of_order_destructions", "operations_with_checked_work", "most_steps_per_unit_of_work", "nodes_refused_by_a_full_table", "most_steps_of_a_large_operation", "deep_operations", "most_levels", "broad_operations", "largest_broad_diagram", "repeated_lifetimes", "streams_with_formatting"};
    static_assert(sizeof nm / sizeof *nm == N_END - N_FAULT_FIRED, "names");
    bool first = true;
    for(int k = 0; k < K_COUNT; ++k) if(tot.cnt[k]) { o << (first ? "" : ",") << "\"op_" << kind_name[k] << "\":" << tot.cnt[k]; first = false; }
    for(int k = N_FAULT_FIRED; k < N_END; ++k) { o << (first ? "" : ",") << "\"" << nm[k - N_FAULT_FIRED] << "\":" << tot.cnt[k]; first = false; }
    if(tot.cnt[156]) o << ",\"scheduling_points\":" << tot.cnt[156] << ",\"static_data_accesses\":" << tot.cnt[157] << ",\"preemptions\":" << tot.cnt[158] << ",\"lock_waits\":" << tot.cnt[159];
    o << "},\"samples\":[";
    for(int i = 0; i < 2; ++i) { Scenario s = generate(prop, seed_of(seed, prop, i * 3 + 1), thorough, i * 3 + 1); if(s.ops.size() > 25) s.ops.resize(25); if(i) o << ","; jstr(o, to_text(s)); }
    o << "],\"violation\":";
    if(v && !err) { o << "{\"cls\":"; jstr(o, vo.cls); o << ",\"msg\":"; jstr(o, vo.msg); o << ",\"replay\":"; jstr(o, replay); o << ",\"index\":" << v->viol_index << ",\"minimise_runs\":" << used << ",\"ops_before\":" << before << ",\"ops_after\":" << after << "}"; }
    else o << "null";
    o << "}\n";
    fputs(o.str().c_str(), stdout);
    return err ? 2 : v ? 1 : 0;
}
} // namespace sim

int main(int argc, char** argv)
{
    using namespace sim;
    signal(SIGPIPE, SIG_IGN);
    std::string mode = argc > 1 ? argv[1] : "", prop = "C01", out = ".", file; u64 seed = 1, runs = 1000, index = 0; double t = 1e9; int workers = 8; bool thorough = false;
    for(int i = 2; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--prop") prop = val(); else if(a == "--seed") seed = strtoull(val().c_str(), nullptr, 10); else if(a == "--runs") runs = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--time") t = atof(val().c_str()); else if(a == "--workers") workers = atoi(val().c_str()); else if(a == "--thorough") thorough = true;
        else if(a == "--out") out = val(); else if(a == "--index") index = strtoull(val().c_str(), nullptr, 10); else if(a == "-v") verbose = true; else if(a == "--raw") raw = true; else file = a;
    }
    if(mode == "batch") return batch(prop, seed, runs, t, workers, thorough, out);
    shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(mode == "show") { Scenario s = generate(prop, seed_of(seed, prop, index), thorough, index); fputs(to_text(s).c_str(), stdout); return 0; }
    if(mode == "hashes")
    { // determinism log: one line per run
        for(u64 i = index; i < index + runs; ++i) { Scenario s = generate(prop, seed_of(seed, prop, i), thorough, i); Outcome o = decide(s, nullptr, nullptr); printf("%llu %d %s %016llx\n", (unsigned long long)i, o.viol, o.cls.c_str(), (unsigned long long)o.hash); }
        return 0;
    }
    if(mode == "replay")
    {
        std::ifstream f(file); std::stringstream b; b << f.rdbuf(); Scenario s;
        if(!from_text(b.str(), s)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
        Outcome o = decide(s, nullptr, nullptr);
        if(o.viol) printf("violation %s: %s\nhash %llu\n", o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash); else printf("no violation%s%s\n", o.foreign ? " (outside this property): " : "", o.foreign ? o.msg.c_str() : "");
        if(!o.viol && verbose) printf("hash %llu\n", (unsigned long long)o.hash);
        return o.viol ? 1 : 0;
    }
    fprintf(stderr, "usage: lbdd_sim batch|replay|show|hashes ...\n");
    return 2;
}
