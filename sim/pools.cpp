// C05: several clients reserving from and freeing into shared node and page pools.
#include "world.h"
#include <tuple>
#include <map>

namespace sim {
using namespace BDD;
namespace {
const Op* cur = nullptr;
[[noreturn]] void bad(const char* fmt, ...)
{
    char buf[400];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    HostScope h;
    die("POOL", "op %d (%s): %s", cur ? cur->id : -1, cur ? kind_name[cur->kind] : "end", buf);
}
// all reserved storage of all pools: start -> end
std::map<u64, u64> held;
void claim(u64 p, u64 n, const char* what)
{
    auto it = held.upper_bound(p);
    if(it != held.end() && it->first < p + n) bad("%s overlaps storage that is reserved", what);
    if(it != held.begin()) { --it; if(it->second > p) bad("%s overlaps storage that is reserved", what); }
    held[p] = p + n;
    u64 lo, hi; arena_owner_range(tctx->tid, lo, hi);
    if(p < lo || p + n > hi) bad("%s is not memory of the pool", what);
}
// runs f with the operation's fault plan; true if it completed, false if it ended with bad_alloc
template<class F> bool guarded(F&& f, u64& allocs, bool use_fault)
{
    Ctx* c = tctx;
    c->fail_from = use_fault ? cur->from : ~0ull; c->fail_to = use_fault ? cur->from + cur->len : 0;
    c->fails_fired = 0; c->op_allocs = 0; c->armed = true;
    bool ok = true; std::string other;
    try { SutScope s; f(); }
    catch(const std::bad_alloc&) { ok = false; }
    catch(const std::exception& e) { other = e.what(); }
    c->armed = false; allocs = c->op_allocs;
    if(c->fails_fired) { cnt(N_FAULT_FIRED); if(c->fails_fired > 1) cnt(N_FAULT_BURST); }
    if(!other.empty()) die("EXC", "op %d (%s): exception: %s", cur->id, kind_name[cur->kind], other.c_str());
    if(!ok && !c->fails_fired) die("EXC", "op %d (%s): std::bad_alloc although no allocation failed", cur->id, kind_name[cur->kind]);
    return ok;
}

struct PagePool {
    virtual ~PagePool() {}
    virtual void reserve(u32 n, Rng& r) = 0;
    virtual void free_some(u32 n, Rng& r) = 0;
    virtual void check(Rng& r) = 0;
};
template<class CACHE, size_t N> struct PagePoolT : PagePool {
    CACHE* c; bool own;
    using Page = unique_table_page<N>;
    struct H { Page* p; u64 tag; };
    std::vector<H> out; size_t cap = 0; u64 tags = 1;
    PagePoolT(CACHE* cc, bool o) : c(cc), own(o)
    {
        if(c->nr_pages() != 0) bad("new page pool reports %zu pages", c->nr_pages());
    }
    ~PagePoolT() override
    {
        for(auto& h : out) held.erase((u64)h.p);
        if(own) { SutScope s; delete c; }
    }
    static u64 tag_at(u64 tag, size_t i) { return mix2(tag, i) | 1; }
    void write(const H& h)
    {
        for(size_t i = 0; i < N; i = next(i)) h.p->data[i] = (node*)tag_at(h.tag, i);
    }
    static size_t next(size_t i) { return N <= 512 || i < 64 || i + 64 >= N ? i + 1 : std::min<size_t>(N - 64, i + 257); }
    void verify(const H& h)
    {
        for(size_t i = 0; i < N; i = next(i)) if((u64)h.p->data[i] != tag_at(h.tag, i)) bad("slot %zu of a reserved page of %zu slots was overwritten", i, N);
    }
    void counts()
    {
        const size_t n = c->nr_pages();
        if(n < out.size()) bad("nr_pages() is %zu with %zu pages reserved", n, out.size());
        if(n != cap) bad("nr_pages() changed from %zu to %zu without need", cap, n);
    }
    void reserve(u32 n, Rng&) override
    {
        bool fault = cur->fault;
        while(n--)
        {
            const bool full = out.size() == cap; u64 allocs = 0; Page* p = nullptr;
            if(out.size() >= 400 || (u64)(out.size() + 1) * N > (3u << 20)) break;
            if(!guarded([&] { p = c->reserve_page(); }, allocs, fault))
            {
                fault = false;
                if(c->nr_pages() != cap) bad("a failed reserve changed nr_pages() from %zu to %zu", cap, c->nr_pages());
                for(auto& h : out) verify(h);
                if(!guarded([&] { p = c->reserve_page(); }, allocs, false)) bad("reserve fails although memory is available");
                cnt(N_RETRY_OK);
            }
            if(!p) bad("reserve_page() returned nothing");
            if(!full && allocs) bad("a page pool with %zu free pages allocated new storage", cap - out.size());
            if(!full) cnt(N_POOL_REUSE);
            const size_t now = c->nr_pages();
            if(full) { if(now <= cap || now != cap + CACHE::nr_pages_simultaneous_allocation) bad("nr_pages() is %zu after growing from %zu by %zu", now, cap, (size_t)CACHE::nr_pages_simultaneous_allocation); cap = now; cnt(N_PAGES); }
            claim((u64)p, sizeof(Page), "a reserved page");
            for(size_t i = 0; i < N; i++) if(p->data[i] != nullptr) bad("slot %zu of a freshly reserved page of %zu slots is not empty", i, N);
            H h{p, mix(tags++)}; write(h); out.push_back(h);
            counts();
        }
    }
    void free_some(u32 n, Rng& r) override
    {
        while(n-- && !out.empty())
        {
            const size_t i = r.below(out.size()); H h = out[i];
            verify(h); out.erase(out.begin() + i); held.erase((u64)h.p);
            { SutScope s; c->free_page(h.p); }
            counts();
        }
    }
    void check(Rng&) override { for(auto& h : out) verify(h); counts(); }
};

struct NodePool {
    bdd_node_cache* c = nullptr;
    struct H { node *p, *lo, *hi; u64 var, key; int refs; };
    std::vector<H> out; std::unordered_map<node*, size_t> pos; u64 vars = 0; size_t cap = bdd_node_page_size; int sink[2] = {1, 1};
    NodePool() { SutScope s; c = new bdd_node_cache(nullptr); HostScope h; if(c->nr_nodes() != 2) bad("new node pool reports %zu nodes", c->nr_nodes()); held[(u64)c->botsink()] = (u64)(c->botsink() + 1); held[(u64)c->topsink()] = (u64)(c->topsink() + 1); }
    ~NodePool()
    {
        for(auto& h : out) held.erase((u64)h.p);
        held.erase((u64)c->botsink()); held.erase((u64)c->topsink());
        SutScope s; delete c;
    }
    void verify(const H& h)
    {
        if(h.p->lo != h.lo || h.p->hi != h.hi || h.p->index != h.var || h.p->hash_key != h.key || h.p->marked_) bad("a reserved node was overwritten");
        if(h.p->xref != h.refs) bad("a reserved node has reference count %d instead of %d", h.p->xref, h.refs);
    }
    void counts()
    {
        if(c->nr_nodes() != out.size() + 2) bad("nr_nodes() is %zu with %zu nodes reserved", c->nr_nodes(), out.size());
        if(!c->botsink()->is_botsink() || !c->topsink()->is_topsink() || c->botsink()->xref != sink[0] || c->topsink()->xref != sink[1]) bad("a sink node was overwritten");
    }
    int& refs(node* p) { if(p == c->botsink()) return sink[0]; if(p == c->topsink()) return sink[1]; return out[pos[p]].refs; }
    void reserve(u32 n, Rng& r)
    {
        bool fault = cur->fault;
        while(n--)
        {
            if(out.size() >= 30000) break;
            const bool full = out.size() + 2 == cap; u64 allocs = 0; node* p = nullptr;
            if(!guarded([&] { p = c->reserve_node(); }, allocs, fault))
            {
                fault = false; counts(); for(auto& h : out) verify(h);
                if(!guarded([&] { p = c->reserve_node(); }, allocs, false)) bad("reserve fails although memory is available");
                cnt(N_RETRY_OK);
            }
            if(!p) bad("reserve_node() returned nothing");
            if(!full && allocs) bad("a node pool with %zu free nodes allocated new storage", cap - out.size() - 2);
            if(full) { cap += bdd_node_page_size; cnt(N_PAGES); } else cnt(N_POOL_REUSE);
            claim((u64)p, sizeof(node), "a reserved node");
            H h; h.p = p; h.var = vars++;
            h.lo = !out.empty() && r.chance(1, 4) ? out[r.below(out.size())].p : c->botsink();
            h.hi = !out.empty() && r.chance(1, 4) ? out[r.below(out.size())].p : c->topsink();
            if(h.lo == h.hi) h.hi = c->topsink();
            { SutScope s; p->init_new_node(h.var, h.lo, h.hi); }
            h.key = p->hash_key; h.refs = 0;
            refs(h.lo)++; refs(h.hi)++;
            pos[p] = out.size(); out.push_back(h);
            counts();
        }
    }
    void free_some(u32 n, Rng& r)
    {
        for(u32 tries = 3 * n + 10; n && tries && !out.empty(); --tries)
        {
            const size_t i = r.below(out.size());
            if(out[i].refs) continue;
            --n; H h = out[i]; verify(h);
            refs(h.lo)--; refs(h.hi)--;
            pos.erase(h.p); if(i + 1 != out.size()) { out[i] = out.back(); pos[out[i].p] = i; } out.pop_back();
            held.erase((u64)h.p);
            { SutScope s; c->free_node(h.p); }
            counts();
        }
    }
    void check() { for(auto& h : out) verify(h); counts(); }
};

template<size_t N, size_t K> PagePool* small_pool()
{
    unique_table_page_cache<N, K>* c;
    { SutScope s; c = new unique_table_page_cache<N, K>(); }
    return new PagePoolT<unique_table_page_cache<N, K>, N>(c, true);
}
template<size_t N, size_t K> PagePool* big_pool(unique_table_page_cache<N, K>& c) { return new PagePoolT<unique_table_page_cache<N, K>, N>(&c, false); }
} // namespace

void run_pools(const Scenario& s)
{
    tt_setup(1); held.clear();
    std::vector<PagePool*> pp(20, nullptr); NodePool* np[2] = {nullptr, nullptr};
    unique_table_page_caches* all = nullptr;
    auto make = [&](int i) {
        switch(i)
        {
        case 0: pp[i] = small_pool<64, 4>(); break;
        case 1: pp[i] = small_pool<64, 1>(); break;
        case 2: pp[i] = small_pool<128, 3>(); break;
        case 3: pp[i] = small_pool<256, 2>(); break;
        case 4: pp[i] = small_pool<1024, 5>(); break;
        }
        if(i < 5) return;
        if(!all) { SutScope sc; all = new unique_table_page_caches(); }
        switch(i)
        {
        case 5: pp[i] = big_pool(all->cache_64); break;
        case 6: pp[i] = big_pool(all->cache_128); break;
        case 7: pp[i] = big_pool(all->cache_256); break;
        case 8: pp[i] = big_pool(all->cache_512); break;
        case 9: pp[i] = big_pool(all->cache_1024); break;
        case 10: pp[i] = big_pool(all->cache_2048); break;
        case 11: pp[i] = big_pool(all->cache_4096); break;
        case 12: pp[i] = big_pool(all->cache_8192); break;
        case 13: pp[i] = big_pool(all->cache_16384); break;
        case 14: pp[i] = big_pool(all->cache_32768); break;
        case 15: pp[i] = big_pool(all->cache_65536); break;
        case 16: pp[i] = big_pool(all->cache_131072); break;
        case 17: pp[i] = big_pool(all->cache_262144); break;
        case 18: pp[i] = big_pool(all->cache_524288); break;
        case 19: pp[i] = big_pool(all->cache_1048576); break;
        }
    };
    const u64 focus = mix2(s.seed, 99);
    for(const Op& o : s.ops)
    {
        cur = &o; tctx->cur_op = o.id; tctx->op_steps = 0; cnt(N_OPS + o.kind); shared->nops++;
        Rng r(mix2(o.a[5], o.a[4]));
        // a run concentrates on a few pools
        const int pi = (int)(mix2(focus, o.a[0] % 4) % (o.a[0] % 4 == 3 ? 20 : 9)), ni = o.a[0] & 1;
        if(o.kind == K_PGRES || o.kind == K_PGFREE) { if(!pp[pi]) make(pi); }
        if((o.kind == K_PNRES || o.kind == K_PNFREE) && !np[ni]) np[ni] = new NodePool();
        switch(o.kind)
        {
        case K_PGRES: pp[pi]->reserve(1 + (o.a[1] % 4 ? o.a[1] % 3 : o.a[2] % 40), r); break;
        case K_PGFREE: pp[pi]->free_some(1 + (o.a[1] % 4 ? o.a[1] % 3 : o.a[2] % 40), r); break;
        case K_PNRES: np[ni]->reserve(1 + (o.a[1] % 3 ? o.a[1] % 20 : o.a[2] % 3000), r); break;
        case K_PNFREE: np[ni]->free_some(1 + (o.a[1] % 3 ? o.a[1] % 20 : o.a[2] % 3000), r); break;
        case K_PNEW: if(pi < 5 && pp[pi]) { delete pp[pi]; pp[pi] = nullptr; } else if(np[ni] && o.a[1] % 4 == 0) { delete np[ni]; np[ni] = nullptr; } break;
        default: break;
        }
        if(o.a[3] % 5 == 0) { for(auto p : pp) if(p) p->check(r); for(auto p : np) if(p) p->check(); }
        u64 h = 0; for(auto p : np) if(p) h = mix2(h, p->c->nr_nodes());
        shared->log_hash = mix2(shared->log_hash, mix2(h, held.size()));
    }
    cur = nullptr; tctx->cur_op = -1;
    Rng r(1);
    for(auto p : pp) if(p) p->check(r);
    for(auto p : np) if(p) p->check();
    for(auto p : pp) delete p;
    for(auto p : np) delete p;
    { SutScope sc; delete all; }
    if(arena_live_blocks(tctx->arena)) bad("%llu blocks never released after the pools were destroyed", (unsigned long long)arena_live_blocks(tctx->arena));
    shared->steps = tctx->steps; shared->trace_hash = tctx->trace_hash; shared->status = ST_OK;
}
} // namespace sim
