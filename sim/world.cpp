#include <sstream>
#include <locale>
#include "world.h"
#include <functional>
#include "world_impl.h"
#include <cstdio>
#include <deque>
#include <set>
#include <list>
#include <stdexcept>

namespace sim {
int NV = 0, NW = 1;

std::string ttstr(const TT& f)
{
    std::string s; char b[20];
    if(WIDE) { snprintf(b, sizeof b, "#%llx", (unsigned long long)(tt_hash(f) & 0xffffffff)); return b; }
    for(int i = NW - 1; i >= 0; --i) { snprintf(b, sizeof b, NV < 6 ? "%llx" : "%016llx", (unsigned long long)f.w[i]); s += b; }
    if(s.size() > 40) { snprintf(b, sizeof b, "#%llx", (unsigned long long)(tt_hash(f) & 0xffffffff)); return b; }
    return s;
}

bool World::bad(u32 c, const char* fmt, ...)
{
    static const char* const names[] = {"SEM", "CANON", "STABLE", "GC", "TRAV", "TRACE", "CARD", "LIMIT", "REBASE", "COLL", "CAND", "XFER", "EXC", "GROW", "LEAK", "PRINT", "VIEW", "BUILD", "POOL", "WORK", "DEPTH", "DEEP"};
    if(!(c & cls) && c != C_EXC) { cnt(N_FOREIGN); return false; }
    char buf[500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    HostScope hs;
    die(names[__builtin_ctz(c & cls ? c & cls : c)], "op %d (%s): %s", op ? op->id : -1, op ? kind_name[op->kind] : "end", buf);
}

void World::log(u64 h)
{
    shared->log_hash = mix2(shared->log_hash, h);
    if(op && op->id < MAXOPS) { shared->obs[op->id] = mix2(shared->obs[op->id], h); }
}

// ---------------------------------------------------------------- reading diagrams back
Walk::Walk(bdd_mgr* mg) : m(mg)
{
    node_ref b = m->botsink(), t = m->topsink();
    n.push_back({b.address(), 0, -1, 0, 0, 11, 0, 0, 0, false}); id[b.address()] = 0;
    n.push_back({t.address(), 0, -1, 1, 1, 13, 0, 0, 0, false}); id[t.address()] = 1;
    f.push_back(tt_const(false)); f.push_back(tt_const(true)); hasf = {1, 1};
}
extern thread_local std::vector<u32>* g_act;
thread_local std::vector<u32>* g_act = nullptr;
int Walk::visit(const node_ref& rc, int depth)
{
    node_ref& r = const_cast<node_ref&>(rc); // low()/high() are not const; no copy, so that reference counts stay readable
    if(r.address() == nullptr) { if(canon.empty()) canon = "null node inside a diagram"; return 0; }
    auto it = id.find(r.address());
    if(it != id.end()) { if(it->second < 0) die("STRUCT", "diagram contains a cycle"); return it->second; }
    if(depth > 4000) die("STRUCT", "diagram deeper than the number of variables");
    if(r.is_terminal()) { if(canon.empty()) canon = "terminal node that is not a sink of this manager"; id[r.address()] = r.is_topsink() ? 1 : 0; return r.is_topsink() ? 1 : 0; }
    id[r.address()] = -1;
    NI x; x.addr = r.address(); x.var = (u32)r.variable(); x.parents = x.handles = 0;
    x.ai = -1;
    for(size_t i = 0; i < g_act->size(); ++i) if((*g_act)[i] == x.var) x.ai = (int)i;
    x.xref = (u32)r.reference_count() - (depth > 0); // below the root, the walk itself holds one reference
    x.marked = r.marked();
    if(canon.empty())
    {
        node_ref lo = r.low(), hi = r.high();
        if(lo == hi) canon = "node with equal children";
        if(lo.address() && !lo.is_terminal() && lo.variable() <= x.var) canon = "variable order broken (" + std::to_string(x.var) + " above " + std::to_string(lo.variable()) + ")";
        if(hi.address() && !hi.is_terminal() && hi.variable() <= x.var) canon = "variable order broken (" + std::to_string(x.var) + " above " + std::to_string(hi.variable()) + ")";
    }
    { node_ref lo = r.low(); x.lo = visit(lo, depth + 1); }
    { node_ref hi = r.high(); x.hi = visit(hi, depth + 1); }
    x.fp = mix2(mix2((u64)x.addr, x.var), mix2(n[x.lo].fp, n[x.hi].fp + 1));
    n[x.lo].parents++; n[x.hi].parents++;
    const int i = (int)n.size();
    n.push_back(x); hasf.push_back(0);
    id[r.address()] = i;
    return i;
}
const TT& Walk::fn(int i)
{
    if(f.size() < n.size()) f.resize(n.size());
    if(!hasf[i])
    {
        // children have smaller ids
        std::vector<int> st{i};
        while(!st.empty())
        {
            int k = st.back(); const NI& x = n[k];
            if(hasf[k]) { st.pop_back(); continue; }
            if(!hasf[x.lo]) { st.push_back(x.lo); continue; }
            if(!hasf[x.hi]) { st.push_back(x.hi); continue; }
            if(x.ai < 0) { if(canon.empty()) canon = "node tests variable " + std::to_string(x.var) + ", which no operand has"; f[k] = tt_const(false); }
            else f[k] = tt_ite(tt_var(x.ai), f[x.hi], f[x.lo]);
            hasf[k] = 1; st.pop_back();
        }
    }
    return f[i];
}
u64 Walk::norm(int root)
{
    std::unordered_map<int, int> num; u64 h = 7; int c = 2;
    num[0] = 0; num[1] = 1;
    std::function<int(int)> rec = [&](int i) -> int {
        auto it = num.find(i); if(it != num.end()) return it->second;
        int l = rec(n[i].lo), g = rec(n[i].hi);
        h = mix2(h, mix2(n[i].var, ((u64)l << 32) | (u32)g));
        return num[i] = c++;
    };
    int r = rec(root);
    return mix2(h, r);
}
u32 Walk::count(int root)
{
    std::vector<char> seen(n.size(), 0); std::vector<int> st{root}; u32 c = 0;
    while(!st.empty()) { int i = st.back(); st.pop_back(); if(i < 2 || seen[i]) continue; seen[i] = 1; ++c; st.push_back(n[i].lo); st.push_back(n[i].hi); }
    return c;
}

// ---------------------------------------------------------------- selection
int World::mi(u32 a)
{
    std::vector<int> l; for(size_t i = 0; i < mgrs.size(); ++i) if(mgrs[i].m) l.push_back((int)i);
    if(l.empty()) { new_mgr(); return (int)mgrs.size() - 1; }
    return l[a % l.size()];
}
int World::ci(u32 a)
{
    std::vector<int> l; for(size_t i = 0; i < cols.size(); ++i) if(cols[i].c) l.push_back((int)i);
    if(l.empty()) { new_col(); return (int)cols.size() - 1; }
    return l[a % l.size()];
}
Handle* World::hi(u32 a, int m)
{
    std::vector<Handle*> l; for(auto& h : hs) if(h->h.address() && (m < 0 || h->m == m)) l.push_back(h.get());
    return l.empty() ? nullptr : l[a % l.size()];
}
void World::new_mgr()
{
    Mgr x;
    bdd_mgr* p = nullptr;
    if(!sut_retry([&] { p = new bdd_mgr(); }, [&] { audit_all(); })) return;
    x.m = p;
    if(p->nr_nodes() != 2) bad(C_GC, "new manager reports %zu nodes", p->nr_nodes());
    if(p->nr_variables() != 0) bad(C_GROW, "new manager reports %zu variables", p->nr_variables());
    { node_ref b = p->botsink(), t = p->topsink(); x.sink0[0] = b.reference_count() - 1; x.sink0[1] = t.reference_count() - 1; }
    mgrs.push_back(std::move(x)); cnt(N_MGRS);
}
void World::new_col()
{
    bdd_collection* p = nullptr;
    if(!sut_retry([&] { p = new bdd_collection(); }, [&] { audit_all(); })) return;
    Col x; x.c = p;
    if(p->nr_bdds() != 0 || p->size() != 0) bad(C_COLL, "new collection reports %zu diagrams", p->nr_bdds());
    cols.push_back(std::move(x)); cnt(N_COLS);
}
void World::ensure_var(int m, u32 idx)
{
    Mgr& g = mgrs[m];
    while(g.m->nr_variables() <= idx)
    {
        size_t r; const size_t before = g.m->nr_variables();
        if(!sut_retry([&] { r = g.m->add_variable(); }, [&] { audit_all(); })) return;
        if(r != before || g.m->nr_variables() != before + 1) { bad(C_GROW, "add_variable returned %zu, expected %zu", r, before); if(g.m->nr_variables() <= before) return; }
        g.nv = g.m->nr_variables();
    }
    g.nv = g.m->nr_variables();
}
node_ref World::leaf(int m, u32 k, TT& f)
{
    Mgr& g = mgrs[m];
    k %= 2 * NV + 2;
    if(k == 0) { f = tt_const(false); return g.m->botsink(); }
    if(k == 1) { f = tt_const(true); return g.m->topsink(); }
    const int v = (k - 2) / 2;
    node_ref r;
    if(k & 1)
    {
        ensure_var(m, act[v]);
        sut_retry([&] { r = g.m->neg_projection(act[v]); }, [&] { audit_all(); });
        f = tt_not(tt_var(v));
    }
    else
    {
        const size_t expect = std::max<size_t>(g.m->nr_variables(), act[v] + 1);
        // a projection that fails may leave some of the variables it needed behind
        sut_retry([&] { r = g.m->projection(act[v]); }, [&] { if(g.m->nr_variables() <= expect) g.nv = std::max(g.nv, g.m->nr_variables()); audit_all(); });
        if(g.m->nr_variables() != expect) bad(C_GROW, "projection(%u) left %zu variables, expected %zu", act[v], g.m->nr_variables(), expect);
        g.nv = g.m->nr_variables();
        f = tt_var(v);
    }
    node_ref lo = r.low(), hi = r.high();
    const bool neg = k & 1;
    if(r.is_terminal() || r.variable() != act[v] || !(neg ? lo.is_topsink() && hi.is_botsink() : lo.is_botsink() && hi.is_topsink()))
        bad(C_SEM, "%sprojection(%u) has the wrong structure", neg ? "negated " : "", act[v]);
    return r;
}
Opd World::pick(int m, u32 s)
{
    const u32 w = s / 5;
    if(s % 5)
    {
        Mgr& g = mgrs[m];
        if(!g.wides.empty() && w % 4 == 0)
        {
            Wide& x = *g.wides[(w / 4) % g.wides.size()];
            if(!x.made.empty())
            {
                const size_t i = (w / 16) % x.made.size();
                return {x.made[i], tt_ite(tt_var(x.v), x.basef[x.pr[i].second], x.basef[x.pr[i].first])};
            }
        }
        if(Handle* h = hi(w, m)) return {h->h, h->f};
    }
    Opd o; o.h = leaf(m, w, o.f); return o;
}
// Bounded progress: the steps of an operation are compared with the nodes (or tuples of nodes) it has to look at. The factor
// is several times what is ever seen, the constant covers table growth, which the work done so far pays for.
void World::work(const char* what, u64 units, u64 per)
{
#ifndef SIM_THREADS
    if(!WIDE || sc.env.hash_mode) return;
    cnt(N_WORK_CHECKED);
    cntmax(N_WORK_RATIO, last_steps / (units + 500));
    if(last_steps > (per ? per : 2000) * (units + 500) + (per ? 0 : tctx->steps - last_steps))
        bad(C_WORK, "%s took %llu steps, with only %llu nodes (or tuples of nodes) to look at", what, (unsigned long long)last_steps, (unsigned long long)units);
#else
    (void)what; (void)units; (void)per;
#endif
}
void World::work_tuples(const char* what, std::initializer_list<TT> f)
{
    if(!WIDE) return;
    std::vector<u32> t; for(auto& x : f) t.push_back(tt_node(x));
    const u32 n = rb::tuples(t, 30000, false);
    if(n < 30000) work(what, n);
}
std::vector<char> World::assignment(u32 i, u64 salt, size_t extra)
{
    std::vector<char> a(act.back() + 1 + extra);
    for(size_t k = 0; k < a.size(); ++k) a[k] = mix2(salt, k) & 1;
    for(int v = 0; v < NV; ++v) a[act[v]] = abit(i, v);
    return a;
}

// ---------------------------------------------------------------- checks
void World::check_fn(u32 c, int m, node_ref r, const TT& f, const char* what)
{
    if(r.address() == nullptr) { bad(c, "%s returned no diagram", what); return; }
    Walk w(mgrs[m].m);
    const int i = w.visit(r);
    const TT got = w.fn(i);
    if(!w.canon.empty()) bad(C_CANON, "%s: %s", what, w.canon.c_str());
    if(got != f) bad(c, "%s denotes %s instead of %s", what, ttstr(got).c_str(), ttstr(f).c_str());
    for(int k = 0; k < 2; ++k)
    {
        const u32 a = (u32)(mix2(op ? op->id : 0, k) % nassign());
        auto as = assignment(a, k, k * 3);
        bool v; { SutScope s; v = r.evaluate(as.begin(), as.end()); }
        if(v != got.get(a)) bad(C_TRAV, "evaluate(%u) gives %d, the diagram says %d", a, v, got.get(a));
    }
    u64 nrm = w.norm(i);
    log(nrm);
    for(auto& h : hs)
        if(h->m == m && h->h.address())
        {
            if((h->h == r) == (h->h != r)) bad(C_CANON, "%s: == and != of handles agree", what);
            if(h->h == r && std::hash<node_ref>{}(h->h) != std::hash<node_ref>{}(r)) bad(C_CANON, "%s: equal handles have different hash values", what);
            if((h->f == got) != (h->h == r)) bad(C_CANON, "%s: %s", what, h->f == got ? "same function as a live handle, but another node" : "same node as a live handle of another function");
            if(h->h == r) cnt(N_EQ_PAIRS);
        }
}
void World::result(u32 c, int m, node_ref r, TT f, const char* what)
{
    cnt(N_RESULTS);
    check_fn(c, m, r, f, what);
    if(r.address() == nullptr) return;
    if(r.is_terminal()) cnt(N_CONST_RESULT);
    Walk w(mgrs[m].m);
    const int i = w.visit(r);
    f = w.fn(i);
    auto h = std::make_unique<Handle>();
    h->m = m; h->h = r; h->f = f; h->fp = w.n[i].fp; h->size = w.count(i); h->owner = op ? op->cl : 0;
    if(hs.size() >= 48) hs.erase(hs.begin() + (op ? op->id % hs.size() : 0));
    hs.push_back(std::move(h));
    cntmax(N_HANDLES_MAX, hs.size());
}
void World::audit(int m, bool after_gc)
{
    Mgr& g = mgrs[m];
    if(!g.m) return;
    cnt(N_AUDITS);
    Walk w(g.m);
    size_t nh = 0;
    for(auto& h : hs)
        if(h->m == m && h->h.address())
        {
            ++nh;
            const int i = w.visit(h->h);
            w.n[i].handles++;
            const TT& f = w.fn(i);
            if(f != h->f) { bad(C_STABLE, "a held handle changed its function from %s to %s", ttstr(h->f).c_str(), ttstr(f).c_str()); h->f = f; }
            if(w.n[i].fp != h->fp) { bad(C_STABLE, "a held handle's diagram changed its structure"); h->fp = w.n[i].fp; }
        }
    for(auto& x : g.wides)
    {
        std::vector<int> b;
        for(auto& r : x->base) { int i = w.visit(r); w.n[i].handles++; b.push_back(i); if(w.fn(i) != x->basef[b.size() - 1]) bad(C_STABLE, "a held handle changed its function"); }
        for(size_t k = 0; k < x->made.size(); ++k)
        {
            const int i = w.visit(x->made[k]); w.n[i].handles++;
            if(i < 2 || w.n[i].ai != x->v || w.n[i].lo != b[x->pr[k].first] || w.n[i].hi != b[x->pr[k].second]) { bad(C_STABLE, "a held handle's diagram changed its structure"); break; }
        }
    }
    if(!w.canon.empty()) bad(C_CANON, "%s", w.canon.c_str());
    // no two nodes with the same variable and children
    {
        std::unordered_map<u64, int> trip;
        for(size_t i = 2; i < w.n.size(); ++i)
        {
            const u64 k = mix2(mix2(w.n[i].var, w.n[i].lo), w.n[i].hi + 77);
            if(!trip.insert({k, (int)i}).second) { bad(C_CANON, "two distinct nodes with the same variable and children"); break; }
            if(w.n[i].marked) { bad(C_TRACE, "a node is left marked"); break; }
        }
    }
    const size_t nn = g.m->nr_nodes();
    if(nn < w.n.size()) bad(C_GC, "nr_nodes() is %zu but %zu nodes are reachable", nn, w.n.size());
    cntmax(N_NODES_MAX, nn); cntmax(N_VARS_MAX, g.m->nr_variables());
    if(g.m->nr_variables() != g.nv) { bad(C_GROW, "nr_variables() is %zu, expected %zu", g.m->nr_variables(), g.nv); g.nv = g.m->nr_variables(); }
    if(after_gc)
    {
        if(nn != w.n.size()) bad(C_GC, "after collection nr_nodes() is %zu, reachable nodes and sinks are %zu", nn, w.n.size());
        for(size_t i = 2; i < w.n.size(); ++i)
            if(w.n[i].xref != w.n[i].handles + w.n[i].parents)
            { bad(C_GC, "after collection a node has reference count %u, but %u handles and %u parents", w.n[i].xref, w.n[i].handles, w.n[i].parents); break; }
        for(int i = 0; i < 2; ++i)
        {
            node_ref k = i ? g.m->topsink() : g.m->botsink(); const size_t c = k.reference_count() - 1 - g.sink0[i];
            if(c != w.n[i].handles + w.n[i].parents) bad(C_GC, "after collection the %s has %zu references more than when it was new, but %u handles and %u parents", i ? "topsink" : "botsink", c, w.n[i].handles, w.n[i].parents);
        }
    }
}
void World::audit_all()
{
    for(size_t i = 0; i < mgrs.size(); ++i) audit((int)i, false);
    for(size_t i = 0; i < cols.size(); ++i) audit_col((int)i);
}
void World::gc(int m)
{
    Mgr& g = mgrs[m];
    const size_t before = g.m->nr_nodes();
    if(!sut_retry([&] { collect(*g.m); }, [&] { audit_all(); })) return;
    const size_t after = g.m->nr_nodes();
    cnt(N_GC); cnt(N_GC_RECLAIMED, before > after ? before - after : 0); if(before == after) cnt(N_GC_NOOP);
    audit(m, true);
    log(g.m->nr_nodes());
}
void World::drop(Handle* h)
{
    for(size_t i = 0; i < hs.size(); ++i) if(hs[i].get() == h) { hs.erase(hs.begin() + i); return; }
}
void World::del_mgr(int m)
{
    for(size_t i = hs.size(); i-- > 0;) if(hs[i]->m == m) hs.erase(hs.begin() + i);
    mgrs[m].wides.clear();
    { SutScope s; delete mgrs[m].m; }
    mgrs[m].m = nullptr;
}

// ---------------------------------------------------------------- manager operations
node_ref World::build(int m, const TT& f, int form, std::unordered_map<TT, node_ref, TTHash>& memo)
{
    Mgr& g = mgrs[m];
    const int v = tt_top(f);
    if(v == NV) return tt_is(f, true) ? g.m->topsink() : g.m->botsink();
    auto it = memo.find(f);
    if(it != memo.end()) return it->second;
    node_ref lo = build(m, tt_cof(f, v, false), form, memo), hi = build(m, tt_cof(f, v, true), form, memo);
    ensure_var(m, act[v]);
    node_ref r;
    sut_retry([&] {
        if(form == 1) r = g.m->ite_rec(g.m->projection(act[v]), hi, lo);
        else if(form == 2) r = g.m->or_rec(g.m->and_rec(g.m->projection(act[v]), hi), g.m->and_rec(g.m->neg_projection(act[v]), lo));
        else r = g.m->unique_find(act[v], lo, hi);
    }, [&] { audit_all(); });
    memo.emplace(f, r);
    return r;
}

void World::mgr_ops(const Op& o)
{
    const int m = mi(o.a[0]);
    Mgr& g = mgrs[m];
    bool toobig = false; // with many variables, operations that would get very large are left out
    auto model = [&](auto&& fn) -> TT { return budget(fn, toobig); };
    auto between = [&] { audit_all(); if(o.a[5] & 1) { SutScope s; collect(*g.m); } };
    switch(o.kind)
    {
    case K_LEAF: { TT f; node_ref r = leaf(m, o.a[1], f); result(C_SEM, m, r, f, "leaf"); break; }
    case K_BIN: {
        Opd a = pick(m, o.a[2]), b = pick(m, o.a[3]);
        const int k = o.a[1] % 3, form = o.a[4] % 3;
        const TT f = model([&] { return k == 0 ? tt_and(a.f, b.f) : k == 1 ? tt_or(a.f, b.f) : tt_xor(a.f, b.f); });
        if(toobig) break;
        node_ref r;
        if(!sut_retry([&] {
            node_ref& x = form == 2 ? b.h : a.h; node_ref& y = form == 2 ? a.h : b.h;
            if(k == 0) r = form == 1 ? x & y : g.m->and_rec(x, y);
            else if(k == 1) r = form == 1 ? x || y : g.m->or_rec(x, y);
            else r = form == 1 ? x ^ y : g.m->xor_rec(x, y);
        }, between)) break;
        work_tuples("a binary operation", {a.f, b.f});
        result(C_SEM, m, r, f, k == 0 ? "and" : k == 1 ? "or" : "xor");
        break;
    }
    case K_NOT: {
        Opd a = pick(m, o.a[2]); node_ref r;
        if(!sut_retry([&] { r = o.a[4] & 1 ? !a.h : g.m->negate(a.h); }, between)) break;
        work_tuples("negation", {a.f});
        result(C_SEM, m, r, tt_not(a.f), "not");
        break;
    }
    case K_ITE: {
        Opd a = pick(m, o.a[1]), b = pick(m, o.a[2]), c = pick(m, o.a[3]); node_ref r;
        const TT f = model([&] { return tt_ite(a.f, b.f, c.f); });
        if(toobig) break;
        if(!sut_retry([&] { r = g.m->ite_rec(a.h, b.h, c.h); }, between)) break;
        work_tuples("if-then-else", {a.f, b.f, c.f});
        result(C_SEM, m, r, f, "ite");
        break;
    }
    case K_NARY: {
        const int k = o.a[1] % 3, form = o.a[2] % 6;
        Rng r2(o.a[4]);
        const bool lone = form >= 3 && o.a[5] % 3 == 0; // a long range: one operand at a single place, another everywhere else
        const size_t n = form < 3 ? 3 + form : lone ? (o.a[5] / 3 % 9 ? 2 + o.a[3] % 70 : o.a[5] / 27 % 40 ? 72 + o.a[3] % 1100 : 65500 + o.a[3] % 100) : 2 + o.a[3] % 9, at = lone ? r2.below(n) : 0;
        std::vector<node_ref> v; TT f = tt_const(k == 0);
        const Opd x1 = pick(m, (u32)r2.next()), x2 = pick(m, (u32)r2.next());
        for(size_t i = 0; i < n; ++i)
        {
            Opd a = lone ? (i == at ? x2 : x1) : pick(m, (u32)r2.next()); v.push_back(a.h);
            f = model([&] { return k == 0 ? tt_and(f, a.f) : k == 1 ? tt_or(f, a.f) : tt_xor(f, a.f); });
            if(toobig) break;
        }
        if(toobig) break;
        std::deque<node_ref> dq(v.begin(), v.end());
        node_ref r;
#define VARIADIC(FN) (n == 3 ? g.m->FN(v[0], v[1], v[2]) : n == 4 ? g.m->FN(v[0], v[1], v[2], v[3]) : g.m->FN(v[0], v[1], v[2], v[3], v[4]))
#define RANGE(FN) (form == 3 ? g.m->FN(v.begin(), v.end()) : form == 4 ? g.m->FN(dq.begin(), dq.end()) : o.a[2] % 12 < 6 ? g.m->FN(v.cbegin(), v.cend()) : g.m->FN(v.data(), v.data() + n))
        if(!sut_retry([&] {
            if(form < 3) r = k == 0 ? VARIADIC(and_rec) : k == 1 ? VARIADIC(or_rec) : VARIADIC(xor_rec);
            else r = k == 0 ? RANGE(and_rec) : k == 1 ? RANGE(or_rec) : RANGE(xor_rec);
        }, between)) break;
        result(C_SEM, m, r, f, "n-ary operation");
        break;
    }
    case K_FIND: {
        Opd a = pick(m, o.a[2]), b = pick(m, o.a[3]);
        const int t = std::min(tt_top(a.f), tt_top(b.f));
        if(t == 0) { cnt(N_SKIPPED); break; }
        const int v = o.a[1] % t;
        const size_t nvb = g.m->nr_variables();
        ensure_var(m, act[v]); (void)nvb;
        node_ref r; const size_t before = g.m->nr_nodes();
        if(!sut_retry([&] { r = g.m->unique_find(act[v], a.h, b.h); }, between)) break;
        const size_t after = g.m->nr_nodes();
        const TT f = tt_ite(tt_var(v), b.f, a.f);
        if(!o.fault)
        {
            bool held = a.h == b.h; for(auto& h : hs) if(h->m == m && h->h == r) held = true;
            if(after != before && (after != before + 1 || held)) bad(C_GROW, "unique_find changed the node count from %zu to %zu%s", before, after, held ? " for a node that existed" : "");
        }
        result(C_SEM, m, r, f, "unique_find");
        break;
    }
    case K_RAND: {
        Rng r2(o.a[4]);
        u64 vars = 0; const int cntv = 1 + o.a[2] % (WIDE ? (o.a[1] % 4 == 3 ? NV : 9) : std::min(NV, 8));
        for(int i = 0; i < cntv; ++i) vars |= 1ull << r2.below(NV);
        const TT f = tt_random(r2, vars, o.a[1] % 4);
        node_ref r;
        std::unordered_map<TT, node_ref, TTHash> memo;
        r = build(m, f, o.a[3] % 3, memo);
        memo.clear();
        result(C_SEM, m, r, f, "construction");
        break;
    }
    case K_CARD: {
        const int k = o.a[1] % 7;
        Rng r2(o.a[4]);
        const bool plain = o.a[5] >> 1 & 1;
        const bool many = WIDE && plain && (o.a[2] / 7) % 2;
        const bool lots = !WIDE && sc.prop != "C17" && !sc.env.hash_mode && o.a[5] / 8 % 60 == 0; // operands repeated very often
        const size_t n = lots ? 34 + o.a[2] / 7 % 260 : many ? (k < 4 ? 1 + (o.a[2] / 14) % 33 : 1 + (o.a[2] / 14) % 13) : !WIDE && (o.a[2] / 7) % 4 == 0 ? 6 + (o.a[2] / 28) % 7 : 1 + o.a[2] % 7;
        std::vector<node_ref> v; std::vector<TT> vf;
        for(size_t i = 0; i < n; ++i)
        {
            if(plain) { TT f; node_ref h = leaf(m, 2 + 2 * ((o.a[4] + (u32)i) % NV), f); v.push_back(h); vf.push_back(f); }
            else { Opd a = pick(m, (u32)r2.next()); v.push_back(a.h); vf.push_back(a.f); }
        }
        const size_t b = lots ? (o.a[3] % 4 ? o.a[3] / 4 % 4 : n + o.a[3] / 4 % 3 + 1) : many && n > 8 && o.a[3] % 5 ? (o.a[3] / 5) % 4 : many && n > 8 ? n + 1 + (o.a[3] / 5) % 2 : o.a[3] % (n + 3);
        TT f = tt_const(false);
        auto holds = [&](size_t c) { return k == 0 ? c == 0 : k == 1 ? c == 1 : k == 2 ? c <= 1 : k == 3 ? c >= 1 : k == 4 ? c >= b : k == 5 ? c <= b : c == b; };
        if(WIDE)
        f = model([&] { // condition on the number of operands that are 1, last operand first
            std::vector<TT> row; for(size_t c = 0; c <= n; ++c) row.push_back(tt_const(holds(c)));
            for(size_t i = n; i-- > 0;) for(size_t c = 0; c <= i; ++c) row[c] = tt_ite(vf[i], row[c + 1], row[c]);
            return row[0];
        });
        if(toobig) break;
        if(WIDE) {}
        else for(u32 i = 0; i < (1u << NV); ++i)
        {
            size_t c = 0; for(auto& x : vf) c += x.get(i);
            if(holds(c)) f.set(i);
        }
        static const char* const nm[] = {"all_false", "simplex", "at_most_one", "at_least_one", "at_least", "at_most", "cardinality"};
        std::deque<node_ref> dq(v.begin(), v.end());
        node_ref r;
#define CARDS(B, E) (k == 0 ? g.m->all_false(B, E) : k == 1 ? g.m->simplex(B, E) : k == 2 ? g.m->at_most_one(B, E) : k == 3 ? g.m->at_least_one(B, E) : k == 4 ? g.m->at_least(B, E, b) : k == 5 ? g.m->at_most(B, E, b) : g.m->cardinality(B, E, b))
        if(!sut_retry([&] { r = o.a[5] & 4 ? CARDS(dq.begin(), dq.end()) : CARDS(v.begin(), v.end()); }, between)) break;
        char what[80]; snprintf(what, sizeof what, "%s of %zu operands%s%s", nm[k], n, k >= 4 ? ", bound " : "", k >= 4 ? std::to_string(b).c_str() : "");
        result(C_CARD, m, r, f, what);
        break;
    }
    case K_LIM: {
        Opd a = pick(m, o.a[1]), b = pick(m, o.a[2]);
        const TT f = model([&] { return tt_and(a.f, b.f); }); const size_t s = tt_size(f);
        if(toobig) break;
        const u32 q = o.a[3] % 10;
        const size_t lim = q == 0 ? 0 : q == 1 ? 1 : q == 2 ? (s ? s - 1 : 0) : q == 3 ? s : q == 4 ? s + 1 : q == 5 ? s + 2 : q == 6 ? 2 * s + 1 : q == 7 ? (o.a[3] / 10) % (s + 2) : q == 8 ? std::numeric_limits<size_t>::max() : s / 2;
        std::tuple<node_ref, size_t> r{node_ref(), 0};
        if(!sut_retry([&] { r = g.m->and_rec_limited(a.h, b.h, lim); }, between)) break;
        work_tuples("limited conjunction", {a.f, b.f});
        node_ref h = std::get<0>(r); const size_t n = std::get<1>(r);
        r = std::tuple<node_ref, size_t>{node_ref(), 0};
        log(h.address() ? n : ~0ull);
        if(s < lim)
        {
            cnt(N_ACCEPTED);
            if(!h.address()) { bad(C_LIMIT, "conjunction with %zu nodes refused at limit %zu", s, lim); break; }
            if(n != s) bad(C_LIMIT, "conjunction reported with %zu nodes, it has %zu", n, s);
            result(C_LIMIT, m, h, f, "limited conjunction");
        }
        else
        {
            cnt(N_REFUSE_BIN);
            if(h.address()) { bad(C_LIMIT, "conjunction with %zu nodes returned at limit %zu", s, lim); }
            else if(n != std::numeric_limits<size_t>::max()) bad(C_LIMIT, "refusal reported with count %zu", n);
        }
        break;
    }
    case K_REB: {
        Opd a = pick(m, o.a[1]);
        Rng r2(o.a[2]);
        const u64 sup = tt_support(a.f);
        std::vector<int> sv; for(int v = 0; v < NV; ++v) if(sup >> v & 1) sv.push_back(v);
        std::vector<int> tgt; for(int v = 0; v < NV; ++v) tgt.push_back(v);
        const bool ident = o.a[4] % 5 == 0;
        while(tgt.size() > sv.size()) tgt.erase(tgt.begin() + r2.below(tgt.size()));
        if(ident) tgt = sv;
        int map[MAXV]; for(int v = 0; v < NV; ++v) map[v] = v;
        for(size_t i = 0; i < sv.size(); ++i) map[sv[i]] = tgt[i];
        const TT f = tt_rename(a.f, map);
        const int form = o.a[3] % 4;
        std::unordered_map<size_t, size_t> um; std::map<size_t, size_t> om; std::vector<size_t> vec;
        size_t last = 0; bool any = false;
        if(form < 2)
        {
            for(int v : sv) { um[act[v]] = act[map[v]]; last = std::max<size_t>(last, act[map[v]]); any = true; }
            if(o.a[4] & 8) { const size_t x = act.back() + 1 + o.a[4] % 3; if(!um.count(x)) { um[x] = x; last = std::max(last, x); any = true; } }
            om.insert(um.begin(), um.end());
        }
        else
        {
            vec.resize(sv.empty() ? o.a[4] % 3 : act[sv.back()] + 1 + o.a[4] % 3, 0);
            for(int v : sv) { vec[act[v]] = act[map[v]]; last = std::max<size_t>(last, act[map[v]]); }
            any = !sv.empty();
        }
        const size_t nvb = g.m->nr_variables();
        node_ref r;
        if(!sut_retry([&] {
            r = form == 0 ? g.m->rebase(a.h, um) : form == 1 ? g.m->rebase(a.h, om) : form == 2 ? g.m->rebase(a.h, vec.begin(), vec.end()) : g.m->rebase(a.h, vec.data(), vec.data() + vec.size());
        }, [&] { g.nv = g.m->nr_variables(); between(); })) break;
        work("rebase", tt_size(a.f) + 8 * (g.m->nr_variables() - nvb) + act.back() + 64);
        const size_t expect = any ? std::max(nvb, last + 1) : g.m->nr_variables();
        if(g.m->nr_variables() != expect) bad(C_REBASE, "rebase left %zu variables, expected %zu", g.m->nr_variables(), expect);
        g.nv = g.m->nr_variables();
        if(f == a.f && !(r == a.h)) bad(C_REBASE, "rebase that renames nothing returned another handle");
        result(C_REBASE, m, r, f, "rebase");
        break;
    }
    case K_MEMO: { // the same operation with operands that come, go and come back at the same place
        Rng r2(o.a[1]);
        std::unordered_map<TT, node_ref, TTHash> memo;
        u64 vars = 0; const int nvv = 2 + o.a[2] % (WIDE ? 6 : std::max(1, std::min(NV, 6) - 1));
        for(int i = 0; i < nvv; ++i) vars |= 1ull << r2.below(NV);
        auto mk = [&] { Opd x; x.f = tt_random(r2, vars, (int)r2.below(4)); x.h = build(m, x.f, 0, memo); memo.clear(); return x; };
        std::vector<Opd> fix; for(int i = 0; i < 3; ++i) fix.push_back(r2.chance(1, 2) ? mk() : pick(m, (u32)r2.next()));
        std::vector<Opd> kept;
        const int rounds = 2 + o.a[3] % 3, temps = 2 + o.a[4] % 9; const bool mixed = r2.chance(1, 3); int k0 = (int)r2.below(8);
        for(int q = 0; q < rounds; ++q)
        {
            std::vector<Opd> t;
            for(int i = 0; i < temps; ++i)
            {
                t.push_back(mk());
                const Opd& a = fix[mixed ? r2.below(3) : 0]; const Opd& b = fix[mixed ? r2.below(3) : 1]; const Opd& x = t.back();
                const int k = mixed ? (int)r2.below(8) : k0;
                const TT f = model([&] { return k == 0 ? tt_and(a.f, x.f) : k == 1 ? tt_or(a.f, x.f) : k == 2 ? tt_xor(a.f, x.f) : k == 3 ? tt_ite(a.f, b.f, x.f) : k == 4 ? tt_ite(a.f, x.f, b.f) : k == 5 ? tt_ite(x.f, a.f, b.f) : k == 6 ? tt_not(x.f) : tt_and(x.f, a.f); });
                if(toobig) return;
                node_ref r;
                { SutScope s; tctx->op_steps = 0;
                  r = k == 0 ? g.m->and_rec(a.h, x.h) : k == 1 ? g.m->or_rec(a.h, x.h) : k == 2 ? g.m->xor_rec(a.h, x.h) : k == 3 ? g.m->ite_rec(a.h, b.h, x.h) : k == 4 ? g.m->ite_rec(a.h, x.h, b.h) : k == 5 ? g.m->ite_rec(x.h, a.h, b.h) : k == 6 ? g.m->negate(x.h) : std::get<0>(g.m->and_rec_limited(x.h, a.h, std::numeric_limits<size_t>::max())); }
                if(r2.chance(1, 5)) result(C_SEM, m, r, f, "an operation repeated with other operands"); // becomes a handle of the client
                else { check_fn(C_SEM, m, r, f, "an operation repeated with other operands"); if(r2.chance(2, 3)) kept.push_back({r, f}); }
                if(r2.chance(1, 4)) t.erase(t.begin() + r2.below(t.size()));
            }
            for(const Opd& x : kept) check_fn(C_STABLE, m, x.h, x.f, "a result held across collections");
            if(r2.chance(1, 6)) kept.clear();
            t.clear();
            if(o.a[5] & 2) { SutScope s; tctx->op_steps = 0; collect(*g.m); cnt(N_GC); }
        }
        break;
    }
    case K_DEPTH: { // several diagrams entered into one depth register, children first, otherwise in any order
        Rng r2(o.a[1]);
        if(o.a[5] == 0xdeeb)
        { // a ladder of one or two nodes for each of very many variables, in a manager of its own
            const u64 lim = tctx->step_limit; tctx->step_limit = 4000000000ull; tctx->op_steps = 0;
            const size_t L = o.a[3]; const bool two = o.a[4] & 1, gaps = o.a[4] & 2;
            {
                SutScope s; bdd_mgr mm; BDD::bdd_node_depth reg; mm.projection(L);
                node_ref a = mm.botsink(), b = mm.topsink(), keep = b; std::vector<node_ref> all; size_t da = 0, db = 0;
                reg.add_botsink(a.address()); reg.add_topsink(b.address());
                for(size_t v = L; v-- > 0;)
                {
                    if(gaps && v % 7 == 3) continue;
                    node_ref x = mm.unique_find(v, a, b), y = two ? mm.unique_find(v, b, a) : keep;
                    const size_t e = 1 + std::max(da, db), ex = reg.add_node(x.address()), ey = two ? reg.add_node(y.address()) : 0;
                    all.push_back(x); all.push_back(y);
                    if(ex != e || (two && ey != e)) { HostScope hs; bad(C_DEPTH, "a node whose children have depths %zu and %zu is recorded with depth %zu", da, db, ex != e ? ex : ey); break; }
                    a = x; da = e; b = y; db = two ? e : 0;
                }
            }
            tctx->step_limit = lim; tctx->op_steps = 0; break;
        }
        std::vector<Opd> d; for(u32 i = 0, n = 1 + o.a[2] % 4; i < n; ++i) d.push_back(pick(m, (u32)r2.next()));
        Walk w(g.m); std::vector<int> todo; for(auto& x : d) w.visit(x.h);
        auto reg = [&] { SutScope s; return std::make_unique<BDD::bdd_node_depth>(); }();
        std::vector<long> depth(w.n.size(), -1);
        bool lost = false;
        auto add = [&](int i) {
            size_t r = 0; const size_t had = i;
            auto p = (BDD::node*)w.n[i].addr;
            if(i < 2) { const bool top = p->is_topsink(); if(!sut_retry([&] { if(top) reg->add_topsink(p); else reg->add_botsink(p); }, between)) return false; depth[i] = 0; return true; }
            if(!sut_retry([&] { r = reg->add_node(p); }, between)) return false;
            const size_t e = 1 + std::max(depth[w.n[i].lo], depth[w.n[i].hi]); depth[i] = (long)e; (void)had;
            if(r != e) { bad(C_DEPTH, "a node whose children have depths %ld and %ld is recorded with depth %zu", depth[w.n[i].lo], depth[w.n[i].hi], r); return false; }
            log(r);
            return true;
        };
        std::vector<int> wait(w.n.size(), 0); std::vector<std::vector<int>> up(w.n.size()); std::vector<int> ready;
        for(size_t i = 2; i < w.n.size(); ++i) { for(int ch : {w.n[i].lo, w.n[i].hi}) { ++wait[i]; up[ch].push_back((int)i); } }
        ready = {0, 1};
        while(!ready.empty() && !lost)
        {
            const size_t q = r2.chance(1, 2) ? ready.size() - 1 : r2.below(ready.size()); const int i = ready[q]; ready.erase(ready.begin() + q);
            if(!add(i)) { lost = true; break; }
            for(int x : up[i]) if(--wait[x] == 0) ready.push_back(x);
        }
        if(!lost) for(long x : depth) if(x < 0) bad(C_DEPTH, "not all nodes could be recorded");
        { SutScope s; reg.reset(); }
        break;
    }
    case K_GC: gc(m); break;
    case K_ADDV: {
        const size_t n = 1 + (o.a[1] % 8 == 0 ? o.a[2] % 300 : o.a[2] % 4);
        if(g.m->nr_variables() + n > 3000 + act.back()) break;
        for(size_t i = 0; i < n; ++i)
        {
            const size_t b = g.m->nr_variables(); size_t r = 0;
            if(!sut_retry([&] { r = g.m->add_variable(); }, between)) break;
            if(r != b || g.m->nr_variables() != b + 1) bad(C_GROW, "add_variable returned %zu with %zu variables before and %zu after", r, b, g.m->nr_variables());
            log(r);
            g.nv = g.m->nr_variables();
        }
        audit(m, false);
        break;
    }
    default: break;
    }
}

// ---------------------------------------------------------------- handles
static void handle_ops(World& w, const Op& o)
{
    auto& hs = w.hs;
    switch(o.kind)
    {
    case K_COPY: {
        Handle* h = w.hi(o.a[0]); if(!h) return;
        auto n = std::make_unique<Handle>(*h); n->owner = o.cl;
        if(hs.size() < 60) hs.push_back(std::move(n));
        break;
    }
    case K_MOVE: {
        Handle* h = w.hi(o.a[0]); if(!h) return;
        const u32 rc = (u32)h->h.reference_count();
        if(o.a[1] % 2) { node_ref t(std::move(h->h)); if(h->h.address() != nullptr && !(h->h == t)) w.bad(C_STABLE, "moved-from handle refers to another node"); h->h = t; }
        else { node_ref t(std::move(h->h)); node_ref u; u = std::move(t); h->h = u; }
        if(h->h.address() == nullptr || h->h.reference_count() != rc) w.bad(C_STABLE, "moving a handle changed the reference count from %u to %zu", rc, h->h.address() ? h->h.reference_count() : 0);
        break;
    }
    case K_ASGN: {
        Handle* a = w.hi(o.a[0]); Handle* b = w.hi(o.a[1]); if(!a || !b) return;
        if(o.a[2] % 4 == 0) { node_ref nul; node_ref keep = a->h; a->h = nul; if(a->h.address()) w.bad(C_STABLE, "assigning a null handle left a node"); a->h = keep; }
        if(o.a[2] % 4 == 1) { std::swap(a->h, b->h); std::swap(a->f, b->f); std::swap(a->fp, b->fp); std::swap(a->size, b->size); std::swap(a->m, b->m); }
        else { a->h = b->h; a->f = b->f; a->fp = b->fp; a->size = b->size; a->m = b->m; }
        break;
    }
    case K_SELF: {
        Handle* h = w.hi(o.a[0]); if(!h) return;
        const u32 rc = (u32)h->h.reference_count(); node_ref& r = h->h; r = *&h->h;
        if(h->h.reference_count() != rc) w.bad(C_STABLE, "self-assignment changed the reference count from %u to %zu", rc, h->h.reference_count());
        break;
    }
    case K_VEC: {
        Handle* h = w.hi(o.a[0]); if(!h) return;
        const u32 rc = (u32)h->h.reference_count();
        {
            std::vector<node_ref> v; const u32 n = 1 + o.a[1] % 40; Rng r(o.a[2]);
            for(u32 i = 0; i < n; ++i) { if(r.chance(1, 2)) v.push_back(h->h); else v.emplace_back(); if(r.chance(1, 6)) v.erase(v.begin() + r.below(v.size())); if(r.chance(1, 8)) v.insert(v.begin() + r.below(v.size() + 1), h->h); }
            u32 c = 0; for(auto& x : v) c += x == h->h;
            if(h->h.reference_count() != rc + c) w.bad(C_STABLE, "%u copies in a container, but the reference count went from %u to %zu", c, rc, h->h.reference_count());
            if(r.chance(1, 2)) std::sort(v.begin(), v.end(), [](const node_ref& a, const node_ref& b) { return a.address() < b.address(); });
            std::vector<node_ref> v2(v); v2 = v; std::vector<node_ref> v3(std::move(v2));
            if(h->h.reference_count() != rc + 2 * c) w.bad(C_STABLE, "%u copies in containers, but the reference count went from %u to %zu", 2 * c, rc, h->h.reference_count());
        }
        if(o.a[3] % 40 == 7) // very many copies, held during a collection of garbage
        {
            std::vector<node_ref> v; u32 n; { HostScope hsc; n = (u32)Rng(o.a[4]).range(32000, 140000); } v.assign(n, h->h);
            if(h->h.reference_count() != rc + n) w.bad(C_STABLE, "%u copies in a container, but the reference count went from %u to %zu", n, rc, h->h.reference_count());
            { HostScope hsc; w.sut_retry([&] { collect(*w.mgrs[h->m].m); }, [&] { w.audit_all(); }); w.audit_all(); }
            const size_t now = h->h.reference_count(); // parents that were garbage are gone
            if(now <= n || now > rc + n) w.bad(C_STABLE, "%u copies in a container, but after a collection of garbage the reference count went from %u to %zu", n, rc, now);
            v.clear(); v.shrink_to_fit();
            if(h->h.reference_count() != now - n) w.bad(C_STABLE, "releasing %u copies took the reference count from %zu to %zu", n, now, h->h.reference_count());
            break;
        }
        if(h->h.reference_count() != rc) w.bad(C_STABLE, "releasing copies left the reference count at %zu instead of %u", h->h.reference_count(), rc);
        break;
    }
    case K_DROP: if(Handle* h = w.hi(o.a[0])) w.drop(h); break;
    case K_DROPN: { Rng r(o.a[1]); u32 n = o.a[0] % 12; while(n-- && !hs.empty()) hs.erase(hs.begin() + r.below(hs.size())); break; }
    case K_DIE: {
        cnt(N_CLIENT_DEATH);
        if(o.a[0] & 1) { for(size_t i = hs.size(); i-- > 0;) if(hs[i]->owner == o.cl) hs.erase(hs.begin() + i); }
        else for(size_t i = 0; i < hs.size();) if(hs[i]->owner == o.cl) hs.erase(hs.begin() + i); else ++i;
        break;
    }
    default: break;
    }
}

// ---------------------------------------------------------------- queries
struct Trace { std::unordered_map<const void*, u32> rc; std::vector<u64> fps; size_t nn, sink[2]; };
static Trace snapshot(World& w, int m)
{
    Trace t; Walk k(w.mgrs[m].m);
    for(auto& h : w.hs) if(h->m == m && h->h.address()) { int i = k.visit(h->h); t.fps.push_back(k.n[i].fp); }
    for(size_t i = 2; i < k.n.size(); ++i) t.rc[k.n[i].addr] = k.n[i].xref;
    t.nn = w.mgrs[m].m->nr_nodes();
    { node_ref b = k.m->botsink(), s = k.m->topsink(); t.sink[0] = b.reference_count(); t.sink[1] = s.reference_count(); }
    return t;
}
static void compare(World& w, int m, const Trace& t, const char* what)
{
    Walk k(w.mgrs[m].m); size_t j = 0;
    for(auto& h : w.hs) if(h->m == m && h->h.address()) { int i = k.visit(h->h); if(k.n[i].fp != t.fps[j++]) w.bad(C_TRACE, "%s changed a diagram", what); }
    for(size_t i = 2; i < k.n.size(); ++i)
    {
        if(k.n[i].marked) { w.bad(C_TRACE, "%s left a node marked", what); break; }
        auto it = t.rc.find(k.n[i].addr);
        if(it != t.rc.end() && it->second != k.n[i].xref) { w.bad(C_TRACE, "%s changed a reference count from %u to %u", what, it->second, k.n[i].xref); break; }
    }
    { node_ref b = k.m->botsink(), s = k.m->topsink(); if(b.reference_count() != t.sink[0] || s.reference_count() != t.sink[1]) w.bad(C_TRACE, "%s changed the reference count of a sink", what); }
    if(w.mgrs[m].m->nr_nodes() != t.nn) w.bad(C_TRACE, "%s changed the node count from %zu to %zu", what, t.nn, w.mgrs[m].m->nr_nodes());
}

void World::query(Handle* h, int kind, u32 seed)
{
    const int m = h->m;
    Walk w(mgrs[m].m); const int root = w.visit(h->h);
    const u32 cntn = w.count(root);
    const bool tr = cls & C_TRACE;
    Trace t0; if(tr) t0 = snapshot(*this, m);
    // other queries on other diagrams are not affected by this one
    auto others = [&](const char* when) {
        int left = 3;
        for(size_t i = 0; i < hs.size() && left; ++i)
        {
            Handle* x = hs[(i + seed % 7) % hs.size()].get();
            if(!x->h.address() || x == h) continue;
            --left;
            size_t n = 0; std::vector<size_t> v, e; std::vector<node_ref> po, bf;
            { SutScope s; if((seed + i) % 2) v = x->h.variables(); n = x->h.nr_nodes(); if((seed + i) % 2 == 0) v = x->h.variables(); po = x->h.nodes_postorder(); bf = x->h.nodes_bfs(); }
            for(int k = 0; k < NV; ++k) if(tt_dep(x->f, k)) e.push_back(act[k]);
            if(n != x->size || po.size() != x->size || bf.size() != x->size) bad(C_TRACE, "%s another diagram of %u nodes is reported with %zu nodes, %zu in post-order and %zu breadth-first", when, x->size, n, po.size(), bf.size());
            if(v != e) bad(C_TRACE, "%s another diagram of %zu variables is reported with %zu", when, e.size(), v.size());
        }
    };
    auto between = [&] { if(tr) { compare(*this, m, t0, "a failed query"); others("after a failed query"); compare(*this, m, t0, "a query after a failed query"); } else audit_all(); };
    node_ref q = h->h; // like a user's own copy
    if(tr) t0 = snapshot(*this, m);
    switch(kind)
    {
    case 0: {
        size_t n = 0; if(!sut_retry([&] { n = q.nr_nodes(); }, between)) break; work("nr_nodes()", cntn, 600);
        if(n != cntn) bad(C_TRAV, "nr_nodes() is %zu, the diagram has %u nodes", n, cntn);
        log(n); break;
    }
    case 1: {
        std::vector<size_t> v; if(!sut_retry([&] { v = q.variables(); }, between)) break; work("variables()", cntn, 600);
        std::vector<size_t> e; for(int i = 0; i < NV; ++i) if(tt_dep(h->f, i)) e.push_back(act[i]);
        if(v != e) bad(C_TRAV, "variables() lists %zu variables, the support has %zu", v.size(), e.size());
        for(auto x : v) log(x);
        break;
    }
    case 2: case 3: {
        std::vector<node_ref> v;
        if(!sut_retry([&] { v = kind == 2 ? q.nodes_postorder() : q.nodes_bfs(); }, between)) break; work("a traversal", cntn, 600);
        const char* nm = kind == 2 ? "nodes_postorder()" : "nodes_bfs()";
        std::unordered_map<const void*, int> pos;
        for(size_t i = 0; i < v.size(); ++i)
        {
            if(!v[i].address()) { bad(C_TRAV, "%s lists a null node", nm); return; }
            auto it = w.id.find(v[i].address());
            if(it == w.id.end() || it->second < 2) { bad(C_TRAV, "%s lists a node that is not an internal node of the diagram", nm); return; }
            if(!pos.insert({v[i].address(), (int)i}).second) { bad(C_TRAV, "%s lists a node twice", nm); return; }
            log(v[i].variable());
        }
        if(v.size() != cntn) { bad(C_TRAV, "%s lists %zu nodes, the diagram has %u", nm, v.size(), cntn); return; }
        if(kind == 2)
        {
            for(auto& x : v)
            {
                const NI& ni = w.n[w.id[x.address()]];
                for(int c : {ni.lo, ni.hi}) if(c >= 2 && pos[w.n[c].addr] > pos[x.address()]) { bad(C_TRAV, "nodes_postorder() lists a node before its child"); return; }
            }
        }
        else if(cntn)
        {
            std::unordered_map<int, int> dist; std::deque<int> dq{root}; dist[root] = 0;
            while(!dq.empty()) { int i = dq.front(); dq.pop_front(); for(int c : {w.n[i].lo, w.n[i].hi}) if(c >= 2 && !dist.count(c)) { dist[c] = dist[i] + 1; dq.push_back(c); } }
            if(!(v[0] == h->h)) bad(C_TRAV, "nodes_bfs() does not start at the root");
            int last = 0;
            for(auto& x : v) { int d = dist[w.id[x.address()]]; if(d < last) { bad(C_TRAV, "nodes_bfs() lists a node at distance %d after one at distance %d", d, last); return; } last = d; }
        }
        break;
    }
    case 4: {
        for(int k = 0; k < 6; ++k)
        {
            const u32 a = (u32)(mix2(seed, k) % nassign());
            std::vector<char> as = assignment(a, seed, k);
            bool v = false;
            if(k % 3 == 0) { SutScope s; v = q.evaluate(as.begin(), as.end()); }
            else if(k % 3 == 1) { std::vector<bool> vb(as.begin(), as.end()); SutScope s; v = q.evaluate(vb.begin(), vb.end()); }
            else { std::deque<size_t> d(as.begin(), as.end()); SutScope s; v = q.evaluate(d.begin(), d.end()); }
            if(v != h->f.get(a)) bad(C_TRAV, "evaluate() gives %d, expected %d", v, h->f.get(a));
            log(v);
        }
        break;
    }
    case 5: {
        bool b = false; if(!sut_retry([&] { b = q.exactly_one_solution(); }, between)) break; work("exactly_one_solution()", cntn, 600);
        const u32 ones = tt_solutions(h->f);
        if(b != (ones == 1)) bad(C_TRAV, "exactly_one_solution() is %d with %u solutions over the support", b, ones);
        log(b); break;
    }
    case 6: {
        bool ok; { SutScope s; ok = q.find_bdd_mgr() == mgrs[m].m && q.botsink().is_botsink() && q.topsink().is_topsink() && q.botsink() == mgrs[m].m->botsink() && q.topsink() == mgrs[m].m->topsink(); }
        if(!ok) bad(C_TRAV, "a handle does not find its manager and sinks");
        if(seed % 2) // marks of the user's own, on the whole diagram, and removed again
        {
            { SutScope s; q.address()->mark(); }
            size_t on = 0; for(auto& x : w.n) if(((const BDD::node*)x.addr)->marked_) ++on;
            if(on != cntn) bad(C_TRAV, "mark() marks %zu nodes of a diagram of %u nodes", on, cntn);
            { SutScope s; q.unmark_rec(); }
            for(auto& x : w.n) if(((const BDD::node*)x.addr)->marked_) { bad(C_TRAV, "unmark_rec() leaves marks behind"); break; }
        }
        break;
    }
    case 7: {
        // navigation by low/high
        node_ref r = h->h; const u32 a = seed % nassign(); auto as = assignment(a, seed);
        int guard = 0;
        while(!r.is_terminal() && ++guard < 1000) { r = as[r.variable()] ? r.high() : r.low(); }
        if(r.is_topsink() != h->f.get(a)) bad(C_TRAV, "following low/high ends in the wrong sink");
        break;
    }
    }
    if(tr) { compare(*this, m, t0, "a query"); if(seed % 8 == 0) { others("after a query"); compare(*this, m, t0, "a query"); } }
}

// ---------------------------------------------------------------- output
bool LimBuf::put(const char* s, size_t n)
{
    HostScope h;
    const size_t room = cap - out.size(), k = n < room ? n : room;
    out.append(s, k);
    return k == n;
}
int LimBuf::overflow(int c)
{
    if(c == EOF) return 0;
    char ch = (char)c;
    if(put(&ch, 1)) return c;
    if(mode == 2) throw Boom();
    return EOF;
}
std::streamsize LimBuf::xsputn(const char* s, std::streamsize n)
{
    const size_t b = out.size();
    if(put(s, (size_t)n)) return n;
    if(mode == 2) throw Boom();
    return (std::streamsize)(out.size() - b);
}
namespace { struct Grouped : std::numpunct<char> { char do_thousands_sep() const override { return ','; } std::string do_grouping() const override { return "\3"; } }; }
void dress(std::ostream& os, u32 kind)
{
    HostScope h;
    static const std::locale* grouped = [] { auto* l = new std::locale(std::locale::classic(), new Grouped); std::ostringstream s; s.imbue(*l); s << 1234567ul << std::hex << 1234567ul; return l; }();
    switch(kind % 8)
    {
        case 1: os << std::hex; break;
        case 2: os << std::oct << std::showbase; break;
        case 3: os << std::hex << std::uppercase << std::showbase; break;
        case 4: os.imbue(*grouped); break;
        case 5: os << std::showpos << std::left; os.fill('0'); os.precision(1); break;
        default: return;
    }
    cnt(N_STREAM_FORMAT);
}
// mode: 0 healthy, 1 silent failure, 2 failure with stream exceptions, 3 buffer throws, 4 custom stream throws
template<class F> static std::string emit(World& w, u32 mode, size_t cap, F&& f, u32 form = 0)
{
    LimBuf b(mode == 0 ? (size_t)1 << 30 : cap, mode == 3 ? 2 : 0);
    if(mode == 4)
    {
        ThrowStream ts(b); dress(ts.os, form);
        try { SutScope s; f(ts); } catch(const LimBuf::Boom&) { cnt(N_STREAM_CUSTOM); }
        return b.out;
    }
    std::ostream os(&b); dress(os, form);
    if(mode == 2 || mode == 3) os.exceptions(std::ios::badbit | std::ios::failbit);
    try { SutScope s; f(os); }
    catch(const LimBuf::Boom&) { cnt(N_STREAM_THROW); }
    catch(const std::ios_base::failure&) { if(mode != 2) w.bad(C_EXC, "unexpected stream exception"); cnt(N_STREAM_THROW); }
    if(mode == 1 && !os) cnt(N_STREAM_SHORT);
    return b.out;
}

// reads "digraph BDD {" ... edges; returns the function, or sets err
static TT parse_print(World& w, const std::string& txt, Handle* h, const Walk& k, int root, std::string& err)
{
    struct E { std::string lo, hi; };
    std::map<std::string, E> nodes; std::string first;
    size_t p = 0; int line = 0;
    auto next = [&](std::string& l) { if(p >= txt.size()) return false; size_t q = txt.find('\n', p); if(q == std::string::npos) q = txt.size(); l = txt.substr(p, q - p); p = q + 1; return true; };
    std::string l; bool closed = false;
    while(next(l))
    {
        if(line++ == 0) { if(l != "digraph BDD {") err = "bad header"; continue; }
        if(l == "}") { closed = true; continue; }
        if(closed) { err = "text after the end"; break; }
        size_t ar = l.find(" -> "), lb = l.find(" [label=\"");
        if(ar == std::string::npos || lb == std::string::npos || lb < ar) { if(l == "bot" || l == "top" || l == "bot;" || l == "top;") continue; err = "unreadable line: " + l; break; }
        std::string a = l.substr(0, ar), b = l.substr(ar + 4, lb - ar - 4); char lab = l[lb + 9];
        if(first.empty()) first = a;
        E& e = nodes[a];
        std::string& t = lab == '0' ? e.lo : e.hi;
        if(lab != '0' && lab != '1') err = "bad label";
        if(!t.empty()) err = "arc listed twice";
        t = b;
    }
    if(!closed && err.empty()) err = "graph not closed";
    if(!err.empty()) return TT();
    if(root < 2) { if(!nodes.empty()) err = "constant printed with arcs"; return h->f; }
    if(nodes.size() != h->size) { err = std::to_string(nodes.size()) + " nodes printed, the diagram has " + std::to_string(h->size); return TT(); }
    (void)k;
    std::map<std::string, TT> memo;
    std::function<TT(const std::string&, int)> rec = [&](const std::string& s, int d) -> TT {
        if(s == "bot") return tt_const(false);
        if(s == "top") return tt_const(true);
        auto it = memo.find(s); if(it != memo.end()) return it->second;
        auto e = nodes.find(s);
        if(e == nodes.end() || e->second.lo.empty() || e->second.hi.empty() || d > NV + 1) { err = "node without both arcs"; return TT(); }
        const int v = w.actidx((u32)strtoul(s.c_str() + 1, nullptr, 10));
        if(s[0] != '"' || v < 0) { err = "node of an unknown variable"; return TT(); }
        TT r = tt_ite(tt_var(v), rec(e->second.hi, d + 1), rec(e->second.lo, d + 1));
        memo[s] = r; return r;
    };
    // the root is the node without incoming arc
    std::set<std::string> targets; for(auto& x : nodes) { targets.insert(x.second.lo); targets.insert(x.second.hi); }
    std::string rt; int roots = 0; for(auto& x : nodes) if(!targets.count(x.first)) { rt = x.first; ++roots; }
    if(roots != 1) { err = "graph has " + std::to_string(roots) + " roots"; return TT(); }
    return rec(rt, 0);
}
// compares a printed graph with the diagram itself: one name for each node, and the arcs of that node
std::string check_printed(const std::string& txt, const node_ref& root)
{
    struct E { std::string lo, hi; };
    std::unordered_map<std::string, E> nodes; std::unordered_set<std::string> targets;
    size_t p = 0; int line = 0; bool closed = false;
    while(p < txt.size())
    {
        size_t q = txt.find('\n', p); if(q == std::string::npos) q = txt.size();
        const std::string l = txt.substr(p, q - p); p = q + 1;
        if(line++ == 0) { if(l != "digraph BDD {") return "bad header"; continue; }
        if(closed) return "text after the end";
        if(l == "}") { closed = true; continue; }
        const size_t ar = l.find(" -> "), lb = l.find(" [label=\"");
        if(ar == std::string::npos || lb == std::string::npos || lb < ar) { if(l == "bot" || l == "top" || l == "bot;" || l == "top;") continue; return "unreadable line: " + l; }
        const char lab = l[lb + 9]; if(lab != '0' && lab != '1') return "bad label";
        E& e = nodes[l.substr(0, ar)]; std::string& t = lab == '0' ? e.lo : e.hi;
        if(!t.empty()) return "arc listed twice";
        t = l.substr(ar + 4, lb - ar - 4); targets.insert(t);
    }
    if(!closed) return "graph not closed";
    std::string rt; size_t roots = 0; for(auto& x : nodes) if(!targets.count(x.first)) { rt = x.first; ++roots; }
    if(roots != 1) return "graph has " + std::to_string(roots) + " roots";
    std::unordered_map<std::string, BDD::node*> to; std::vector<std::pair<std::string, BDD::node*>> st{{rt, root.address()}};
    while(!st.empty())
    {
        auto x = st.back(); st.pop_back();
        if(x.second->is_terminal()) { if(x.first != (x.second->is_topsink() ? "top" : "bot")) return "an arc to a constant is drawn to " + x.first; continue; }
        auto f = to.emplace(x.first, x.second); if(!f.second) { if(f.first->second != x.second) return "two nodes have the name " + x.first; continue; }
        auto it = nodes.find(x.first); if(it == nodes.end() || it->second.lo.empty() || it->second.hi.empty()) return "a node without both arcs";
        if(x.first[0] != '"' || strtoul(x.first.c_str() + 1, nullptr, 10) != x.second->index) return "a node of variable " + std::to_string(x.second->index) + " has the name " + x.first;
        st.push_back({it->second.lo, x.second->lo}); st.push_back({it->second.hi, x.second->hi});
    }
    std::unordered_set<BDD::node*> d; for(auto& x : to) d.insert(x.second);
    if(d.size() != to.size() || nodes.size() != to.size()) return std::to_string(nodes.size()) + " nodes printed, the diagram has " + std::to_string(d.size());
    return "";
}
void World::do_print(Handle* h, u32 mode, u32 k)
{
    const int m = h->m;
    const Trace t0 = snapshot(*this, m);
    const u32 form = k >> 20;
    std::string full = emit(*this, 0, 0, [&](auto& s) { h->h.print(s); }, form);
    Walk w(mgrs[m].m); const int root = w.visit(h->h);
    std::string err; TT f = parse_print(*this, full, h, w, root, err);
    if(!err.empty()) bad(C_PRINT, "print: %s", err.c_str());
    else if(f != h->f) bad(C_PRINT, "the printed graph denotes %s instead of %s", ttstr(f).c_str(), ttstr(h->f).c_str());
    compare(*this, m, t0, "print");
    log(full.size() > 0);
    if(op && op->fault)
    {
        std::string out;
        sut_retry([&] { LimBuf b((size_t)1 << 30, 0); std::ostream os(&b); dress(os, form); try { h->h.print(os); } catch(...) { HostScope hh; out = b.out; throw; } HostScope hh; out = b.out; },
            [&] { if(full.compare(0, out.size(), out) != 0) bad(C_PRINT, "output before the allocation failure is not a prefix of the full output"); compare(*this, m, t0, "a print that ran out of memory"); });
        if(out != full) bad(C_PRINT, "printing again after an allocation failure gives different output");
    }
    if(mode % 5)
    {
        const size_t cap = k % (full.size() + 1);
        std::string part = emit(*this, mode % 5, cap, [&](auto& s) { h->h.print(s); }, form);
        if(part.size() > full.size() || full.compare(0, part.size(), part) != 0) bad(C_PRINT, "output before the stream failed is not a prefix of the full output");
        compare(*this, m, t0, "print to a failing stream");
        std::string again = emit(*this, 0, 0, [&](auto& s) { h->h.print(s); }, form);
        if(again != full) bad(C_PRINT, "printing after a failed print gives different output");
    }
}

// ---------------------------------------------------------------- growth
void World::do_grow(const Op& o)
{
    const int m = mi(o.a[0]);
    Mgr& g = mgrs[m];
    if(o.kind == K_GROW)
    {
        if(g.wides.size() >= 3 || NV < 5) { cnt(N_SKIPPED); return; }
        Rng r(o.a[4]);
        auto w = std::make_unique<Wide>();
        w->v = o.a[1] % (NV - 4);
        const u32 nb = std::max<u32>(2, std::min<u32>(o.a[2], 1100));
        // distinct base functions of the variables below v
        std::unordered_set<TT, TTHash> seen;
        std::unordered_map<TT, node_ref, TTHash> memo;
        u64 mask = 0; for(int i = w->v + 1; i < NV && i < w->v + 13; ++i) mask |= 1ull << i;
        int tries = 0;
        while(w->basef.size() < nb && ++tries < 4000)
        {
            TT f = tries == 1 ? tt_const(false) : tries == 2 ? tt_const(true) : tt_random(r, mask, (int)r.below(4));
            if(!seen.insert(f).second) continue;
            w->basef.push_back(f); w->base.push_back(build(m, f, 0, memo));
        }
        memo.clear();
        ensure_var(m, act[w->v]);
        const bool exact = o.a[5] & 2, full = o.a[3] > 1000000 && o.a[3] < 1100000; int refused = 0;
        if(exact) { SutScope s; collect(*g.m); }
        const u64 B = w->basef.size(), total = B * (B - 1);
        u64 want = std::min<u64>(o.a[3], total);
        std::unordered_set<u64> held; // nodes of this variable that may already exist
        if(exact)
        {
            Walk k(g.m);
            for(auto& h : hs) if(h->m == m && h->h.address()) k.visit(h->h);
            for(auto& x : g.wides) { for(auto& b : x->base) k.visit(b); for(auto& b : x->made) k.visit(b); }
            for(auto& x : w->base) k.visit(x);
            for(size_t i = 2; i < k.n.size(); ++i) if(k.n[i].ai == w->v) held.insert(mix2((u64)k.n[k.n[i].lo].addr, (u64)k.n[k.n[i].hi].addr));
            if(k.n.size() != g.m->nr_nodes()) { bad(C_GC, "after collection nr_nodes() is %zu, reachable nodes and sinks are %zu", g.m->nr_nodes(), k.n.size()); }
        }
        w->made.reserve(want); w->pr.reserve(want);
        u64 x = r.below(total); u64 step = 1 + 2 * r.below(total / 2 + 1);
        while(std::__gcd(step, total) != 1) ++step;
        for(u64 i = 0; i < want; ++i, x = (x + step) % total)
        {
            const u32 lo = (u32)(x / (B - 1)); u32 hi = (u32)(x % (B - 1)); if(hi >= lo) ++hi;
            const size_t before = g.m->nr_nodes();
            node_ref h;
            tctx->op_steps = 0;
            if(full)
            { // the table of one variable has 2^20 slots and keeps one of them free
                bool thrown = false;
                try { SutScope s; h = g.m->unique_find(act[w->v], w->base[lo], w->base[hi]); }
                catch(const std::runtime_error&) { thrown = true; }
                if(thrown)
                {
                    if(w->made.size() < 1000000) { bad(C_GROW, "no room for another node of a variable after %zu", w->made.size()); break; }
                    if(g.m->nr_nodes() != before) { bad(C_GROW, "a refused node changed the node count from %zu to %zu", before, g.m->nr_nodes()); break; }
                    cnt(N_TABLE_FULL); if(++refused >= 3) break; else continue;
                }
                if(refused) { bad(C_GROW, "a node was refused although there was room for another one"); break; }
            }
            else if(!sut_retry([&] { h = g.m->unique_find(act[w->v], w->base[lo], w->base[hi]); }, [&] { audit_all(); })) return;
            const size_t after = g.m->nr_nodes();
            if(h.is_terminal() || h.variable() != act[w->v] || !(h.low() == w->base[lo]) || !(h.high() == w->base[hi])) { bad(C_GROW, "node %llu created for variable %u has the wrong structure", (unsigned long long)i, act[w->v]); break; }
            if(exact)
            {
                const bool ex = held.count(mix2((u64)w->base[lo].address(), (u64)w->base[hi].address()));
                if(after != before + (ex ? 0 : 1)) { bad(C_GROW, "creating node %llu of a variable changed the node count from %zu to %zu", (unsigned long long)i, before, after); break; }
            }
            else if(after > before + 1) { bad(C_GROW, "creating one node changed the node count from %zu to %zu", before, after); break; }
            w->pr.push_back({lo, hi}); w->made.push_back(h);
        }
        cnt(N_GROWN, w->made.size()); cntmax(N_TABLE_BIG, w->made.size());
        if(refused)
        { // every node of the full table is still found; once half of them are gone there is room again
            for(size_t i = 0; i < w->made.size(); i += 97)
            {
                node_ref h; tctx->op_steps = 0;
                { SutScope s; h = g.m->unique_find(act[w->v], w->base[w->pr[i].first], w->base[w->pr[i].second]); }
                if(!(h == w->made[i])) { bad(C_GROW, "looking node %zu of a full table up again returned another handle", i); break; }
            }
            // a few of them go: exactly as many fit in again
            const size_t cap = w->made.size(), few = 5; std::vector<std::pair<u32, u32>> gone;
            for(size_t i = 0; i < few; ++i) { const size_t at = i * (w->made.size() / few); gone.push_back(w->pr[at]); w->pr[at] = w->pr.back(); w->pr.pop_back(); w->made[at] = w->made.back(); w->made.pop_back(); }
            struct Limit { u64 old = tctx->step_limit; Limit() { tctx->step_limit = 6000000000ull; tctx->op_steps = 0; } ~Limit() { tctx->step_limit = old; tctx->op_steps = 0; } } limit; // every entry moves
            size_t n0; { SutScope s; collect(*g.m); n0 = g.m->nr_nodes(); } tctx->op_steps = 0;
            for(u64 i = 0; i <= few; ++i, x = (x + step) % total)
            {
                std::pair<u32, u32> e; if(i < few) e = gone[i]; else { const u32 lo = (u32)(x / (B - 1)); u32 hi = (u32)(x % (B - 1)); if(hi >= lo) ++hi; e = {lo, hi}; }
                bool thrown = false; node_ref h; tctx->op_steps = 0;
                try { SutScope s; h = g.m->unique_find(act[w->v], w->base[e.first], w->base[e.second]); } catch(const std::runtime_error&) { thrown = true; }
                if(thrown != (i == few)) { bad(C_GROW, "%s", thrown ? "no room after a collection of a full table that released nodes" : "a table holds more nodes after a collection than before"); break; }
                if(!thrown) { w->pr.push_back(e); w->made.push_back(h); }
                if(g.m->nr_nodes() != n0 + std::min<u64>(i + 1, few)) { bad(C_GROW, "node count %zu instead of %zu in a table that is full again", g.m->nr_nodes(), (size_t)(n0 + std::min<u64>(i + 1, few))); break; }
            }
            if(w->made.size() != cap) bad(C_GROW, "a full table holds %zu nodes, later %zu", cap, w->made.size());
            const size_t keep = w->made.size() / 2;
            w->made.resize(keep); w->pr.resize(keep);
            tctx->op_steps = 0; SutScope s; collect(*g.m);
        }
        log(w->made.size());
        g.wides.push_back(std::move(w));
    }
    else if(o.kind == K_BIGOP)
    { // operations on large diagrams over variables of their own; nothing of it is kept
        const u32 width = std::max<u32>(2, std::min<u32>(o.a[1], 800)), levels = std::max<u32>(2, std::min<u32>(o.a[2], 30));
        Rng r(o.a[3]);
        u64 work0 = 0;
        struct Limit { u64 old = tctx->step_limit; Limit() { tctx->step_limit = 20000000000ull; } ~Limit() { tctx->step_limit = old; tctx->op_steps = 0; } } limit;
        auto both = [&](const char* what) { bad(C_GROW, "%s", what); bad(C_SEM, "%s", what); bad(C_CANON, "%s", what); };
        auto lib = [&](auto&& fn) { tctx->op_steps = 0; const u64 b = tctx->steps; node_ref x; { SutScope s; x = fn(); } work0 = std::max<u64>(work0, tctx->steps - b); return x; };
        { SutScope s; collect(*g.m); }
        const size_t n0 = g.m->nr_nodes(), v0 = g.m->nr_variables();
        for(u32 i = 0; i < levels; ++i) { size_t x; { SutScope s; x = g.m->add_variable(); } if(x != v0 + i) { bad(C_GROW, "add_variable returned %zu instead of %zu", x, v0 + i); return; } }
        g.nv = g.m->nr_variables();
        auto make = [&] {
            std::vector<node_ref> below{g.m->botsink(), g.m->topsink()};
            for(u32 l = levels; l-- > 0;)
            {
                std::vector<node_ref> cur; const u32 k = l < 10 ? std::min<u32>(width, 1u << l) : width;
                for(u32 i = 0; i < k; ++i)
                {
                    const size_t a = r.below(below.size()); size_t b = r.below(below.size() - 1); if(b >= a) ++b;
                    cur.push_back(lib([&] { return g.m->unique_find(v0 + l, below[a], below[b]); }));
                }
                if(k < 8 || l + 1 == levels) below.swap(cur); // the next level also reaches beyond its neighbour now and then
                else { cur.push_back(below[r.below(below.size())]); below.swap(cur); }
            }
            return below[0];
        };
        auto value = [&](node_ref x, u64 a) { const bdd_mgr& q = *g.m; (void)q; while(!x.is_terminal()) { node_ref y = (mix2(a, x.variable()) & 1) ? x.high() : x.low(); x = y; } return x.is_topsink(); };
        {
            node_ref f = make(), h = make(), nf, a, b, c, d;
            const int shape = o.a[4] % 3;
            a = lib([&] { return shape == 0 ? g.m->and_rec(f, h) : shape == 1 ? g.m->or_rec(f, h) : g.m->xor_rec(f, h); });
            for(u64 i = 0; i < 300; ++i)
            {
                const bool x = value(f, i), y = value(h, i), z = value(a, i);
                if(z != (shape == 0 ? x && y : shape == 1 ? x || y : x != y)) { both("an operation on large diagrams has a wrong value"); return; }
            }
            if((cls & C_PRINT) && !a.is_terminal())
            {
                HostScope hh; LimBuf b((size_t)1 << 30, 0); std::ostream os(&b);
                { SutScope s; a.print(os); }
                const std::string e = check_printed(b.out, a); if(!e.empty()) { bad(C_PRINT, "print of a large diagram: %s", e.c_str()); return; }
                log(std::count(b.out.begin(), b.out.end(), '\n'));
            }
            nf = lib([&] { return g.m->negate(f); });
            // other ways to the same functions end in the same nodes
            b = lib([&] { return shape == 0 ? g.m->ite_rec(f, h, g.m->botsink()) : shape == 1 ? g.m->ite_rec(f, g.m->topsink(), h) : g.m->ite_rec(nf, h, g.m->negate(h)); });
            if(!(a == b)) { both("two ways to one large function end in different nodes"); return; }
            if(o.a[4] / 3 % 2) { node_ref e; f = e; SutScope s; collect(*g.m); f = node_ref(g.m->negate(nf)); }
            c = lib([&] { return shape == 0 ? g.m->and_rec(nf, h) : shape == 1 ? g.m->and_rec(nf, a) : g.m->xor_rec(a, h); });
            d = lib([&] { return shape == 0 ? g.m->or_rec(a, c) : shape == 1 ? g.m->or_rec(c, f) : c; });
            if(!(d == (shape == 0 ? h : shape == 1 ? a : f))) { both("putting the parts of a large function together again ends in another node"); return; }
            { node_ref e; f = e; h = e; nf = e; b = e; c = e; d = e; SutScope s; collect(*g.m); }
            size_t n; { SutScope s; n = g.m->nr_nodes() - n0; } const size_t w = a.is_terminal() ? 0 : a.nr_nodes();
            if(n != w) { bad(C_GROW, "%zu nodes are left after a collection with one new handle of %zu nodes", n, w); bad(C_GC, "%zu nodes are left after a collection with one new handle of %zu nodes", n, w); return; }
            cnt(N_GROWN, n); cntmax(N_BIG_STEPS, work0);
        }
        { SutScope s; collect(*g.m); }
        if(g.m->nr_nodes() != n0) { bad(C_GROW, "%zu nodes instead of %zu after everything large was released", g.m->nr_nodes(), n0); bad(C_GC, "%zu nodes instead of %zu after everything large was released", g.m->nr_nodes(), n0); }
    }
    else if(o.kind == K_WFIND)
    {
        for(auto& w : g.wides)
        {
            const size_t n = w->made.size(); if(!n) continue;
            const size_t stride = 1 + (o.a[1] % 3) * (n / 5000);
            const size_t before = g.m->nr_nodes();
            for(size_t i = 0; i < n; i += stride)
            {
                node_ref h; tctx->op_steps = 0;
                { SutScope s; h = g.m->unique_find(act[w->v], w->base[w->pr[i].first], w->base[w->pr[i].second]); }
                if(!(h == w->made[i])) { bad(C_GROW, "looking node %zu of %zu up again returned another handle", i, n); break; }
            }
            if(g.m->nr_nodes() != before) bad(C_GROW, "looking existing nodes up changed the node count from %zu to %zu", before, g.m->nr_nodes());
        }
    }
    else if(o.kind == K_WDROP)
    {
        if(g.wides.empty()) return;
        Wide& w = *g.wides[o.a[1] % g.wides.size()];
        const u32 keep = o.a[2] % 8; // keep in 1/8 units
        std::vector<std::pair<u32, u32>> pr; std::vector<node_ref> made;
        for(size_t i = 0; i < w.made.size(); ++i) if(mix2(o.a[3], i) % 8 < keep) { pr.push_back(w.pr[i]); made.push_back(w.made[i]); }
        w.pr.swap(pr); w.made.swap(made);
        made.clear();
        if(keep == 0 && (o.a[3] & 1)) g.wides.erase(g.wides.begin() + o.a[1] % g.wides.size());
    }
}

// ---------------------------------------------------------------- driver
void World::exec(const Op& o)
{
    op = &o; fault_used = false;
    tctx->cur_op = o.id; tctx->op_steps = 0;
    cnt(N_OPS + o.kind);
    shared->nops++;
    switch(o.kind)
    {
    case K_MGR: if(mgrs.size() < 6) new_mgr(); break;
    case K_MDEL: { int n = 0; for(auto& m : mgrs) n += m.m != nullptr; if(n > 1) { cnt(N_TDOWN_OUT_OF_ORDER); del_mgr(mi(o.a[0])); } break; }
    case K_LEAF: case K_BIN: case K_NOT: case K_ITE: case K_NARY: case K_FIND: case K_RAND: case K_CARD: case K_LIM: case K_REB: case K_GC: case K_ADDV: case K_MEMO: case K_DEPTH:
        mgr_ops(o); break;
    case K_COPY: case K_MOVE: case K_ASGN: case K_SELF: case K_VEC: case K_DROP: case K_DROPN: case K_DIE:
        handle_ops(*this, o); break;
    case K_QRY: if(Handle* h = hi(o.a[0])) query(h, o.a[1] % 8, o.a[2]); break;
    case K_QALL: if(Handle* h = hi(o.a[0])) for(int k = 0; k < 8; ++k) query(h, (k + o.a[1]) % 8, o.a[2] + k); break;
    case K_PRN: if(Handle* h = hi(o.a[0])) do_print(h, o.a[1], o.a[2]); break;
    case K_AUD: audit_all(); break;
    case K_GROW: case K_WFIND: case K_WDROP: case K_BIGOP: do_grow(o); break;
    case K_TURN: do_turn(*this, o); break;
    case K_DEEP: { const u64 lim = tctx->step_limit; tctx->step_limit = 4000000000ull; do_deep(o); tctx->step_limit = lim; break; }
    default: col_ops(o); break;
    }
    if(o.id < MAXOPS) { u32 n = (u32)tctx->op_allocs; if(shared->op_allocs[o.id] < n) shared->op_allocs[o.id] = n; shared->nobs = std::max(shared->nobs, o.id + 1); }
    tctx->op_allocs = 0;
    if(mix2(o.id, o.a[4]) % 4 == 0)
    {
        bool big = false; for(auto& m : mgrs) for(auto& w : m.wides) big |= w->made.size() > 20000;
        if(!big) audit_all();
    }
}
void World::end()
{
    op = nullptr; tctx->cur_op = -1; tctx->op_steps = 0;
    audit_all();
    for(size_t i = 0; i < mgrs.size(); ++i) if(mgrs[i].m) gc((int)i);
    // destroy in a seeded order
    std::vector<std::pair<int, int>> v;
    for(size_t i = 0; i < mgrs.size(); ++i) if(mgrs[i].m) v.push_back({0, (int)i});
    for(size_t i = 0; i < cols.size(); ++i) if(cols[i].c) v.push_back({1, (int)i});
    Rng r(mix2(sc.seed, 4242));
    for(size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    tctx->op_steps = 0;
    end_deep();
    if(sc.teardown_rev) for(size_t i = hs.size(); i-- > 0;) hs.erase(hs.begin() + i); else hs.clear();
    for(auto& x : v)
    {
        if(x.first == 0) del_mgr(x.second);
        else { SutScope s; delete cols[x.second].c; cols[x.second].c = nullptr; }
        for(auto& m : mgrs) if(m.m && m.m->nr_nodes() < 2) bad(C_LEAK, "destroying one object changed another");
    }
    mgrs.clear(); cols.clear();
}

// threaded variant: one world per thread
void run_setup(const Scenario& s) { tt_setup((int)s.act.size()); }
void run_client(const Scenario& s, int client, void (*boundary)())
{
    World* w = new World(s, classes_of(s.prop));
    g_act = &w->act;
    for(const Op& o : s.ops) if(o.cl == client) { boundary(); w->exec(o); }
    boundary();
    w->end();
}

// C16: one world per client, so that clients share nothing but the process; `only` >= 0 runs one client alone
static World* one_pass(const Scenario& s, u32 classes)
{
    const bool split = s.prop == "C16";
    std::map<int, World*> worlds;
    for(const Op& o : s.ops)
    {
        if(split && s.only >= 0 && o.cl != s.only) continue;
        World*& w = worlds[split ? o.cl : 0];
        if(!w) w = new World(s, classes);
        g_act = &w->act;
        w->exec(o);
    }
    for(auto& w : worlds) { g_act = &w.second->act; w.second->end(); }
    return worlds.empty() ? new World(s, classes) : worlds.begin()->second;
}
void run_world(const Scenario& s, u32 classes)
{
    tt_setup((int)s.act.size());
    World* any = one_pass(s, classes);
    const u64 l1 = arena_live_blocks(tctx->arena), b1 = arena_live_bytes(tctx->arena);
    if(l1)
    { // memory that the library keeps for later use stays the same when everything is done again; a leak grows
        std::vector<u64> obs(shared->obs, shared->obs + MAXOPS), cn(shared->cnt, shared->cnt + NCNT); const u64 nops = shared->nops;
        const u64 st = tctx->steps, th = tctx->trace_hash, lh = shared->log_hash;
        one_pass(s, classes);
        const u64 l2 = arena_live_blocks(tctx->arena);
        if(l2 > l1) { one_pass(s, classes); if(arena_live_blocks(tctx->arena) > l2) any->bad(C_LEAK, "%llu blocks (%llu bytes) never released after everything was destroyed", (unsigned long long)l1, (unsigned long long)b1); }
        std::copy(obs.begin(), obs.end(), shared->obs); std::copy(cn.begin(), cn.end(), shared->cnt); shared->nops = nops;
        tctx->steps = st; tctx->trace_hash = th; shared->log_hash = lh;
    }
    shared->steps = tctx->steps; shared->trace_hash = tctx->trace_hash;
    shared->status = ST_OK;
}
} // namespace sim
