// Managers with very many variables and diagrams that are thousands of levels deep. Every call of the library runs on a
// stack of its own with the size that a program gets by default; diagrams are judged by an iterative model.
#include "world.h"
#include "world_impl.h"
#include <array>
#include <cstring>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>

namespace sim {
constexpr u64 DEEP_STACK = 0x380000000000ull, DEEP_STACK_SIZE = 8ull << 20;
static ucontext_t deep_main, deep_ctx;
static std::function<void()>* deep_job;
static std::exception_ptr deep_exc;
static void deep_entry()
{
    try { (*deep_job)(); } catch(...) { deep_exc = std::current_exception(); }
    swapcontext(&deep_ctx, &deep_main);
}
static void on_deep_stack(const std::function<void()>& f, u64 stack_seed)
{
    HostScope hs;
    static bool mapped = false;
    if(!mapped)
    {
        void* p = mmap((void*)(DEEP_STACK - 65536), DEEP_STACK_SIZE + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(p != (void*)(DEEP_STACK - 65536)) { fprintf(stderr, "sim: cannot map stack\n"); _exit(9); }
        mprotect(p, 65536, PROT_NONE); // what is beyond the end of the stack
        memset((char*)(DEEP_STACK + DEEP_STACK_SIZE - (256 << 10)), stack_seed % 3 == 0 ? 0 : stack_seed % 3 == 1 ? 0xff : 0xa7, 256 << 10);
        mapped = true;
    }
    getcontext(&deep_ctx);
    deep_ctx.uc_stack.ss_sp = (void*)DEEP_STACK; deep_ctx.uc_stack.ss_size = DEEP_STACK_SIZE; deep_ctx.uc_link = nullptr;
    makecontext(&deep_ctx, deep_entry, 0);
    std::function<void()> g = [&f] { SutScope s; f(); };
    deep_job = &g; deep_exc = nullptr;
    swapcontext(&deep_main, &deep_ctx);
    if(deep_exc) { auto e = deep_exc; deep_exc = nullptr; std::rethrow_exception(e); }
}

struct DNode { u32 var; int lo, hi; };
struct Budget {};
using Tup = std::array<int, 4>;
struct TupHash { size_t operator()(const Tup& t) const { return mix2(((u64)(u32)t[0] << 32) | (u32)t[1], ((u64)(u32)t[2] << 32) | (u32)t[3]); } };
struct NHash { size_t operator()(const std::array<u32, 3>& t) const { return mix2(((u64)t[0] << 32) | t[1], t[2]); } };
struct Dref {
    std::vector<DNode> n{{~0u, 0, 0}, {~0u, 1, 1}};
    std::unordered_map<std::array<u32, 3>, int, NHash> u;
    int mk(u32 v, int lo, int hi)
    {
        if(lo == hi) return lo;
        auto r = u.insert({{v, (u32)lo, (u32)hi}, (int)n.size()});
        if(r.second) n.push_back({v, lo, hi});
        return r.first->second;
    }
    // f maps terminal (0/1) operands to a terminal, and may decide earlier (-1: go on)
    size_t tuples = 0; // looked at by the last apply
    template<class F> int apply(const Tup& roots, F f, size_t budget = 600000)
    {
        struct Out { size_t& t; std::unordered_map<Tup, int, TupHash>& m; ~Out() { t = m.size(); } };
        std::unordered_map<Tup, int, TupHash> memo; std::vector<Tup> st{roots}; Out out{tuples, memo};
        auto val = [&](const Tup& t) { int r = f(t); if(r >= 0) return r; auto it = memo.find(t); return it == memo.end() ? -1 : it->second; };
        while(!st.empty())
        {
            const Tup t = st.back();
            if(val(t) >= 0) { st.pop_back(); continue; }
            u32 v = ~0u; for(int x : t) v = std::min(v, n[x].var);
            Tup a = t, b = t; for(int k = 0; k < 4; ++k) if(n[t[k]].var == v) { a[k] = n[t[k]].lo; b[k] = n[t[k]].hi; }
            const int lo = val(a), hi = val(b);
            if(lo >= 0 && hi >= 0) { memo[t] = mk(v, lo, hi); st.pop_back(); if(memo.size() > budget) throw Budget(); continue; }
            if(hi < 0) st.push_back(b);
            if(lo < 0) st.push_back(a);
        }
        return val(roots);
    }
    std::vector<int> nodes(int root) // every node below root, children first
    {
        std::vector<int> r, st{root}; std::unordered_map<int, char> seen;
        while(!st.empty()) { int i = st.back(); st.pop_back(); if(i < 2 || seen[i]) continue; seen[i] = 1; r.push_back(i); st.push_back(n[i].lo); st.push_back(n[i].hi); }
        std::sort(r.begin(), r.end()); // children have smaller numbers
        return r;
    }
    std::vector<size_t> support(int root) { std::vector<size_t> v; for(int i : nodes(root)) v.push_back(n[i].var); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
    size_t count(int root) { return nodes(root).size(); }
    bool eval(int r, const std::vector<char>& x) { while(r > 1) r = x[n[r].var] ? n[r].hi : n[r].lo; return r; }
};

struct DItem { node_ref h; int id; };
struct Deep {
    bdd_mgr* m = nullptr; bdd_collection* c = nullptr;
    u32 levels = 0, stride = 1, width = 0; size_t nv = 0; // width: so many nodes on a level of a broad diagram
    Dref ref; std::vector<DItem> pool; std::vector<int> stored;
    ~Deep() { SutScope s; pool.clear(); delete m; delete c; }
};
void World::end_deep() { deep.reset(); }

void World::do_deep(const Op& o)
{
    const bool solo = sc.prop == "C16"; // clients with deep diagrams of their own, also in threads: smaller, and on their own stacks
    if(!deep)
    {
        auto p = std::make_shared<Deep>();
        Rng q(mix2(sc.seed, solo ? 8087 + o.cl : 8086));
        p->levels = q.chance(1, 4) ? (u32)q.range(300, 2000) : q.chance(1, 3) ? 10000 : (u32)q.range(2000, 10000);
        if(sc.prop == "C25" && q.chance(1, 3)) p->levels = (u32)q.range(1000, 8000);
        else if(sc.prop != "C24") p->levels = q.chance(1, 6) ? (u32)q.range(1000, 4000) : (u32)q.range(60, 1000);
        p->stride = q.chance(1, 8) ? (u32)q.range(2, q.chance(1, 3) ? 70000 / p->levels + 2 : 7) : 1;
        if(o.a[5] == BROAD)
        { // few levels with up to tens of thousands of nodes each
            if(q.chance(1, 4)) { p->levels = (u32)q.range(18, 30); p->width = (u32)q.range(60, 220); }
            else { p->levels = (u32)q.range(17, 21); p->width = (u32)(q.chance(2, 3) ? q.range(1500, 20000) : q.range(20000, 70000)); }
        }
        if(solo) { p->levels = o.a[5] == BROAD ? (u32)q.range(12, 18) : (u32)q.range(100, 700); if(p->width) p->width = (u32)q.range(20, q.chance(1, 4) ? 400 : 90); }
        SutScope s; p->m = new bdd_mgr(); p->c = new bdd_collection(); deep = p;
    }
    Deep& D = *deep; Dref& R = D.ref; bdd_mgr& m = *D.m; bdd_collection& c = *D.c;
    Rng r(mix2(o.a[1], o.a[2]));
    static const u32 kinds[DEEP_KINDS] = {C_GROW, C_SEM, C_SEM, C_SEM, C_SEM, C_SEM, C_SEM, C_LIMIT, C_LIMIT, C_CARD, C_TRAV, C_TRAV, C_TRAV, C_PRINT, C_GC, C_GC, C_REBASE, C_XFER, C_CAND, C_COLL, C_XFER, C_COLL, C_PRINT, C_VIEW, C_BUILD};
    const u32 K = C_DEEP | kinds[o.a[0] % DEEP_KINDS]; // what a violation seen during this operation says about the single properties
    auto var = [&](u32 l) { return l * D.stride; };
    auto between = [&] {};
    auto call = [&](const std::function<void()>& f) { return sut_retry([&] { if(solo) f(); else on_deep_stack(f, sc.stack_seed); }, between); };
    auto need_vars = [&](size_t k) {
        while(m.nr_variables() < k)
        {
            const size_t b = m.nr_variables(); size_t x = 0;
            if(r.chance(1, 4)) { SutScope s; node_ref p = m.projection(k - 1); if(p.variable() != k - 1) bad(C_DEEP | C_GROW, "projection on variable %zu tests %zu", k - 1, p.variable()); }
            else { SutScope s; x = m.add_variable(); if(x != b) bad(C_DEEP | C_GROW, "add_variable returns %zu with %zu variables", x, b); }
        }
        D.nv = m.nr_variables();
    };
    // reads a handle back and compares it with the model
    auto same = [&](const node_ref& h0, int id, const char* what, u32 K = 0) {
        if(!K) K = C_DEEP | kinds[o.a[0] % DEEP_KINDS];
        HostScope hs;
        if(!h0.address()) { bad(K, "%s: null handle", what); return; }
        std::unordered_map<const void*, int> num; std::unordered_map<int, const void*> back;
        auto term = [&](BDD::node* p) { return p->is_terminal() ? (p->is_topsink() ? 1 : 0) : -1; };
        auto get = [&](BDD::node* p) { const int t = term(p); if(t >= 0) return t; auto it = num.find(p); return it == num.end() ? -1 : it->second; };
        std::vector<BDD::node*> st{h0.address()};
        const size_t cap = 4 * R.n.size() + 4000000;
        size_t w = 0;
        while(!st.empty())
        {
            BDD::node* p = st.back();
            if(++w > cap || p == nullptr) { bad(K, "%s: %s", what, p ? "the diagram has far too many nodes" : "null child"); return; }
            if(get(p) >= 0) { st.pop_back(); continue; }
            if(p->index >= D.nv) { bad(K, "%s: a node tests variable %zu of %zu", what, (size_t)p->index, D.nv); return; }
            const int lo = get(p->lo), hi = get(p->hi);
            if(lo >= 0 && hi >= 0)
            {
                if(lo == hi || R.n[lo].var <= p->index || R.n[hi].var <= p->index) { bad(C_DEEP | C_CANON, "%s: not an ordered reduced diagram at variable %zu", what, (size_t)p->index); return; }
                const int i = R.mk((u32)p->index, lo, hi); num[p] = i;
                if(!back.insert({i, p}).second) { bad(C_DEEP | C_CANON, "%s: two equal nodes at variable %zu", what, (size_t)p->index); return; }
                st.pop_back(); continue;
            }
            if(hi < 0) st.push_back(p->hi);
            if(lo < 0) st.push_back(p->lo);
        }
        const int got = get(h0.address());
        log(mix2(got, num.size()));
        if(D.width) cntmax(N_BROAD_NODES, num.size());
        if(got != id) bad(K, "%s: wrong diagram (%zu nodes instead of %zu, %u levels)", what, R.count(got), R.count(id), D.levels);
        for(auto& x : D.pool) if((x.h == h0) != (x.id == id)) bad(C_DEEP | C_CANON, "%s: %s", what, x.id == id ? "another handle than for the same function before" : "same handle as a different function");
    };
    auto keep = [&](node_ref h, int id) { SutScope s; if(D.pool.size() < 8) D.pool.push_back({h, id}); else { auto& x = D.pool[r.below(D.pool.size())]; x.h = h; x.id = id; } };
    auto build = [&](int id) { // the diagram of the model, node by node
        node_ref out; const auto ns = R.nodes(id); const bool ite = r.chance(1, 6);
        call([&] {
            std::unordered_map<int, node_ref> h; h.emplace(0, m.botsink()); h.emplace(1, m.topsink());
            for(int i : ns) { const DNode& x = R.n[i]; node_ref lo = h.at(x.lo), hi = h.at(x.hi);
                h.emplace(i, ite ? m.ite_rec(m.projection(x.var), hi, lo) : m.unique_find(x.var, lo, hi)); }
            out = h.at(id);
        });
        return out;
    };
    // random diagram with one to three states on each level
    auto random_diagram = [&] {
        if(D.width)
        { // from the last level to the first; no level has more nodes than paths lead there
            std::vector<int> st{0, 1}; const bool skip = r.chance(1, 2), heavy = r.chance(1, 3); // heavy: very many nodes have one child in common
            const int common = heavy ? R.mk(var(D.levels - 1), 0, 1) : 0;
            for(u32 l = D.levels; l-- > 0;)
            {
                std::vector<int> nx; std::unordered_map<int, char> in;
                const size_t w = l < 31 ? std::min<size_t>(D.width, 1ull << l) : D.width, k = st.size();
                for(size_t t = 0, i = 0; nx.size() < w && t < 3 * w; ++t, ++i)
                {
                    const int lo = i < k ? st[i] : st[r.below(k)], hi = i < k && w < k ? st[(i + w) % k] : st[r.below(k)];
                    if(heavy && w >= k && k > 1000) { const int x = R.mk(var(l), st[i % k], common); if(!in[x]++) nx.push_back(x); continue; }
                    const int x = skip && r.chance(1, 8) ? lo : R.mk(var(l), lo, hi);
                    if(!in[x]++) nx.push_back(x);
                }
                st = nx;
            }
            return st[0];
        }
        const int k = (int)r.range(1, 3), mode = (int)r.below(4); const u32 part = (u32)r.below(3);
        std::vector<int> st; for(int i = 0; i < 3; ++i) st.push_back(0);
        st[0] = (int)r.below(2); st[1] = !st[0]; st[2] = k == 3 ? R.mk(var(D.levels - 1), 0, 1) : (int)r.below(2);
        const u32 skip = r.chance(1, 3) ? (u32)r.range(2, 5) : 0; const bool term = r.chance(1, 4);
        for(u32 l = D.levels - 1; l-- > 0;)
        {
            if(skip && l % skip == part) continue;
            std::vector<int> nx = st;
            if(k == 1) { // conjunction or disjunction of literals
                const int t = mode & 1; if(R.n[st[0]].var == ~0u && st[0] == t) st[0] = !t;
                nx[0] = r.chance(1, 2) ? R.mk(var(l), st[0], t) : R.mk(var(l), t, st[0]);
            } else {
                const int a = (int)r.below(k), b = mode == 3 && k == 3 ? 1 : 0; // permutations on both sides keep the states apart
                for(int i = 0; i < k; ++i) { int lo = st[(i + a) % k], hi = st[b ? (k + a + 1 - i) % k : (i + a + 1) % k]; if(term && r.chance(1, 400)) hi = (int)r.below(2); nx[i] = R.mk(var(l), lo, hi); }
            }
            st = nx;
        }
        return st[0];
    };
    // steps in proportion to what has to be looked at; the work done so far pays for the growth of tables
    auto work_d = [&](const char* what, u64 units, u64 per = 0) {
        cnt(N_WORK_CHECKED); cntmax(N_WORK_RATIO, last_steps / (units + 500));
        if(last_steps > (per ? per : 2000) * (units + 500) + (per ? 0 : tctx->steps - last_steps))
            bad(C_WORK, "%s took %llu steps, with only %llu nodes (or tuples of nodes) to look at", what, (unsigned long long)last_steps, (unsigned long long)units);
    };
    auto any = [&]() -> DItem {
        if(D.pool.empty() || (D.pool.size() < 3 && r.chance(1, 2)))
        {
            need_vars(var(D.levels - 1) + 1);
            const int id = random_diagram(); node_ref h = build(id);
            if(h.address()) { same(h, id, "a diagram built node by node"); keep(h, id); }
            return {h, id};
        }
        return D.pool[r.below(D.pool.size())];
    };
    auto AND = [](const Tup& t) { bool all = true; for(int x : t) { if(x == 0) return 0; all &= x == 1; } return all ? 1 : -1; };
    auto fin = [&](auto bf) { return [bf](const Tup& t) { for(int x : t) if(x > 1) return -1; return (int)bf(t); }; };
    auto restore = [&] { D.nv = m.nr_variables(); };
    auto stored_ok = [&](size_t i, int id, const char* what) {
        const auto ins = [&] { SutScope s; return c.get_bdd_instructions(i); }();
        std::unordered_map<size_t, int> num; const size_t base = [&] { SutScope s; return c.get_bdd_instructions(0).first; }() == ins.first ? 0 : ins.first - c.get_bdd_instructions(0).first;
        std::unordered_map<int, int> seen; int last = -1; const size_t k = ins.second - ins.first;
        for(size_t q = k; q-- > 0;)
        {
            auto x = *(ins.first + q);
            if(x.is_terminal()) { num[base + q] = x.is_topsink() ? 1 : 0; last = x.is_topsink() ? 1 : 0; continue; }
            if(!num.count(x.lo) || !num.count(x.hi) || x.lo <= base + q || x.hi <= base + q) { bad(K, "%s: arc outside the diagram", what); return; }
            const int lo = num[x.lo], hi = num[x.hi];
            if(lo == hi || R.n[lo].var <= x.index || R.n[hi].var <= x.index) { bad(K, "%s: stored diagram is not ordered and reduced at variable %zu", what, (size_t)x.index); return; }
            last = num[base + q] = R.mk((u32)x.index, lo, hi);
            if(seen[last]++) { bad(K, "%s: two equal nodes at variable %zu", what, (size_t)x.index); return; }
        }
        if(last != id) bad(K, "%s: wrong stored diagram (%zu entries instead of %zu nodes, %u levels)", what, k, R.count(id), D.levels);
    };
    auto put = [&](const DItem& x) -> long {
        size_t i = 0; const size_t n = D.stored.size();
        if(!call([&] { i = c.add_bdd(x.h); })) return -1; work_d("storing a diagram", R.count(x.id));
        if(i != n || c.nr_bdds() != n + 1) { bad(K, "diagram stored as number %zu of %zu", i, n); return -1; }
        D.stored.push_back(x.id); stored_ok(i, x.id, "a stored diagram"); return (long)i;
    };
    auto any_stored = [&]() -> long { if(D.stored.empty() || (D.stored.size() < 3 && r.chance(1, 2))) return put(any()); return (long)r.below(D.stored.size()); };
    auto big = [&](int id, size_t lim) { return R.count(id) > lim; };
    const size_t opn = solo ? 2500 : D.width ? 400000 : 6ull * D.levels + 2000; // operands of binary operations stay below this
    cnt(N_DEEP_OPS); cntmax(N_DEEP_LEVELS, D.levels); if(D.width) cnt(N_BROAD_OPS);
    try { switch(o.a[0] % DEEP_KINDS)
    {
    case 0: { DItem x; x.id = -1; need_vars(var(D.levels - 1) + 1); const int id = random_diagram(); node_ref h = build(id); if(h.address()) { same(h, id, "a diagram built node by node"); keep(h, id); } break; }
    case 1: case 2: case 3: {
        DItem x = any(), y = any(); const int k = o.a[0] % DEEP_KINDS; if(big(x.id, opn) || big(y.id, opn)) break;
        Tup t{x.id, y.id, k == 1, k == 1}; node_ref h;
        const int e = k == 1 ? R.apply(t, AND) : k == 2 ? R.apply(t, [](const Tup& t) { return t[0] == 1 || t[1] == 1 ? 1 : t[0] == 0 && t[1] == 0 ? 0 : -1; }) : R.apply(t, fin([](const Tup& t) { return t[0] != t[1]; }));
        if(call([&] { h = k == 1 ? m.and_rec(x.h, y.h) : k == 2 ? m.or_rec(x.h, y.h) : m.xor_rec(x.h, y.h); })) { work_d("a binary operation", R.tuples); same(h, e, k == 1 ? "conjunction" : k == 2 ? "disjunction" : "exclusive-or"); keep(h, e); }
        break; }
    case 4: { DItem x = any(); node_ref h; const int e = R.apply({x.id, 0, 0, 0}, fin([](const Tup& t) { return !t[0]; }));
        if(call([&] { h = m.negate(x.h); })) { work_d("a negation", R.tuples); same(h, e, "negation"); keep(h, e); } break; }
    case 5: case 6: { DItem x = any(), y = any(), z = any(); if(big(x.id, opn) || big(y.id, opn) || big(z.id, opn)) break; node_ref h;
        const int e = R.apply({x.id, y.id, z.id, 0}, [](const Tup& t) { return t[0] == 1 && t[1] <= 1 ? t[1] : t[0] == 0 && t[2] <= 1 ? t[2] : t[1] == t[2] && t[1] <= 1 ? t[1] : -1; });
        if(call([&] { h = m.ite_rec(x.h, y.h, z.h); })) { work_d("an if-then-else", R.tuples); same(h, e, "if-then-else"); keep(h, e); } break; }
    case 7: case 8: { DItem x = any(), y = any(); if(big(x.id, opn) || big(y.id, opn)) break;
        const int e = R.apply({x.id, y.id, 1, 1}, AND); const size_t n = R.count(e); const size_t lim = r.chance(1, 2) ? n + 1 + r.below(5) : r.below(n + 2);
        std::tuple<node_ref, size_t> t;
        if(!call([&] { t = m.and_rec_limited(x.h, y.h, lim); })) break; work_d("a limited conjunction", R.tuples + n);
        if((std::get<0>(t).address() != nullptr) != (n < lim)) { bad(K, "conjunction of %zu nodes under a limit of %zu is %s", n, lim, n < lim ? "refused" : "accepted"); break; }
        if(n < lim) { same(std::get<0>(t), e, "limited conjunction"); if(std::get<1>(t) != n) bad(K, "limited conjunction reports %zu nodes instead of %zu", std::get<1>(t), n); SutScope s; keep(std::get<0>(t), e); }
        { SutScope s; t = std::tuple<node_ref, size_t>(); }
        break; }
    case 9: { // cardinality constraints over very many variables
        need_vars(var(D.levels - 1) + 1);
        const u32 k = (u32)r.range(2, std::min<u32>(D.levels, 3000)), b = (u32)r.below(3), first = (u32)r.below(D.levels - k + 1); const int w = (int)r.below(7);
        std::vector<node_ref> v; node_ref h;
        { SutScope s; for(u32 i = 0; i < k; ++i) v.push_back(m.projection(var(first + i))); }
        // row[c]: what is still asked for when c of the operands so far are true
        auto ok = [&](u32 c) -> int { return w == 0 ? c == 0 : w == 1 ? c == 1 : w == 2 ? c <= 1 : w == 3 ? c >= 1 : w == 4 ? c >= b : w == 5 ? c <= b : c == b; };
        std::vector<int> row; for(u32 i = 0; i <= 3; ++i) row.push_back(ok(i));
        for(u32 l = k; l-- > 0;) for(u32 i = 0; i <= 3; ++i) row[i] = R.mk(var(first + l), row[i], row[std::min(i + 1, 3u)]);
        if(call([&] { h = w == 0 ? m.all_false(v.begin(), v.end()) : w == 1 ? m.simplex(v.begin(), v.end()) : w == 2 ? m.at_most_one(v.begin(), v.end()) : w == 3 ? m.at_least_one(v.begin(), v.end())
            : w == 4 ? m.at_least(v.begin(), v.end(), b) : w == 5 ? m.at_most(v.begin(), v.end(), b) : m.cardinality(v.begin(), v.end(), b); })) { same(h, row[0], "cardinality constraint"); keep(h, row[0]); }
        { SutScope s; v.clear(); }
        break; }
    case 10: { DItem x = any(); size_t n = 0; std::vector<size_t> vs;
        const auto ns = R.nodes(x.id);
        if(call([&] { n = x.h.nr_nodes(); })) { work_d("nr_nodes", ns.size(), 600); if(n != ns.size()) bad(K, "nr_nodes is %zu instead of %zu", n, ns.size()); }
        if(call([&] { vs = x.h.variables(); })) { work_d("variables", ns.size(), 600); if(vs != R.support(x.id)) bad(K, "variables lists %zu variables instead of %zu", vs.size(), R.support(x.id).size()); }
        { SutScope s; vs = {}; }
        break; }
    case 11: { DItem x = any(); const auto ns = R.nodes(x.id); std::vector<node_ref> po, bf;
        for(int k = 0; k < 2; ++k)
        {
            auto& l = k ? bf : po;
            if(!call([&] { l = k ? x.h.nodes_bfs() : x.h.nodes_postorder(); })) continue; work_d("a traversal", ns.size(), 600);
            if(l.size() != ns.size()) bad(K, "%s lists %zu nodes instead of %zu", k ? "nodes_bfs" : "nodes_postorder", l.size(), ns.size());
            std::unordered_map<BDD::node*, size_t> at; for(size_t i = 0; i < l.size(); ++i) if(!at.insert({l[i].address(), i}).second) { bad(K, "%s lists a node twice", k ? "nodes_bfs" : "nodes_postorder"); break; }
            for(size_t i = 0; i < l.size(); ++i) for(BDD::node* ch : {l[i].address()->lo, l[i].address()->hi}) if(!ch->is_terminal())
            { auto it = at.find(ch); if(it == at.end() || (k == 0 && it->second > i)) { bad(K, "%s: child %s", k ? "nodes_bfs" : "nodes_postorder", it == at.end() ? "missing" : "after its parent"); i = l.size() - 1; break; } }
            if(!l.empty() && (k ? l.front() : l.back()) != x.h) bad(K, "%s: the root is not at its end", k ? "nodes_bfs" : "nodes_postorder");
            if(k)
            { std::unordered_map<BDD::node*, u32> d; if(!l.empty()) d[l[0].address()] = 0; u32 prev = 0;
              for(auto& h : l) { auto it = d.find(h.address()); if(it == d.end() || it->second < prev) { bad(K, "nodes_bfs is not breadth-first"); break; } prev = it->second; for(BDD::node* ch : {h.address()->lo, h.address()->hi}) if(!ch->is_terminal()) d.insert({ch, prev + 1}); } }
        }
        { SutScope s; po = {}; bf = {}; }
        break; }
    case 12: { DItem x = any(); long col = any_stored();
        for(int k = 0; k < 6; ++k)
        {
            size_t len = D.nv; if(col >= 0 && D.stored[col] > 1) len = std::max(len, R.support(D.stored[col]).back() + 1); std::vector<char> in(len); const u64 dens = r.below(3); for(auto& q : in) q = dens == 0 ? r.chance(1, 2) : dens == 1 ? r.chance(1, D.levels) : !r.chance(1, D.levels);
            int id = x.id; // along a path that is not decided early
            for(int st = id; st > 1;) { auto& y = R.n[st]; if(r.chance(3, 4)) { if(y.lo < 2 && y.hi > 1) in[y.var] = 1; if(y.hi < 2 && y.lo > 1) in[y.var] = 0; } st = in[y.var] ? y.hi : y.lo; }
            bool e = R.eval(id, in), g = !e;
            if(call([&] { g = x.h.evaluate(in.begin(), in.end()); }) && g != e) bad(K, "evaluation gives %d instead of %d", g, e);
            if(col >= 0) { e = R.eval(D.stored[col], in); if(call([&] { g = c.evaluate(col, in.begin(), in.end()); }) && g != e) bad(K, "evaluation of a stored diagram gives %d instead of %d", g, e); }
        }
        bool one = false; // exactly one solution: a single path to true that tests the whole support
        { auto ns = R.nodes(x.id); std::unordered_map<int, int> paths; paths[0] = 0; paths[1] = 1; for(int i : ns) paths[i] = std::min(2, paths[R.n[i].lo] + paths[R.n[i].hi]);
          const bool e = x.id == 1 || (x.id > 1 && paths[x.id] == 1 && [&] { size_t len = 0; for(int i = x.id; i > 1; ++len) i = paths[R.n[i].lo] ? R.n[i].lo : R.n[i].hi; return len == R.support(x.id).size(); }());
          if(x.id > 1 && call([&] { one = x.h.exactly_one_solution(); })) { work_d("exactly_one_solution", R.count(x.id), 600); if(one != e) bad(K, "exactly_one_solution gives %d instead of %d", one, e); } }
        break; }
    case 13: { DItem x = any(); LimBuf b(~size_t(0) >> 1, 0); std::ostream os(&b); dress(os, o.a[4] >> 20); const size_t n = R.count(x.id);
        if(x.id > 1 && call([&] { b.out.clear(); x.h.print(os); }))
        { size_t arcs = 0; for(size_t p = b.out.find("->"); p != std::string::npos; p = b.out.find("->", p + 2)) ++arcs;
          size_t want = 0, inv = 0; (void)n; for(size_t p = b.out.find("invis"); p != std::string::npos; p = b.out.find("invis", p + 2)) ++inv; want = 2 * n;
          const std::string e = check_printed(b.out, x.h); if(!e.empty()) bad(K, "print: %s", e.c_str());
          if(arcs < want || arcs - inv > want + 2) bad(K, "print writes %zu arcs (%zu invisible) for %zu nodes", arcs, inv, n); }
        break; }
    case 14: case 15: { // collection of garbage
        if(r.chance(1, 2) && !D.pool.empty()) { SutScope s; D.pool.erase(D.pool.begin() + r.below(D.pool.size())); }
        if(!call([&] { collect(m); })) break;
        std::unordered_map<int, int> live; size_t n = 2; for(auto& x : D.pool) { for(int i : R.nodes(x.id)) if(!live[i]++) ++n; }
        if(m.nr_nodes() != n) bad(K, "%zu nodes after a collection of garbage instead of %zu", m.nr_nodes(), n);
        for(auto& x : D.pool) same(x.h, x.id, "a diagram held during a collection of garbage", C_DEEP | C_GC | C_STABLE);
        break; }
    case 16: { DItem x = any(); node_ref h; std::unordered_map<size_t, size_t> mp; std::vector<size_t> vec; const auto sup = R.support(x.id); const bool byvec = r.chance(1, 2);
        const size_t shift = r.chance(1, 6) ? r.below(60000) : r.below(40); size_t y = 0, top = 0;
        // increasing: every variable moves by what its predecessors moved, now and then by one more
        size_t extra = 0; vec.resize(sup.empty() ? 1 : sup.back() + 1);
        if(sup.empty()) break;
        for(size_t v = 0; v < vec.size(); ++v) { if(extra < 50 && r.chance(1, 200)) ++extra; vec[v] = v + shift + extra; }
        for(size_t v : sup) { mp[v] = vec[v]; top = vec[v]; } (void)y;
        std::unordered_map<int, int> to; to[0] = 0; to[1] = 1; for(int i : R.nodes(x.id)) to[i] = R.mk((u32)vec[R.n[i].var], to[R.n[i].lo], to[R.n[i].hi]);
        bool ok; if(byvec) ok = call([&] { h = m.rebase(x.h, vec.begin(), vec.end()); }); else ok = call([&] { h = m.rebase(x.h, mp); });
        const size_t nv0 = D.nv; restore();
        if(ok) { work_d("rebase", R.count(x.id) + vec.size() + 8 * (D.nv - nv0) + 64); if(m.nr_variables() <= top) bad(K, "rebase leaves %zu variables", m.nr_variables()); same(h, to[x.id], "rebase"); if(top < 3 * (size_t)var(D.levels) && r.chance(1, 2)) keep(h, to[x.id]); }
        break; }
    case 17: put(any()); break;
    case 18: { long i = any_stored(), j = any_stored(), k = any_stored(); if(i < 0 || j < 0 || k < 0) break; const bool three = r.chance(1, 3);
        if(big(D.stored[i], opn) || big(D.stored[j], opn) || (three && big(D.stored[k], opn))) break;
        const int e = R.apply({D.stored[i], D.stored[j], three ? D.stored[k] : 1, 1}, AND, D.width ? 600000 : 200000); const size_t n = R.count(e) + 2, before = c.nr_bdds();
        size_t lim = r.chance(2, 3) ? ~size_t(0) : r.chance(1, 2) ? std::max<size_t>(3, n + r.below(3)) : 3 + r.below(n), g = 0; std::vector<size_t> l{(size_t)i, (size_t)j, (size_t)k};
        if(!call([&] { g = three ? c.bdd_and(l.begin(), l.end(), lim) : c.bdd_and((size_t)i, (size_t)j, lim); })) break; work_d("a conjunction of stored diagrams", 2 * R.tuples);
        if(n <= lim) { if(g != before || c.nr_bdds() != before + 1) { bad(K, "conjunction of stored diagrams with %zu entries under a limit of %zu is refused", n, lim); break; } D.stored.push_back(e); stored_ok(g, e, "conjunction of stored diagrams"); if(c.nr_bdd_nodes(g) != n) bad(K, "%zu entries instead of %zu", c.nr_bdd_nodes(g), n); }
        else if(g != ~size_t(0) || c.nr_bdds() != before) bad(K, "conjunction of stored diagrams with %zu entries under a limit of %zu is accepted", n, lim);
        break; }
    case 19: { long i = any_stored(); if(i < 0 || D.stored[i] < 2) break; std::unordered_map<size_t, size_t> pos, neg; const u32 k = (u32)r.range(1, r.chance(1, 3) ? D.levels : 20);
        for(u32 q = 0; q < k; ++q) { const u32 v = var((u32)r.below(D.levels)); if(pos.count(v) || neg.count(v)) continue; (r.chance(1, 2) ? pos : neg)[v] = 0; }
        std::vector<std::pair<u32, bool>> lits; for(auto& x : pos) lits.push_back({(u32)x.first, true}); for(auto& x : neg) lits.push_back({(u32)x.first, false});
        std::sort(lits.begin(), lits.end()); int cl = 0; for(size_t q = lits.size(); q-- > 0;) cl = lits[q].second ? R.mk(lits[q].first, cl, 1) : R.mk(lits[q].first, 1, cl);
        const int e = R.apply({D.stored[i], cl, 0, 0}, [](const Tup& t) { return t[0] == 1 || t[1] == 1 ? 1 : t[0] == 0 && t[1] == 0 ? 0 : -1; });
        size_t g = 0; const size_t before = c.nr_bdds();
        if(!call([&] { g = c.bdd_or_var((size_t)i, pos, neg); })) break; work_d("a disjunction with literals", R.tuples + R.count(e) + 20 * lits.size());
        if(g != before || c.nr_bdds() != before + 1) { bad(K, "disjunction with literals stored as %zu", g); break; }
        D.stored.push_back(e); stored_ok(g, e, "disjunction with literals");
        break; }
    case 20: { long i = any_stored(); if(i < 0) break; need_vars(var(D.levels - 1) + 1); node_ref h; std::vector<size_t> vs; size_t n = 0;
        if(R.support(D.stored[i]).empty() || R.support(D.stored[i]).back() < D.nv)
        { const bool imp = r.chance(1, 2); if(call([&] { h = imp ? m.add_bdd(c, i) : c.export_bdd(m, i); })) { const size_t nv0 = D.nv; restore(); work_d("a transfer into the manager", R.count(D.stored[i]) + 8 * (D.nv - nv0)); same(h, D.stored[i], "a diagram brought back into the manager"); keep(h, D.stored[i]); } }
        if(call([&] { vs = c.variables(i); }) && vs != R.support(D.stored[i])) bad(K, "a stored diagram lists %zu variables", vs.size());
        if(call([&] { n = c.nr_bdd_nodes(i); }) && n != R.count(D.stored[i]) + 2) bad(K, "a stored diagram reports %zu entries", n);
        { SutScope s; vs = {}; }
        break; }
    case 22: { const long i = any_stored(); if(i < 0) break; // graphviz output of a stored diagram
        LimBuf b(~size_t(0) >> 1, 0); std::ostream os(&b); dress(os, o.a[4] >> 20); const bdd_collection& cc = c;
        if(!call([&] { b.out.clear(); cc.export_graphviz((size_t)i, os); })) break;
        std::unordered_map<u64, u64> label; std::unordered_map<u64, std::array<long, 2>> arc; const int top = -1, bot = -2; std::unordered_map<u64, int> val; size_t terms = 0;
        const char* t = b.out.c_str(); bool ok = true;
        while(*t && ok)
        {
            const char* e = strchr(t, '\n'); const std::string l(t, e ? e - t : strlen(t)); t = e ? e + 1 : t + l.size();
            if(l.empty() || l[0] < '0' || l[0] > '9') continue;
            char* q; const u64 n = strtoull(l.c_str(), &q, 10);
            if(l.find("invis") != std::string::npos) continue;
            if(const char* ar = strstr(q, "->"))
            { const long to = strtol(ar + 2, nullptr, 10); auto& a = arc.insert({n, {-1, -1}}).first->second; const int side = l.find("dashed") == std::string::npos; ok = a[side] < 0; a[side] = to; }
            else if(const char* lb = strstr(q, "label=\""))
            { lb += 7; if(!strncmp(lb, "top", 3)) { val[n] = 1; ++terms; } else if(!strncmp(lb, "bot", 3)) { val[n] = 0; ++terms; } else ok = label.insert({n, strtoull(lb, nullptr, 10)}).second; }
        }
        (void)top; (void)bot;
        if(!ok || terms != 2 || label.size() != R.count(D.stored[i]) || arc.size() != label.size()) { bad(K, "graphviz output lists %zu nodes with arcs of %zu and %zu terminals instead of %zu nodes", label.size(), arc.size(), terms, R.count(D.stored[i])); break; }
        std::vector<u64> st{0}; size_t w = 0;
        while(!st.empty())
        {
            const u64 n = st.back(); if(val.count(n)) { st.pop_back(); continue; }
            auto it = arc.find(n); if(it == arc.end() || it->second[0] < 0 || it->second[1] < 0 || ++w > 4 * arc.size() + 10) { bad(K, "graphviz output: no arcs for node %llu", (unsigned long long)n); st.clear(); ok = false; break; }
            auto lo = val.find(it->second[0]), hi = val.find(it->second[1]);
            if(lo != val.end() && hi != val.end()) { const int a = lo->second, z = hi->second; const u64 v = label[n]; if(R.n[a].var <= v || R.n[z].var <= v) { bad(K, "graphviz output: not ordered at variable %llu", (unsigned long long)v); ok = false; break; } val[n] = R.mk((u32)v, a, z); st.pop_back(); continue; }
            if(hi == val.end()) st.push_back(it->second[1]);
            if(lo == val.end()) st.push_back(it->second[0]);
        }
        if(ok && val[0] != D.stored[i]) bad(K, "graphviz output shows another diagram (%u levels, %zu nodes)", D.levels, label.size());
        break; }
    case 23: { const long i = any_stored(); if(i < 0) break; // a stored diagram through its views
        auto ent = c[(size_t)i]; const size_t n = R.count(D.stored[i]); std::vector<size_t> vs;
        if(ent.nr_nodes() != n + 2) bad(K, "entry reports %zu nodes instead of %zu", ent.nr_nodes(), n + 2);
        const auto ns = R.nodes(D.stored[i]); const auto sup = R.support(D.stored[i]);
        if(call([&] { vs = ent.variables(); }) && vs != sup) bad(K, "entry lists %zu variables instead of %zu", vs.size(), sup.size());
        { SutScope s; vs = {}; }
        for(int k = 0; k < 3 && !sup.empty(); ++k) { const size_t v = sup[r.below(sup.size())]; size_t e = 0, g = 0; for(int x : ns) e += R.n[x].var == v; if(call([&] { g = ent.nr_nodes(v); }) && g != e) bad(K, "entry counts %zu nodes of variable %zu instead of %zu", g, v, e); }
        auto root = ent.root_node();
        for(int k = 0; k < 4; ++k)
        {
            int id = D.stored[i]; const u64 z = r.next(); bool g = false; size_t len = 0; std::unordered_map<u32, bool> as;
            for(int q = id; q > 1; ++len) { auto& y = R.n[q]; bool b = mix2(z, y.var) & 1; if(r.chance(3, 4)) { if(y.lo < 2 && y.hi > 1) b = true; if(y.hi < 2 && y.lo > 1) b = false; } as[y.var] = b; q = b ? y.hi : y.lo; id = q; }
            size_t walked = 0;
            std::function<void(BDD::bdd_collection_node)> last;
            const bool okw = call([&] { const auto cis = BDD::bdd_collection_entry(ent); auto x = cis.root_node(); walked = 0;
                while(!x.is_terminal() && walked <= len) { HostScope h; auto it = as.find((u32)x.variable()); if(it == as.end()) { walked = ~size_t(0) >> 1; break; } const bool b = it->second; tctx->in_sut = true; x = b ? x.hi() : x.lo(); ++walked; }
                g = x.is_topsink(); });
            if(okw && (walked != len || g != (id == 1))) bad(K, "walking down by an assignment ends after %zu nodes at %d instead of after %zu at %d", walked, g, len, id == 1);
        }
        if(n)
        {
            std::unordered_map<size_t, size_t> pos; size_t steps = 0; std::unordered_map<int, int> dummy;
            SutScope s; auto x = ent.first_node_postorder();
            for(;;)
            {
                HostScope h; const size_t me = std::hash<BDD::bdd_collection_node>()(x);
                if(x.is_terminal() || steps > n) { bad(K, "post-order stepping goes astray after %zu of %zu nodes", steps, n); break; }
                bool okc = pos.insert({me, steps}).second;
                for(int side = 0; side < 2; ++side) { auto ch = side ? x.hi() : x.lo(); okc &= ch.is_terminal() || pos.count(std::hash<BDD::bdd_collection_node>()(ch)); }
                if(!okc) { bad(K, "post-order stepping visits a node twice or before its child"); break; }
                ++steps; if(x == root) break;
                tctx->in_sut = true; x = x.next_postorder();
            }
            if(steps != n) bad(K, "post-order stepping visits %zu nodes of %zu", steps, n);
        }
        break; }
    case 24: { DItem x = any(); if(x.id < 2) break; // node by node
        auto ns = R.nodes(x.id); std::reverse(ns.begin(), ns.end()); const size_t n = ns.size(), before = c.nr_bdds(); size_t nr = 0;
        std::unordered_map<int, size_t> pos; for(size_t q = 0; q < n; ++q) pos[ns[q]] = q;
        if(r.chance(1, 2)) { std::stable_sort(ns.begin(), ns.end(), [&](int a, int b) { return R.n[a].var < R.n[b].var; }); for(size_t q = 0; q < n; ++q) pos[ns[q]] = q; }
        std::vector<BDD::bdd_collection_node> nd; nd.reserve(n);
        if(!call([&] { nr = c.new_bdd(); })) break;
        if(nr != before || c.nr_bdds() != before + 1) bad(K, "diagram begun as number %zu of %zu", nr, before);
        if(!call([&] { while(nd.size() < n) { auto y = c.add_bdd_node(R.n[ns[nd.size()]].var); HostScope h; nd.push_back(y); } })) break;
        auto set = [&](size_t q, int side) { const int ch = side ? R.n[ns[q]].hi : R.n[ns[q]].lo; SutScope s;
            if(ch > 1) { auto& y = nd[pos[ch]]; if(side) nd[q].set_hi_arc(y); else nd[q].set_lo_arc(y); }
            else if(side) { if(ch) nd[q].set_hi_to_1_terminal(); else nd[q].set_hi_to_0_terminal(); }
            else { if(ch) nd[q].set_lo_to_1_terminal(); else nd[q].set_lo_to_0_terminal(); } };
        const bool hole = r.chance(1, 3); const size_t hq = r.below(n); const int hs = (int)r.below(2);
        for(size_t q = 0; q < n; ++q) for(int side = 0; side < 2; ++side) if(!hole || q != hq || side != hs) set(q, side);
        bool refused = false; auto close = [&] { refused = false; return call([&] { try { c.close_bdd(); } catch(const std::runtime_error&) { refused = true; } }); };
        if(hole) { if(!close()) break; if(!refused) { bad(K, "closing a diagram with an unset arc is not reported"); deep.reset(); return; } set(hq, hs); }
        if(!close()) break;
        if(refused || c.nr_bdds() != before + 1 || c.nr_bdd_nodes(nr) != n + 2) { bad(K, "closing a complete diagram of %zu nodes: %s, %zu nodes", n, refused ? "refused" : "accepted", c.nr_bdd_nodes(nr)); deep.reset(); return; }
        D.stored.push_back(x.id); stored_ok(nr, x.id, "a diagram built in the collection");
        break; }
    default: { // removal, rebasing of a stored diagram
        if(D.stored.empty()) break;
        if(r.chance(1, 2))
        {
            std::vector<size_t> del; for(size_t i = 0; i < D.stored.size(); ++i) if(r.chance(1, 2)) del.push_back(i);
            if(!call([&] { c.remove(del.begin(), del.end()); })) break;
            { u64 tot = 0; for(int x : D.stored) tot += R.count(x) + 2; work_d("a removal", tot, 600); }
            for(size_t q = del.size(); q-- > 0;) D.stored.erase(D.stored.begin() + del[q]);
            if(c.nr_bdds() != D.stored.size()) { bad(K, "%zu diagrams after a removal instead of %zu", c.nr_bdds(), D.stored.size()); break; }
        }
        else
        {
            const size_t i = r.below(D.stored.size()); const auto sup = R.support(D.stored[i]); std::unordered_map<size_t, size_t> mp; size_t extra = r.below(3);
            if(!sup.empty() && sup.back() + 60 > 3 * (size_t)var(D.levels)) break;
            for(size_t v : sup) { if(extra < 50 && r.chance(1, 200)) ++extra; mp[v] = v + extra; }
            std::unordered_map<int, int> to; to[0] = 0; to[1] = 1; for(int x : R.nodes(D.stored[i])) to[x] = R.mk((u32)mp[R.n[x].var], to[R.n[x].lo], to[R.n[x].hi]);
            if(!call([&] { c.rebase(i, mp); })) break; work_d("rebasing a stored diagram", to.size(), 600);
            D.stored[i] = to[D.stored[i]];
        }
        for(size_t i = 0; i < D.stored.size(); ++i) stored_ok(i, D.stored[i], "a stored diagram after a change to others");
        break; }
    } } catch(const Budget&) { cnt(N_SKIPPED); }
    while(D.stored.size() > 12) { std::vector<size_t> del; for(size_t i = 0; i < 6; ++i) del.push_back(i); if(!call([&] { c.remove(del.begin(), del.end()); })) break; D.stored.erase(D.stored.begin(), D.stored.begin() + 6); for(size_t i = 0; i < D.stored.size(); ++i) stored_ok(i, D.stored[i], "a stored diagram after a removal"); }
    if(!D.pool.empty()) { auto& x = D.pool[r.below(D.pool.size())]; same(x.h, x.id, "a diagram held during other operations", C_DEEP | C_STABLE); }
    log(mix2(o.a[0] % DEEP_KINDS, m.nr_nodes())); log(D.stored.size());
    if(R.n.size() > (D.width ? 1500000 : 3000000)) deep.reset(); // a fresh start
}
} // namespace sim
