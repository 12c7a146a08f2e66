// Reference model for runs with many variables: an independent, never collecting, hash-consed reduced ordered diagram package.
#include "tt.h"
#include <algorithm>
#include <vector>

namespace sim {
bool WIDE = false;
namespace rb {
struct N { u32 lo, hi; int v; u64 hash, sup; };
static std::vector<N> n;
static std::vector<u32> tab;            // open addressing over n, 0 = empty
struct M { u32 f, g, h, r; };
static std::vector<M> memo;             // direct mapped
static u64 work = 0, limit = ~0ull;

void set_limit(u64 l) { work = 0; limit = l; }
static void tick() { if(++work > limit) { limit = ~0ull; throw Budget(); } }
void reset()
{
    n.clear(); n.push_back({0, 0, NV, 0x1111, 0}); n.push_back({1, 1, NV, 0x2222, 0});
    tab.assign(1 << 12, 0); memo.assign(1 << 16, M{0, 0, 0, ~0u});
}
static size_t key(int v, u32 lo, u32 hi) { return (size_t)mix2(((u64)lo << 32) | hi, (u64)v); }
u32 mk(int v, u32 lo, u32 hi)
{
    if(lo == hi) return lo;
    size_t m = tab.size() - 1, k = key(v, lo, hi) & m;
    for(; tab[k]; k = (k + 1) & m) { const N& x = n[tab[k]]; if(x.v == v && x.lo == lo && x.hi == hi) return tab[k]; }
    tick();
    const u32 id = (u32)n.size();
    n.push_back({lo, hi, v, mix2(mix2(n[lo].hash, n[hi].hash + 1), (u64)v), n[lo].sup | n[hi].sup | 1ull << v});
    tab[k] = id;
    if(n.size() * 2 > tab.size())
    {
        std::vector<u32> t(tab.size() * 2, 0); m = t.size() - 1;
        for(u32 i = 2; i < n.size(); ++i) { size_t q = key(n[i].v, n[i].lo, n[i].hi) & m; while(t[q]) q = (q + 1) & m; t[q] = i; }
        tab.swap(t);
    }
    return id;
}
u32 var(int v) { return mk(v, 0, 1); }
u32 ite(u32 f, u32 g, u32 h)
{
    if(f == 1 || g == h) return g;
    if(f == 0) return h;
    if(g == 1 && h == 0) return f;
    const int vf = n[f].v;
    if(n[f].lo == 0 && n[f].hi == 1 && vf < n[g].v && vf < n[h].v) return mk(vf, h, g);
    const size_t s = (size_t)(mix2(((u64)f << 32) | g, h) & (memo.size() - 1));
    if(memo[s].r != ~0u && memo[s].f == f && memo[s].g == g && memo[s].h == h) return memo[s].r;
    tick();
    const int v = std::min(vf, std::min(n[g].v, n[h].v));
    const u32 f0 = vf == v ? n[f].lo : f, f1 = vf == v ? n[f].hi : f, g0 = n[g].v == v ? n[g].lo : g, g1 = n[g].v == v ? n[g].hi : g, h0 = n[h].v == v ? n[h].lo : h, h1 = n[h].v == v ? n[h].hi : h;
    const u32 lo = ite(f0, g0, h0), hi = ite(f1, g1, h1), r = mk(v, lo, hi);
    memo[s] = {f, g, h, r};
    return r;
}
u32 cof(u32 f, int v, bool val)
{
    if(n[f].v > v || !(n[f].sup >> v & 1)) return f;
    if(n[f].v == v) return val ? n[f].hi : n[f].lo;
    std::unordered_map<u32, u32> m;
    struct R { static u32 go(u32 f, int v, bool val, std::unordered_map<u32, u32>& m) {
        if(n[f].v > v) return f;
        if(n[f].v == v) return val ? n[f].hi : n[f].lo;
        auto it = m.find(f); if(it != m.end()) return it->second;
        const u32 l = n[f].lo, h = n[f].hi; const int w = n[f].v;
        const u32 a = go(l, v, val, m), b = go(h, v, val, m), r = mk(w, a, b);
        m[f] = r; return r; } };
    return R::go(f, v, val, m);
}
// number of tuples that a simultaneous descent through all diagrams meets, at most cap
u32 tuples(const std::vector<u32>& f, u32 cap, bool conj)
{
    struct H { size_t operator()(const std::vector<u32>& v) const { u64 h = 7; for(u32 x : v) h = mix2(h, x); return h; } };
    std::unordered_set<std::vector<u32>, H> seen; std::vector<std::vector<u32>> st{f};
    while(!st.empty() && seen.size() < cap)
    {
        std::vector<u32> x = st.back(); st.pop_back();
        int v = NV; bool dead = false;
        for(u32 q : x) { v = std::min(v, n[q].v); dead |= q == 0 && conj; }
        if(dead || v == NV || !seen.insert(x).second) continue;
        std::vector<u32> lo = x, hi = x;
        for(size_t i = 0; i < x.size(); ++i) if(n[x[i]].v == v) { lo[i] = n[x[i]].lo; hi[i] = n[x[i]].hi; }
        st.push_back(lo); st.push_back(hi);
    }
    return (u32)seen.size();
}
int top(u32 f) { return n[f].v; }
u64 hash(u32 f) { return n[f].hash; }
u64 support(u32 f) { return n[f].sup; }
bool eval(u32 f, u32 a) { while(f > 1) f = abit(a, n[f].v) ? n[f].hi : n[f].lo; return f == 1; }
u32 size(u32 f)
{
    std::unordered_set<u32> seen; std::vector<u32> st{f};
    while(!st.empty()) { const u32 x = st.back(); st.pop_back(); if(x < 2 || !seen.insert(x).second) continue; st.push_back(n[x].lo); st.push_back(n[x].hi); }
    return (u32)seen.size();
}
u32 rename(u32 f, const int* map)
{ // map is increasing on the support
    std::unordered_map<u32, u32> m{{0, 0}, {1, 1}};
    std::vector<u32> st{f};
    while(!st.empty())
    {
        const u32 x = st.back();
        if(m.count(x)) { st.pop_back(); continue; }
        auto l = m.find(n[x].lo), h = m.find(n[x].hi);
        if(l == m.end()) { st.push_back(n[x].lo); continue; }
        if(h == m.end()) { st.push_back(n[x].hi); continue; }
        const u32 r = mk(map[n[x].v], l->second, h->second);
        m[x] = r; st.pop_back();
    }
    return m[f];
}
// number of solutions over the support, 2 standing for any larger number
int solutions(u32 f)
{
    if(f < 2) return (int)f;
    u64 s = n[f].sup; int c = 1;
    // exactly one solution: every variable of the support on the single path
    while(f > 1)
    {
        if(n[f].lo != 0 && n[f].hi != 0) return 2;
        if(!(s >> n[f].v & 1)) return 2;
        s &= ~(1ull << n[f].v);
        f = n[f].lo ? n[f].lo : n[f].hi;
    }
    return s ? 2 : c;
}
// an assignment (as a bit set over the variables) on which f is 1; f must not be constant 0
u64 witness(u32 f) { u64 a = 0; while(f > 1) { if(n[f].lo != 0) f = n[f].lo; else { a |= 1ull << n[f].v; f = n[f].hi; } } return a; }
u32 random(Rng& r, std::vector<int> vs, int flavour, u64 key)
{
    const size_t cap = flavour == 3 ? 28 : 9;
    while(vs.size() > cap) vs.erase(vs.begin() + r.below(vs.size()));
    const size_t k = vs.size();
    const u64 dens = flavour == 0 ? 50 : flavour == 1 ? 12 : flavour == 2 ? 88 : 50;
    if(flavour == 3)
    {
        std::vector<u32> row; for(size_t c = 0; c <= k; ++c) row.push_back(mix2(key, c) & 1);
        for(size_t i = k; i-- > 0;) { for(size_t c = 0; c <= i; ++c) row[c] = mk(vs[i], row[c], row[c + 1]); }
        return row[0];
    }
    std::vector<u32> row; for(u64 j = 0; j < 1ull << k; ++j) row.push_back(mix2(key, j) % 100 < dens);
    for(size_t i = k; i-- > 0;) { for(u64 j = 0; j < 1ull << i; ++j) row[j] = mk(vs[i], row[j], row[j | 1ull << i]); }
    return row[0];
}
} // namespace rb
} // namespace sim
