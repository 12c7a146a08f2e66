// Reference model of Boolean functions: one bit per assignment of the run's active variables, or, in runs with many
// variables, the number of a node of an independent diagram package (refbdd.cpp).
#pragma once
#include "seams.h"
#include <cstring>
#include <vector>
#include <unordered_set>
#include <unordered_map>

namespace sim {
constexpr int MAXN = 10;
extern int NV;   // active variables of this run
extern int NW;   // words used
extern bool WIDE; // many variables
constexpr int MAXV = 64;
// value of variable v in assignment number a
inline bool abit(u32 a, int v) { return WIDE ? mix2(0x51ull + a, (u64)v) & 1 : a >> v & 1; }
inline u32 nassign() { return WIDE ? 0x7fffffffu : 1u << NV; }
namespace rb {
struct Budget {};
void reset(); void set_limit(u64 l);
u32 mk(int v, u32 lo, u32 hi); u32 var(int v); u32 ite(u32 f, u32 g, u32 h); u32 cof(u32 f, int v, bool val);
int top(u32 f); u64 hash(u32 f); u64 support(u32 f); bool eval(u32 f, u32 a); u32 size(u32 f); u32 rename(u32 f, const int* map);
int solutions(u32 f); u32 tuples(const std::vector<u32>& f, u32 cap, bool conj); u64 witness(u32 f); u32 random(Rng& r, std::vector<int> vs, int flavour, u64 key);
}
inline void tt_setup(int n) { NV = n; WIDE = n > MAXN; NW = n <= 6 || WIDE ? 1 : 1 << (n - 6); if(WIDE) rb::reset(); }

struct TT {
    u64 w[1 << (MAXN - 6)];
    TT() { memset(w, 0, sizeof w); }
    bool operator==(const TT& o) const { return memcmp(w, o.w, NW * 8) == 0; }
    bool operator!=(const TT& o) const { return !(*this == o); }
    bool get(u32 i) const { return WIDE ? rb::eval((u32)w[0], i) : w[i >> 6] >> (i & 63) & 1; }
    void set(u32 i) { w[i >> 6] |= 1ull << (i & 63); }
};
inline TT tt_id(u32 i) { TT t; t.w[0] = i; return t; }
inline u32 tt_node(const TT& t) { return (u32)t.w[0]; }
inline u64 tt_mask() { return NV >= 6 ? ~0ull : (1ull << (1u << NV)) - 1; }
inline TT tt_const(bool b) { if(WIDE) return tt_id(b); TT t; if(b) for(int i = 0; i < NW; ++i) t.w[i] = tt_mask(); return t; }
inline u64 tt_varword(int v)
{
    static const u64 m[6] = {0xaaaaaaaaaaaaaaaaull, 0xccccccccccccccccull, 0xf0f0f0f0f0f0f0f0ull, 0xff00ff00ff00ff00ull, 0xffff0000ffff0000ull, 0xffffffff00000000ull};
    return m[v];
}
inline TT tt_var(int v)
{
    if(WIDE) return tt_id(rb::var(v));
    TT t;
    for(int i = 0; i < NW; ++i)
        t.w[i] = (v < 6 ? tt_varword(v) : ((i >> (v - 6)) & 1 ? ~0ull : 0ull)) & tt_mask();
    return t;
}
inline TT tt_not(const TT& a) { if(WIDE) return tt_id(rb::ite(tt_node(a), 0, 1)); TT t; for(int i = 0; i < NW; ++i) t.w[i] = ~a.w[i] & tt_mask(); return t; }
inline TT tt_and(const TT& a, const TT& b) { if(WIDE) return tt_id(rb::ite(tt_node(a), tt_node(b), 0)); TT t; for(int i = 0; i < NW; ++i) t.w[i] = a.w[i] & b.w[i]; return t; }
inline TT tt_or(const TT& a, const TT& b) { if(WIDE) return tt_id(rb::ite(tt_node(a), 1, tt_node(b))); TT t; for(int i = 0; i < NW; ++i) t.w[i] = a.w[i] | b.w[i]; return t; }
inline TT tt_xor(const TT& a, const TT& b) { if(WIDE) return tt_id(rb::ite(tt_node(a), rb::ite(tt_node(b), 0, 1), tt_node(b))); TT t; for(int i = 0; i < NW; ++i) t.w[i] = a.w[i] ^ b.w[i]; return t; }
inline TT tt_ite(const TT& f, const TT& g, const TT& h) { if(WIDE) return tt_id(rb::ite(tt_node(f), tt_node(g), tt_node(h))); TT t; for(int i = 0; i < NW; ++i) t.w[i] = (f.w[i] & g.w[i]) | (~f.w[i] & h.w[i] & tt_mask()); return t; }
inline TT tt_cof(const TT& a, int v, bool val)
{
    if(WIDE) return tt_id(rb::cof(tt_node(a), v, val));
    TT t;
    if(v < 6)
    {
        const u64 m = tt_varword(v); const int s = 1 << v;
        for(int i = 0; i < NW; ++i)
        {
            u64 x = val ? a.w[i] & m : a.w[i] & ~m;
            t.w[i] = (val ? x | (x >> s) : x | (x << s)) & tt_mask();
        }
    }
    else
    {
        const int s = 1 << (v - 6);
        for(int i = 0; i < NW; ++i) t.w[i] = a.w[val ? (i | s) : (i & ~s)];
    }
    return t;
}
inline bool tt_is(const TT& a, bool b) { return a == tt_const(b); }
inline bool tt_dep(const TT& a, int v) { if(WIDE) return rb::support(tt_node(a)) >> v & 1; return tt_cof(a, v, false) != tt_cof(a, v, true); }
inline u64 tt_support(const TT& a) { if(WIDE) return rb::support(tt_node(a)); u64 m = 0; for(int v = 0; v < NV; ++v) if(tt_dep(a, v)) m |= 1ull << v; return m; }
inline int tt_top(const TT& a) { if(WIDE) return rb::top(tt_node(a)); for(int v = 0; v < NV; ++v) if(tt_dep(a, v)) return v; return NV; }
inline u64 tt_hash(const TT& a) { if(WIDE) return rb::hash(tt_node(a)); u64 h = 1469; for(int i = 0; i < NW; ++i) h = mix2(h, a.w[i]); return h; }
inline u32 tt_count(const TT& a) { u32 c = 0; for(int i = 0; i < NW; ++i) c += __builtin_popcountll(a.w[i]); return c; }
struct TTHash { size_t operator()(const TT& t) const { return tt_hash(t); } };
// number of internal nodes of the reduced ordered diagram
inline u32 tt_size(const TT& a)
{
    if(WIDE) return rb::size(tt_node(a));
    std::unordered_set<TT, TTHash> seen;
    std::vector<TT> st{a};
    u32 n = 0;
    while(!st.empty())
    {
        TT f = st.back(); st.pop_back();
        int v = tt_top(f);
        if(v == NV || !seen.insert(f).second) continue;
        ++n;
        st.push_back(tt_cof(f, v, false)); st.push_back(tt_cof(f, v, true));
    }
    return n;
}
// solutions over the support, exact up to 1
inline u32 tt_solutions(const TT& a) { if(WIDE) return (u32)rb::solutions(tt_node(a)); return tt_count(a) >> (NV - __builtin_popcountll(tt_support(a))); }
// rename variable v to map[v] (injective on the support)
inline TT tt_rename(const TT& a, const int* map)
{
    if(WIDE) return tt_id(rb::rename(tt_node(a), map));
    const u64 sup = tt_support(a);
    TT t;
    for(u32 i = 0; i < (1u << NV); ++i)
    {
        u32 j = 0;
        for(int v = 0; v < NV; ++v) if(sup >> v & 1) j |= ((i >> map[v]) & 1u) << v;
        if(a.get(j)) t.set(i);
    }
    return t;
}
inline TT tt_random(Rng& r, u64 vars, int flavour)
{
    // random function of the variables in the bit set vars
    TT t = tt_const(false);
    std::vector<int> vs; for(int v = 0; v < NV; ++v) if(vars >> v & 1) vs.push_back(v);
    const u64 key = r.next();
    if(WIDE) return tt_id(rb::random(r, vs, flavour, key));
    const u64 dens = flavour == 0 ? 50 : flavour == 1 ? 12 : flavour == 2 ? 88 : 50;
    for(u32 i = 0; i < (1u << NV); ++i)
    {
        u32 j = 0; for(size_t k = 0; k < vs.size(); ++k) j |= ((i >> vs[k]) & 1u) << k;
        bool b;
        if(flavour == 3) b = (mix2(key, __builtin_popcount(j)) & 1); // symmetric
        else b = mix2(key, j) % 100 < dens;
        if(b) t.set(i);
    }
    return t;
}
} // namespace sim
