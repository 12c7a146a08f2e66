#include "scenario.h"
#include <sstream>
#include <algorithm>
#include <cstdio>
#include <map>

namespace sim {
const char* const kind_name[K_COUNT] = {
    "mgr", "mdel", "leaf", "bin", "not", "ite", "nary", "find", "rand", "card", "lim", "reb",
    "copy", "move", "assign", "self", "vec", "drop", "dropn", "die", "gc", "addv", "query", "queryall", "print",
    "cnew", "cdel", "cadd", "cand", "cnary", "corv", "creb", "crem", "cexp", "cgv", "cview", "cbuild", "ccopy",
    "audit", "grow", "wfind", "wdrop", "bigop", "memo", "depth", "deep", "turnover",
    "pnres", "pnfree", "pgres", "pgfree", "pnew"};

std::string to_text(const Scenario& s)
{
    std::ostringstream o;
    const Env& e = s.env;
    o << "lbdd-sim-scenario 1\nprop " << s.prop << "\nseed " << s.seed << "\n";
    o << "env hash_mode=" << e.hash_mode << " hash_seed=" << e.hash_seed << " heap_reuse=" << e.heap_reuse << " heap_place=" << e.heap_place
      << " heap_fill=" << e.heap_fill << " heap_seed=" << e.heap_seed << " stack_seed=" << s.stack_seed << "\n";
#ifdef SIM_THREADS
    o << "variant race\n";
    if(s.explicit_sched) { o << "schedule explicit"; for(auto& x : s.sw) o << " " << x.first << ":" << x.second; o << "\n"; }
    else o << "schedule seed " << s.sched_seed << "\n";
#elif defined SIM_ASAN
    o << "variant asan\n";
#endif
    o << "vars"; for(u32 v : s.act) o << " " << v; o << "\n";
    o << "teardown_rev " << s.teardown_rev << "\nonly " << s.only << "\n";
    for(const Op& p : s.ops)
    {
        o << "op " << p.id << " client=" << p.cl << " " << kind_name[p.kind];
        for(u32 a : p.a) o << " " << a;
        if(p.fault) o << " !alloc " << p.from << "+" << p.len;
        o << "\n";
    }
    o << "end\n";
    return o.str();
}
bool from_text(const std::string& t, Scenario& s)
{
    std::istringstream in(t); std::string line;
    if(!std::getline(in, line) || line.compare(0, 17, "lbdd-sim-scenario") != 0) return false;
    s = Scenario(); s.act.clear();
    while(std::getline(in, line))
    {
        if(line.empty() || line[0] == '#') continue;
        std::istringstream l(line); std::string w; l >> w;
        if(w == "end") return true;
        if(w == "prop") l >> s.prop;
        else if(w == "seed") l >> s.seed;
        else if(w == "env")
        {
            while(l >> w)
            {
                size_t q = w.find('='); std::string k = w.substr(0, q); u64 v = strtoull(w.c_str() + q + 1, nullptr, 10);
                if(k == "hash_mode") s.env.hash_mode = (int)v; else if(k == "hash_seed") s.env.hash_seed = v;
                else if(k == "heap_reuse") s.env.heap_reuse = (int)v; else if(k == "heap_place") s.env.heap_place = (int)v;
                else if(k == "heap_fill") s.env.heap_fill = (int)v; else if(k == "heap_seed") s.env.heap_seed = v;
                else if(k == "stack_seed") s.stack_seed = v;
            }
        }
        else if(w == "vars") { u32 v; while(l >> v) s.act.push_back(v); }
        else if(w == "variant") continue;
        else if(w == "schedule")
        {
            l >> w;
            if(w == "seed") l >> s.sched_seed;
            else { s.explicit_sched = true; while(l >> w) { size_t q = w.find(':'); s.sw.push_back({strtoull(w.c_str(), nullptr, 10), atoi(w.c_str() + q + 1)}); } }
        }
        else if(w == "teardown_rev") { int b; l >> b; s.teardown_rev = b; }
        else if(w == "only") l >> s.only;
        else if(w == "op")
        {
            Op p; std::string c, k; l >> p.id >> c >> k;
            p.cl = atoi(c.c_str() + c.find('=') + 1);
            p.kind = -1; for(int i = 0; i < K_COUNT; ++i) if(k == kind_name[i]) p.kind = i;
            if(p.kind < 0) return false;
            for(u32& a : p.a) l >> a;
            if(l >> w && w == "!alloc") { std::string f; l >> f; p.fault = true; p.from = strtoull(f.c_str(), nullptr, 10); p.len = strtoull(f.c_str() + f.find('+') + 1, nullptr, 10); }
            s.ops.push_back(p);
        }
        else return false;
    }
    return false;
}

u32 classes_of(const std::string& p)
{
    if(p == "C01") return C_SEM;
    if(p == "C02") return C_CANON;
    if(p == "C03") return C_STABLE;
    if(p == "C04") return C_GC | C_SEM | C_STABLE | C_CANON; // function/structure violations count only if they vanish without collections
    if(p == "C05") return C_POOL;
    if(p == "C06") return C_TRAV;
    if(p == "C07") return C_TRACE;
    if(p == "C08") return C_CARD;
    if(p == "C09") return C_LIMIT;
    if(p == "C10") return C_REBASE;
    if(p == "C11") return C_COLL;
    if(p == "C12") return C_CAND;
    if(p == "C13") return C_XFER;
    if(p == "C14") return C_SEM | C_STABLE | C_CANON | C_GC | C_CARD | C_LIMIT | C_REBASE | C_GROW | C_LEAK | C_TRAV; // only if clean without faults
    if(p == "C15") return C_COLL | C_CAND | C_XFER | C_VIEW | C_LEAK | C_GC | C_BUILD;                                        // only if clean without faults
    if(p == "C16") return 0;
    if(p == "C17") return 0;
    if(p == "C18") return C_GROW;
    if(p == "C19") return C_LEAK;
    if(p == "C20") return C_PRINT;
    if(p == "C21") return C_VIEW;
    if(p == "C22") return C_BUILD;
    if(p == "C23") return C_DEPTH;
    if(p == "C24") return C_DEEP;
    if(p == "C25") return C_WORK;
    return ~0u;
}

struct W { int k, w; };
static std::vector<W> weights(const std::string& p)
{
    const std::vector<W> base = {{K_LEAF, 4}, {K_BIN, 22}, {K_NOT, 6}, {K_ITE, 9}, {K_NARY, 5}, {K_FIND, 6}, {K_RAND, 6}};
    const std::vector<W> life = {{K_COPY, 2}, {K_DROP, 8}, {K_DROPN, 3}, {K_DIE, 2}, {K_GC, 6}, {K_ADDV, 2}};
    const std::vector<W> colb = {{K_CADD, 14}, {K_CAND, 10}, {K_CNRY, 6}, {K_CORV, 6}, {K_CREB, 5}, {K_CREM, 4}, {K_CEXP, 5}, {K_CNEW, 1}, {K_CDEL, 1}, {K_CCPY, 2}};
    std::vector<W> r;
    auto add = [&](const std::vector<W>& v, int mul = 1) { for(auto x : v) r.push_back({x.k, x.w * mul}); };
    auto one = [&](int k, int w) { r.push_back({k, w}); };
    if(p == "C01") { add(base); add(life); one(K_BIGOP, 1); one(K_MEMO, 4); one(K_CARD, 2); one(K_LIM, 2); one(K_REB, 2); }
    else if(p == "C02") { add(base); add(life); one(K_BIGOP, 1); one(K_MEMO, 2); one(K_CARD, 2); one(K_LIM, 2); one(K_REB, 3); one(K_GROW, 1); one(K_WDROP, 1); one(K_CADD, 1); one(K_CEXP, 2); }
    else if(p == "C03") { add(base); add(life); one(K_MEMO, 2); one(K_COPY, 4); one(K_MOVE, 4); one(K_ASGN, 5); one(K_SELF, 3); one(K_VEC, 4); one(K_QALL, 2); one(K_GROW, 1); one(K_WDROP, 1); one(K_LIM, 2); one(K_REB, 2); one(K_CARD, 1); one(K_ADDV, 3); one(K_PRN, 1); }
    else if(p == "C04") { add(base); add(life); one(K_BIGOP, 1); one(K_MEMO, 6); one(K_DROP, 8); one(K_DROPN, 6); one(K_DIE, 3); one(K_GC, 14); one(K_GROW, 4); one(K_WDROP, 5); one(K_WFIND, 2); one(K_LIM, 2); one(K_REB, 2); one(K_QRY, 2); one(K_VEC, 1); one(K_ASGN, 1); one(K_CADD, 1); one(K_CEXP, 1); }
    else if(p == "C06") { add(base); add(life); one(K_QRY, 30); one(K_QALL, 12); one(K_PRN, 2); one(K_CARD, 3); }
    else if(p == "C07") { add(base); add(life); one(K_QRY, 36); one(K_PRN, 16); one(K_QALL, 6); one(K_CARD, 2); }
    else if(p == "C08") { add(base); add(life); one(K_CARD, 45); }
    else if(p == "C09") { add(base); add(life); one(K_LIM, 45); one(K_CARD, 2); }
    else if(p == "C10") { add(base); add(life); one(K_REB, 40); one(K_GROW, 1); }
    else if(p == "C11") { add(base); add(colb, 2); one(K_DROPN, 3); one(K_GC, 3); one(K_CREM, 8); one(K_CORV, 18); one(K_CREB, 10); one(K_AUD, 5); }
    else if(p == "C12") { add(base); add(colb); one(K_DROPN, 3); one(K_GC, 2); one(K_CAND, 30); one(K_CNRY, 22); one(K_CADD, 10); }
    else if(p == "C13") { add(base); add(colb); one(K_DROPN, 4); one(K_DIE, 2); one(K_GC, 5); one(K_CADD, 20); one(K_CEXP, 36); one(K_MGR, 2); one(K_MDEL, 1); }
    else if(p == "C14") { add(base); add(life); one(K_GROW, 3); one(K_WDROP, 2); one(K_LIM, 4); one(K_REB, 5); one(K_CARD, 4); one(K_ADDV, 4); one(K_QRY, 6); one(K_MGR, 1); one(K_GC, 4); }
    else if(p == "C15") { add(base); add(colb, 3); one(K_CVIEW, 2); one(K_CBLD, 4); one(K_GC, 3); one(K_DROPN, 3); one(K_CGV, 2); }
    else if(p == "C16") { add(base); add(life); add(colb); one(K_GROW, 1); one(K_LIM, 3); one(K_REB, 3); one(K_CARD, 2); one(K_QALL, 5); one(K_PRN, 1); one(K_CGV, 1); one(K_CVIEW, 1); one(K_CBLD, 1); one(K_VEC, 1); one(K_ASGN, 1); one(K_CNEW, 2); one(K_CDEL, 2); one(K_MGR, 5); one(K_MDEL, 5); one(K_TURN, 2); }
    else if(p == "C17") { add(base); add(life); add(colb); one(K_GROW, 1); one(K_WDROP, 1); one(K_LIM, 8); one(K_REB, 5); one(K_CARD, 4); one(K_QALL, 14); one(K_CGV, 3); one(K_CVIEW, 2); one(K_GC, 5); }
    else if(p == "C18") { add(base); add(life); one(K_BIGOP, 3); one(K_GROW, 14); one(K_WFIND, 10); one(K_WDROP, 5); one(K_ADDV, 12); one(K_FIND, 8); one(K_GC, 2); one(K_LEAF, 6); }
    else if(p == "C19") { add(base); add(life); add(colb); one(K_MGR, 6); one(K_MDEL, 6); one(K_CNEW, 4); one(K_CDEL, 5); one(K_GROW, 3); one(K_WDROP, 2); one(K_QALL, 3); one(K_REB, 2); one(K_LIM, 2); one(K_CARD, 2); one(K_CGV, 1); one(K_PRN, 1); one(K_VEC, 2); one(K_MOVE, 1); one(K_ASGN, 2); one(K_CVIEW, 1); one(K_GC, 4); one(K_ADDV, 3); one(K_TURN, 1); }
    else if(p == "C20") { add(base); add(colb); one(K_PRN, 34); one(K_CGV, 30); one(K_DROPN, 2); one(K_GC, 2); one(K_BIGOP, 2); one(K_GROW, 1); one(K_WDROP, 1); }
    else if(p == "C21") { add(base); add(colb, 2); one(K_CVIEW, 40); one(K_CREM, 5); one(K_CORV, 6); one(K_CAND, 8); }
    else if(p == "C22") { add(base); add(colb, 2); one(K_CBLD, 40); one(K_CVIEW, 8); one(K_GC, 1); }
    else if(p == "C23") { add(base); add(life); one(K_DEPTH, 30); one(K_CARD, 2); one(K_GROW, 1); }
    else if(p == "C25") { add(base); add(life); add(colb, 2); one(K_BIN, 8); one(K_NOT, 10); one(K_ITE, 5); one(K_RAND, 14); one(K_LIM, 10); one(K_REB, 6); one(K_QRY, 16); one(K_CEXP, 6); one(K_CARD, 2); one(K_PRN, 1); one(K_CGV, 1); one(K_GROW, 1); }
    return r;
}

Env random_env(Rng& r)
{
    Env e;
    static const int hm[] = {0, 0, 0, 0, 1, 1, 2, 3, 4, 5};
    e.hash_mode = hm[r.below(10)]; e.hash_seed = 1 + (r.next() >> 20);
    e.heap_reuse = (int)r.below(4); e.heap_place = (int)r.below(3); e.heap_fill = (int)r.below(3);
    e.heap_seed = 1 + (r.next() >> 20);
    return e;
}

static Scenario generate_pools(const std::string& prop, u64 seed, bool thorough)
{
    Scenario s; s.prop = prop; s.seed = seed; s.act = {0};
    Rng r(mix2(seed, 555));
    s.env = random_env(r); s.stack_seed = r.below(1000);
    const int n = (int)r.range(20, thorough ? 900 : 300);
    const int wres = (int)r.range(2, 9), wfree = (int)r.range(1, 9), wn = (int)r.range(0, 4);
    for(int i = 0; i < n; ++i)
    {
        Op o; o.id = i; o.cl = (int)r.below(3);
        const int x = (int)r.below(wres + wfree + 2 * wn + 1);
        o.kind = x < wres ? K_PGRES : x < wres + wfree ? K_PGFREE : x < wres + wfree + wn ? K_PNRES : x < wres + wfree + 2 * wn ? K_PNFREE : K_PNEW;
        for(u32& a : o.a) a = (u32)(r.next() >> 33);
        if((o.kind == K_PGRES || o.kind == K_PNRES) && r.chance(1, 6)) { o.fault = true; o.from = 0; o.len = r.chance(1, 2) ? 1 : 1 + r.below(3); if(r.chance(1, 3)) o.from = 1; }
        s.ops.push_back(o);
    }
    return s;
}

// operations on deep diagrams that a property is about; none: no deep runs for it
static const std::vector<u32>& deep_focus(const std::string& p)
{
    static const std::map<std::string, std::vector<u32>> f = {
        {"C01", {1, 2, 3, 4, 5, 6}}, {"C02", {0, 1, 2, 3, 5, 14, 16, 20}}, {"C03", {1, 3, 5, 14, 15, 16}}, {"C04", {1, 2, 3, 5, 14, 14, 15, 15}}, {"C06", {10, 11, 12}}, {"C08", {9}}, {"C09", {7, 8}}, {"C10", {16}},
        {"C11", {19, 21, 21}}, {"C12", {18}}, {"C13", {17, 20}}, {"C21", {23, 23, 21}}, {"C22", {24}}, {"C18", {0, 16}}, {"C19", {0, 1, 5, 14, 17, 18, 21}}, {"C20", {13, 22}}, {"C25", {1, 3, 5, 8, 10, 11, 16, 18}}};
    static const std::vector<u32> none;
    auto it = f.find(p); return it == f.end() ? none : it->second;
}
static Scenario generate_deep(const std::string& prop, u64 seed, bool thorough, bool broad)
{
    std::vector<u32> focus = deep_focus(prop);
    Scenario s; s.prop = prop; s.seed = seed; s.act = {0};
    Rng r(mix2(seed, 556));
    if(prop == "C16") { Rng q(mix2(seed, 557)); focus = {(u32)q.below(DEEP_KINDS)}; if(q.chance(1, 2)) focus.push_back((u32)q.below(DEEP_KINDS)); } // clients that do the same things
    s.env = random_env(r); s.env.hash_mode = 0; s.stack_seed = r.below(1000); s.teardown_rev = r.chance(1, 2);
    const int n = prop == "C16" ? (int)r.range(6, thorough ? 50 : 24) : (int)r.range(3, broad ? (thorough ? 20 : 6) : thorough ? 60 : 24);
    int cl = 0;
    if(prop == "C16") s.sched_seed = mix2(seed, 909) >> 1;
    for(int i = 0; i < n; ++i)
    {
        Op o; o.id = i; o.kind = K_DEEP;
        if(prop == "C16") { if(i < 2) cl = i; else if(r.chance(1, 2)) cl = (int)r.below(3); o.cl = cl; }
        for(u32& a : o.a) a = (u32)(r.next() >> 33);
        if(broad) o.a[5] = BROAD;
        if(!focus.empty() && r.chance(prop == "C16" ? 4 : 3, 5)) o.a[0] = focus[r.below(focus.size())];
        if((prop == "C24" || prop == "C16") && r.chance(1, 12)) { o.fault = true; o.from = r.below(r.chance(1, 2) ? 40 : 4000); o.len = r.chance(1, 2) ? 1 : 1 + r.below(5); }
        s.ops.push_back(o);
    }
    return s;
}

Scenario generate(const std::string& prop, u64 seed, bool thorough, u64 index)
{
    if(!deep_focus(prop).empty() || prop == "C24")
    {
        Rng q(mix2(seed, 5151));
        if((index >= 1 && index <= 16 && prop != "C19") || q.chance(1, prop == "C24" ? 30 : 1000)) return generate_deep(prop, seed, thorough, true);
        if(prop == "C24" || Rng(mix2(seed, 5150)).chance(1, 60)) return generate_deep(prop, seed, thorough, false);
    }
    if(prop == "C16" && ((index >= 1 && index <= 12) || Rng(mix2(seed, 5152)).chance(1, 7))) return generate_deep(prop, seed, thorough, Rng(mix2(seed, 5153)).chance(1, 2));
    if(prop == "C05") return generate_pools(prop, seed, thorough);
    Scenario s; s.prop = prop; s.seed = seed;
    Rng r(mix2(seed, 12345));
    s.env = random_env(r); s.stack_seed = r.below(1000); s.sched_seed = mix2(seed, 909) >> 1;
    if(r.chance(1, 10)) s.env.hash_mode = 0;
    // active variables: sometimes dense, sometimes sparse
    int n = (int)r.range(2, 7); if(r.chance(1, 4)) n = 8; if(thorough && r.chance(1, 12)) n = 9;
    if(prop == "C18" && n < 6) n = (int)r.range(6, 8);
    // runs with many variables and larger diagrams
    const bool wide = prop == "C25" || Rng(mix2(seed, 41337)).chance(1, prop == "C18" ? 20 : 8);
    if(wide) { Rng q(mix2(seed, 41338)); n = q.chance(1, 3) ? (int)q.range(32, 60) : (int)q.range(11, 31); s.env.hash_mode = 0; }
    u32 v = r.chance(1, 2) ? 0 : (u32)r.below(5);
    const u32 gap = r.chance(1, 2) ? 1 : (u32)r.range(1, r.chance(1, 6) ? 60 : 5);
    Rng far(mix2(seed, 5551)); // very many variables
    if(prop != "C16" && prop != "C25" && far.chance(1, prop == "C18" ? 100 : 600)) v += (u32)far.range(65500, 65537);
    for(int i = 0; i < n; ++i) { s.act.push_back(v); v += 1 + (u32)r.below(gap); }
    s.teardown_rev = r.chance(1, 2);
    const int clients = (int)r.range(prop == "C16" ? 2 : 1, 3);
    std::vector<W> w = weights(prop);
    // swarm: drop some kinds, amplify others
    for(auto& x : w)
    {
        const u64 q = r.below(10);
        if(q < 2) x.w = (x.w + 3) / 4; else if(q == 2) x.w *= 3;
        if(r.chance(1, 12) && x.k != K_CADD) x.w = 0;
    }
    int tot = 0; for(auto& x : w) tot += x.w;
    int len = r.chance(1, 3) ? (int)r.range(4, 20) : r.chance(1, 2) ? (int)r.range(15, 60) : (int)r.range(40, thorough ? 220 : 130);
    if(wide) len = std::min(len, thorough ? 90 : 50);
    const bool big = prop == "C18" && !wide && r.chance(1, thorough ? 25 : 120);      // one very large table
    const bool big2 = big && r.chance(2, 5);                                  // or two
    const int growcap = big ? 1 + big2 : prop == "C18" ? 6 : 3;
    int grows = 0, bigops = 0; bool deepdepth = false;
    bool badhash = s.env.hash_mode != 0 && s.env.hash_mode != 4;
    // a client acts in short bursts: interleavings have structure
    int cl = 0, burst = 0;
    const u32 nm = prop == "C13" || prop == "C19" || prop == "C16" ? 2 : 1;
    for(u32 i = 0; i < nm; ++i) if(prop != "C16") { Op o; o.kind = K_MGR; o.id = (int)s.ops.size(); s.ops.push_back(o); }
    for(int i = 0; i < len && (int)s.ops.size() < MAXOPS - 40; ++i)
    {
        if(burst-- <= 0) { cl = (int)r.below(clients); burst = (int)r.below(5); }
        Op o; o.cl = cl; o.id = (int)s.ops.size();
        int x = (int)r.below(tot); size_t k = 0;
        while(x >= w[k].w) { x -= w[k].w; ++k; }
        o.kind = w[k].k;
        if(i == 0 && r.chance(1, 2)) o.kind = K_RAND;
        for(u32& a : o.a) a = (u32)(r.next() >> 33);
        if(prop == "C25" && o.kind == K_RAND && r.chance(3, 5)) { o.a[1] |= 3; o.a[2] = o.a[2] / 64 * 64 + 63; } // few nodes, very many paths
        if(o.kind == K_MEMO) o.a[5] |= 2;
        if(o.kind == K_DEPTH) { o.a[5] = 0; if(!deepdepth && r.chance(1, 400)) { deepdepth = true; o.a[5] = 0xdeeb; o.a[3] = (u32)(r.chance(1, 2) ? r.range(65000, 90000) : r.range(200, 70000)); } }
        if(o.kind == K_BIGOP)
        {
            if(s.env.hash_mode != 0 || big || ++bigops > 2) o.kind = K_GC;
            else
            {
                o.a[1] = (u32)r.range(2, r.chance(1, 4) ? 60 : 20); o.a[2] = (u32)r.range(3, r.chance(1, 3) ? 18 : 12);
                if(prop == "C18" && r.chance(1, thorough ? 10 : 30)) { o.a[1] = (u32)r.range(60, 400); o.a[2] = (u32)r.range(14, 21); }
                if(prop == "C18" && r.chance(1, thorough ? 60 : 300)) { o.a[1] = (u32)r.range(600, 800); o.a[2] = (u32)r.range(22, 26); }
            }
        }
        if(o.kind == K_GROW)
        {
            if(++grows > growcap) o.kind = K_BIN;
            else
            {
                o.a[2] = (u32)r.range(3, 40);
                o.a[3] = (u32)r.range(20, r.chance(1, 3) ? 1500 : 250);
                if(prop == "C18" || prop == "C04") { o.a[2] = (u32)r.range(8, 130); o.a[3] = (u32)r.range(60, r.chance(1, 4) ? 14000 : 1500); }
                if((prop == "C14" || prop == "C19") && r.chance(1, 3)) { o.a[2] = (u32)r.range(80, 160); o.a[3] = (u32)r.range(3500, prop == "C19" ? 20000 : 13000); }
                if(s.env.hash_mode == 4) { o.a[2] = std::min<u32>(o.a[2], 80); o.a[3] = std::min<u32>(o.a[3], 2500); } // consecutive keys cluster: quadratic probing is legitimate
                if(badhash) { o.a[2] = std::min<u32>(o.a[2], 40); o.a[3] = std::min<u32>(o.a[3], 500); }
                if(big2) { s.env.hash_mode = 0; badhash = false; o.a[1] = grows - 1; o.a[2] = 720; o.a[3] = (u32)r.range(131200, 140000); o.a[0] = 0; }
                else if(big && grows == 1) { s.env.hash_mode = 0; badhash = false; o.a[1] = 0; o.a[2] = 720; o.a[3] = (u32)(r.chance(1, 2) ? r.range(30000, 140000) : r.range(250000, 500000)); if(r.chance(1, 4)) { o.a[2] = 1060; o.a[3] = thorough && r.chance(1, 3) ? 1050000 : (u32)r.range(700000, 990000); } o.a[5] |= 2; }
            }
        }
        if(big && (o.kind == K_BIN || o.kind == K_RAND || o.kind == K_ITE || o.kind == K_NARY) && r.chance(3, 4)) o.kind = r.chance(1, 2) ? K_WFIND : K_ADDV;
        // a client that runs out of memory is no concern of the others
        if(prop == "C16" && r.chance(1, 12)) { o.fault = true; o.from = r.below(r.chance(1, 2) ? 6 : 60); o.len = r.chance(2, 3) ? 1 : 1 + r.below(4); }
        s.ops.push_back(o);
    }
    if(big) { while(s.ops.size() > 30) s.ops.pop_back(); while(s.act.size() < 8) { s.act.push_back(s.act.back() + 1); } }
    if(prop == "C18" && index == 0)
    { // the first run of every search fills the table of one variable to its capacity
        s.env = Env(); s.act.clear(); for(u32 i = 0; i < 8; ++i) s.act.push_back(i);
        s.ops.clear();
        auto op = [&](int kind, u32 a1, u32 a2, u32 a3) { Op o; o.kind = kind; o.id = (int)s.ops.size(); for(u32& a : o.a) a = (u32)(r.next() >> 33); o.a[0] = 0; o.a[1] = a1; o.a[2] = a2; o.a[3] = a3; o.a[5] |= 2; s.ops.push_back(o); };
        op(K_MGR, 0, 0, 0); op(K_RAND, 3, 7, 0); op(K_RAND, 1, 6, 0); op(K_GROW, 0, 1060, 1050000);
        for(int i = 0; i < 3; ++i) op(K_WFIND, (u32)r.below(1000), (u32)r.below(1000), (u32)r.below(1000));
        op(K_BIN, 0, 0, 1); op(K_WDROP, 0, 0, 0); op(K_GC, 0, 0, 0); op(K_GROW, 0, 60, 2000);
    }
    if(index == 0 && (prop == "C01" || prop == "C02" || prop == "C04"))
    { // operations that take the operation cache to its largest size
        s.env = Env(); s.act.clear(); for(u32 i = 0; i < 8; ++i) s.act.push_back(i);
        s.ops.clear();
        auto op = [&](int kind, u32 a1 = 0, u32 a2 = 0) { Op o; o.kind = kind; o.id = (int)s.ops.size(); for(u32& a : o.a) a = (u32)(r.next() >> 33); o.a[0] = 0; if(a1) { o.a[1] = a1; o.a[2] = a2; } s.ops.push_back(o); };
        op(K_MGR); for(int i = 0; i < 4; ++i) op(K_RAND, 3, 7);
        for(int k = 0; k < 2; ++k)
        {
            op(K_BIGOP, (u32)r.range(650, 800), k ? (u32)r.range(23, 26) : (u32)r.range(26, 28)); s.ops.back().a[4] = k ? (u32)r.below(6) : 2;
            for(int i = 0; i < 6; ++i) { op(i % 3 == 2 ? K_ITE : K_BIN); s.ops.back().a[0] = (u32)r.below(60); }
            op(K_GC); for(int i = 0; i < 3; ++i) { op(K_BIN); s.ops.back().a[0] = (u32)r.below(60); }
        }
    }
    return s;
}

// aim allocation failures at allocations that the fault-free execution of the same scenario made
void add_faults(Scenario& s, const u32* op_allocs, u64 seed)
{
    Rng r(mix2(seed, 777));
    std::vector<size_t> cand;
    for(size_t i = 0; i < s.ops.size(); ++i) if(s.ops[i].id < MAXOPS && op_allocs[s.ops[i].id]) cand.push_back(i);
    if(cand.empty()) return;
    const size_t n = 1 + r.below(std::min<size_t>(cand.size(), r.chance(1, 3) ? 12 : 4));
    for(size_t q = 0; q < n; ++q)
    {
        size_t pk = cand[r.below(cand.size())];
        if(r.chance(1, 4)) for(size_t i : cand) if(s.ops[i].kind == K_GROW && !s.ops[i].fault) pk = i;
        Op& o = s.ops[pk];
        const u32 a = op_allocs[o.id];
        o.fault = true;
        o.from = r.chance(1, 4) ? a - 1 : r.chance(1, 4) ? 0 : r.below(a);
        o.len = r.chance(2, 3) ? 1 : r.chance(1, 2) ? 1 + r.below(4) : 1000000;
    }
}
} // namespace sim
