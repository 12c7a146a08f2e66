// Operations on diagram collections.
#include "world.h"
#include "world_impl.h"
#include <set>
#include <list>
#include <unordered_set>
#include <stdexcept>
#include <deque>

namespace sim {
extern thread_local std::vector<u32>* g_act;
constexpr size_t NPOS = std::numeric_limits<size_t>::max();

// With many variables the function is read from the stored structure and compared with sampled evaluations. If the
// structure says something else than expected, an assignment on which they differ is evaluated: evaluation decides.
TT World::read_wide(int c, size_t i, const TT* exp)
{
    const bdd_collection& cc = *cols[c].c;
    std::vector<char> a(act.back() + 1, 0);
    auto eval = [&] { bool b; { SutScope s; b = cc.evaluate(i, a.begin(), a.end()); } return b; };
    TT f; bool readable = true;
    {
        auto p = cc.get_bdd_instructions(i);
        const size_t n = p.second - p.first; if(!n) return tt_const(false);
        const size_t base = cc.offset(*p.first);
        std::vector<TT> g(n);
        for(size_t q = n; q-- > 0 && readable;)
        {
            const auto& x = *(p.first + q);
            if(x.is_topsink()) g[q] = tt_const(true);
            else if(x.is_botsink()) g[q] = tt_const(false);
            else
            {
                const int v = actidx((u32)x.index);
                if(v < 0 || x.lo < base || x.hi < base || x.lo - base <= q || x.hi - base <= q || x.lo - base >= n || x.hi - base >= n) { readable = false; break; }
                g[q] = tt_ite(tt_var(v), g[x.hi - base], g[x.lo - base]);
            }
        }
        if(readable) f = g[0];
    }
    if(!exp) return readable ? f : tt_const(false);
    for(u32 q = 0; q < 12; ++q)
    {
        const u32 x = (u32)(mix2(op ? op->id : 0, q) % nassign());
        for(int v = 0; v < NV; ++v) a[act[v]] = abit(x, v);
        if(eval() != exp->get(x)) return readable && f != *exp ? f : tt_not(*exp);
    }
    if(readable && f != *exp)
    {
        const u64 x = rb::witness(tt_node(tt_xor(f, *exp)));
        bool e = false; // the expected value
        for(int v = 0; v < NV; ++v) a[act[v]] = x >> v & 1;
        { TT t = *exp; for(int v = 0; v < NV; ++v) t = tt_cof(t, v, x >> v & 1); e = tt_is(t, true); }
        if(eval() != e) return f;
    }
    return *exp;
}
TT World::read_col(int c, size_t i, const char* what, u32 cl, const TT* exp)
{
    if(WIDE) return read_wide(c, i, exp);
    Col& k = cols[c]; TT f;
    const bdd_collection& cc = *k.c;
    std::vector<char> a(act.back() + 1, 0);
    for(u32 x = 0; x < (1u << NV); ++x)
    {
        for(int v = 0; v < NV; ++v) a[act[v]] = x >> v & 1;
        bool b; { SutScope s; b = cc.evaluate(i, a.begin(), a.end()); }
        if(b) f.set(x);
    }
    (void)what; (void)cl;
    return f;
}
void World::audit_col(int c)
{
    Col& k = cols[c];
    if(!k.c) return;
    if(k.c->nr_bdds() != k.e.size() || k.c->size() != k.e.size())
    {
        bad(C_COLL, "collection holds %zu diagrams instead of %zu", k.c->nr_bdds(), k.e.size());
        while(k.e.size() > k.c->nr_bdds()) k.e.pop_back();
        while(k.e.size() < k.c->nr_bdds()) k.e.push_back({read_col(c, k.e.size(), "", 0), (u32)k.c->nr_bdd_nodes(k.e.size())});
    }
    for(size_t i = 0; i < k.e.size(); ++i)
    {
        TT f = read_col(c, i, "stored diagram", C_COLL, &k.e[i].f);
        if(f != k.e[i].f) { bad(C_COLL, "stored diagram %zu changed from %s to %s", i, ttstr(k.e[i].f).c_str(), ttstr(f).c_str()); k.e[i].f = f; }
        const size_t n = k.c->nr_bdd_nodes(i);
        if(n != k.e[i].size) { bad(C_COLL, "stored diagram %zu changed its size from %u to %zu", i, k.e[i].size, n); k.e[i].size = (u32)n; }
    }
}

// independent structural reading through the public instruction range
static u32 read_struct(World& w, int c, size_t i, std::string& err)
{
    auto p = w.cols[c].c->get_bdd_instructions(i);
    const size_t n = p.second - p.first;
    std::set<std::vector<size_t>> seen;
    for(size_t k = 0; k < n; ++k)
    {
        const auto& x = *(p.first + k);
        if(x.is_topsink() || x.is_botsink()) continue;
        if(x.lo == x.hi) err = "entry with equal children";
        if(!seen.insert({x.index, x.lo, x.hi}).second) err = "two equal entries";
    }
    return (u32)n;
}

void World::do_view(int c, size_t i)
{
    Col& k = cols[c]; bdd_collection& col = *k.c;
    const Ent& e = k.e[i];
    auto ent = col[i];
    if(ent.nr_nodes() != e.size) bad(C_VIEW, "entry reports %zu nodes instead of %u", ent.nr_nodes(), e.size);
    std::vector<size_t> vars; if(!sut_retry([&] { vars = ent.variables(); }, [&] { audit_all(); })) return;
    std::vector<size_t> want; for(int v = 0; v < NV; ++v) if(tt_dep(e.f, v)) want.push_back(act[v]);
    if(vars != want) bad(C_VIEW, "entry lists %zu variables, the support has %zu", vars.size(), want.size());
    auto p = col.get_bdd_instructions(i);
    const size_t n = p.second - p.first;
    size_t per = 0;
    for(int v = 0; v < NV; ++v)
    {
        size_t x = ent.nr_nodes(act[v]), y = 0;
        for(size_t q = 0; q < n; ++q) { const auto& ins = *(p.first + q); y += !ins.is_topsink() && !ins.is_botsink() && ins.index == act[v]; }
        if(x != y) bad(C_VIEW, "entry counts %zu nodes of variable %u instead of %zu", x, act[v], y);
        per += x;
    }
    if(per + 2 != ent.nr_nodes()) bad(C_VIEW, "%zu nodes over all variables, but %zu nodes in total", per, ent.nr_nodes());
    // sinks
    {
        SutScope s;
        auto b = ent.botsink(); auto t = ent.topsink();
        HostScope h;
        if(!b.is_botsink() || b.is_topsink() || !b.is_terminal()) bad(C_VIEW, "botsink() is not the 0 terminal");
        if(!t.is_topsink() || t.is_botsink() || !t.is_terminal()) bad(C_VIEW, "topsink() is not the 1 terminal");
        if(b == t) bad(C_VIEW, "the two terminals are the same node");
    }
    // walk from the root by assignment
    auto root = ent.root_node();
    if(!(ent[0] == root) || root != ent[0]) bad(C_VIEW, "entry[0] is not the root");
    for(int q = 0; q < 16; ++q)
    {
        const u32 a = (u32)(mix2(op->a[3], q) % nassign()); auto as = assignment(a, q);
        std::function<int(BDD::bdd_collection_node, int, size_t)> go = [&](BDD::bdd_collection_node x, int depth, size_t last) -> int {
            if(x.is_topsink()) return 1;
            if(x.is_botsink()) return 0;
            if(x.is_terminal()) return -1;
            if(depth > NV + 1 || (depth && x.variable() <= last) || x.variable() >= as.size()) return -2;
            const size_t v = x.variable();
            if(as[v]) { auto y = q & 1 ? x.hi() : x.high(); return go(y, depth + 1, v); }
            auto y = q & 1 ? x.lo() : x.low(); return go(y, depth + 1, v);
        };
        int r; { SutScope s; r = go(root, 0, 0); }
        if(r != (int)e.f.get(a)) bad(C_VIEW, "walking down by an assignment ends at %d, evaluation says %d", r, e.f.get(a));
    }
    // post-order stepping
    if(e.size > 2)
    {
        std::vector<size_t> hashes; std::unordered_map<size_t, size_t> pos;
        SutScope s;
        auto x = ent.first_node_postorder();
        size_t steps = 0; bool done = false;
        while(!done)
        {
            HostScope hsx;
            const size_t id = std::hash<BDD::bdd_collection_node>()(x);
            if(x.is_terminal()) { bad(C_VIEW, "post-order stepping visits a terminal"); break; }
            if(!pos.insert({id, steps}).second) { bad(C_VIEW, "post-order stepping visits a node twice"); break; }
            for(int side = 0; side < 2; ++side)
            {
                auto ch = side ? x.hi() : x.lo();
                if(!ch.is_terminal() && !pos.count(std::hash<BDD::bdd_collection_node>()(ch))) { bad(C_VIEW, "post-order stepping visits a node before its child"); done = true; break; }
            }
            if(++steps > e.size) { bad(C_VIEW, "post-order stepping does not end at the root"); break; }
            if(x == root) break;
            tctx->in_sut = true;
            x = x.next_postorder();
        }
        if(steps + 2 != e.size && !done) bad(C_VIEW, "post-order stepping visits %zu nodes of %u", steps, e.size - 2);
    }
    log(e.size);
}

static TT parse_gv(World& w, const std::string& txt, u32 size, std::string& err)
{
    struct N { std::string lab, lo, hi; };
    std::map<std::string, N> nodes; std::set<std::string> targets;
    size_t p = 0; std::vector<std::string> lines;
    while(p < txt.size()) { size_t q = txt.find('\n', p); if(q == std::string::npos) q = txt.size(); lines.push_back(txt.substr(p, q - p)); p = q + 1; }
    if(lines.size() < 3 || lines[0].compare(0, 11, "digraph BDD") != 0) { err = "bad header"; return TT(); }
    int depth = 0;
    for(auto& l : lines)
    {
        for(char ch : l) depth += ch == '{' ? 1 : ch == '}' ? -1 : 0;
        size_t ar = l.find(" -> "), lb = l.find(" [label=\"");
        if(ar != std::string::npos)
        {
            if(l.find("invis") != std::string::npos) continue;
            std::string a = l.substr(0, ar); size_t e = ar + 4; while(e < l.size() && isdigit((unsigned char)l[e])) ++e;
            std::string b = l.substr(ar + 4, e - ar - 4);
            const bool dashed = l.find("dashed") != std::string::npos;
            std::string& t = dashed ? nodes[a].lo : nodes[a].hi;
            if(!t.empty()) err = "arc listed twice";
            t = b; targets.insert(b);
        }
        else if(lb != std::string::npos)
        {
            std::string a = l.substr(0, lb); size_t e = l.find('"', lb + 9);
            if(!nodes[a].lab.empty()) err = "node listed twice";
            nodes[a].lab = l.substr(lb + 9, e - lb - 9);
        }
    }
    if(depth != 0) err = "braces not balanced";
    if(!err.empty()) return TT();
    if(nodes.size() != size) { err = std::to_string(nodes.size()) + " nodes written, the diagram has " + std::to_string(size); return TT(); }
    std::map<std::string, TT> memo;
    std::function<TT(const std::string&, int)> rec = [&](const std::string& s, int d) -> TT {
        auto it = memo.find(s); if(it != memo.end()) return it->second;
        auto e = nodes.find(s);
        if(e == nodes.end() || d > NV + 1) { err = "arc to an unknown node"; return TT(); }
        const N& x = e->second;
        if(x.lab == "top" || x.lab == "bot") { if(!x.lo.empty() || !x.hi.empty()) err = "terminal with arcs"; return tt_const(x.lab == "top"); }
        const int v = w.actidx((u32)strtoul(x.lab.c_str(), nullptr, 10));
        if(v < 0 || x.lo.empty() || x.hi.empty()) { err = "node without both arcs or of an unknown variable"; return TT(); }
        TT r = tt_ite(tt_var(v), rec(x.hi, d + 1), rec(x.lo, d + 1));
        memo[s] = r; return r;
    };
    std::string root; int roots = 0;
    if(size <= 2) root = "0"; // a constant: the first node
    else
    {
        for(auto& x : nodes) if(!targets.count(x.first)) { root = x.first; ++roots; }
        if(roots != 1) { err = "graph has " + std::to_string(roots) + " roots"; return TT(); }
    }
    return rec(root, 0);
}
void World::do_gv(int c, size_t i, u32 mode, u32 kk)
{
    Col& k = cols[c]; const bdd_collection& cc = *k.c;
    LimBuf fb((size_t)1 << 30, 0); std::string full; const u32 form = kk >> 20;
    {
        std::ostream os(&fb); dress(os, form);
        std::string part;
        if(!sut_retry([&] { fb.out.clear(); cc.export_graphviz(i, os); }, [&] { part = fb.out; audit_all(); })) return;
        full = fb.out;
        if(full.compare(0, part.size(), part) != 0) bad(C_PRINT, "output before the allocation failure is not a prefix of the full output");
    }
    std::string err; TT f = parse_gv(*this, full, k.e[i].size, err);
    if(!err.empty()) bad(C_PRINT, "export_graphviz: %s", err.c_str());
    else if(f != k.e[i].f) bad(C_PRINT, "the exported graph denotes %s instead of %s", ttstr(f).c_str(), ttstr(k.e[i].f).c_str());
    u64 h = 0; for(char ch : full) h = mix2(h, ch); log(h);
    if(mode % 5)
    {
        mode %= 5;
        LimBuf b(kk % (full.size() + 1), mode == 3 ? 2 : 0);
        if(mode == 4)
        {
            ThrowStream ts(b); dress(ts.os, form);
            try { SutScope s; cc.export_graphviz(i, ts); } catch(const LimBuf::Boom&) { cnt(N_STREAM_CUSTOM); }
        }
        else
        {
            std::ostream os(&b); dress(os, form);
            if(mode != 1) os.exceptions(std::ios::badbit | std::ios::failbit);
            try { SutScope s; cc.export_graphviz(i, os); }
            catch(const LimBuf::Boom&) { cnt(N_STREAM_THROW); }
            catch(const std::ios_base::failure&) { if(mode != 2) bad(C_EXC, "unexpected stream exception"); cnt(N_STREAM_THROW); }
            if(mode == 1 && !os) cnt(N_STREAM_SHORT);
        }
        if(full.compare(0, b.out.size(), b.out) != 0) bad(C_PRINT, "output before the stream failed is not a prefix of the full output");
        audit_col(c);
        LimBuf fb2((size_t)1 << 30, 0); std::ostream os2(&fb2); dress(os2, form);
        { SutScope s; cc.export_graphviz(i, os2); }
        if(fb2.out != full) bad(C_PRINT, "exporting after a failed export gives different output");
    }
}

void World::col_ops(const Op& o)
{
    if(o.kind == K_CNEW) { int n = 0; for(auto& c : cols) n += c.c != nullptr; if(n < 4) new_col(); return; }
    const int c = ci(o.a[0]);
    Col& k = cols[c];
    auto between = [&] { audit_all(); };
    bool toobig = false;
    auto model = [&](auto&& fn) -> TT { return budget(fn, toobig); };
    auto any = [&](u32 a) -> size_t { return k.e.empty() ? NPOS : a % k.e.size(); };
    // a new diagram was appended with number r
    auto appended = [&](size_t r, const TT& f, u32 cl, const char* what, bool minimal) {
        if(r != k.e.size() || k.c->nr_bdds() != k.e.size() + 1)
        { bad(cl, "%s returned number %zd with %zu diagrams stored before and %zu after", what, (ptrdiff_t)r, k.e.size(), k.c->nr_bdds()); audit_col(c); return; }
        const TT got = read_col(c, r, what, cl, &f);
        if(got != f) bad(cl, "%s denotes %s instead of %s", what, ttstr(got).c_str(), ttstr(f).c_str());
        const size_t n = k.c->nr_bdd_nodes(r), want = tt_size(got) + 2;
        if(minimal && n != want) bad(cl, "%s has %zu nodes, the reduced diagram has %zu with its terminals", what, n, want);
        std::string err; read_struct(*this, c, r, err);
        if(minimal && !err.empty()) bad(cl, "%s: %s", what, err.c_str());
        std::vector<size_t> vs, ws; { SutScope s; vs = k.c->variables(r); }
        for(int v = 0; v < NV; ++v) if(tt_dep(got, v)) ws.push_back(act[v]);
        if(vs != ws) bad(cl, "%s lists %zu variables, its support has %zu", what, vs.size(), ws.size());
        k.e.push_back({got, (u32)n});
        if(want == 2) cnt(N_CONST_RESULT);
        log(mix2(tt_hash(got), n));
        for(size_t i = 0; i + 1 < k.e.size(); ++i) if(k.c->nr_bdd_nodes(i) != k.e[i].size) bad(C_COLL, "%s changed the size of stored diagram %zu", what, i);
    };
    switch(o.kind)
    {
    case K_CDEL: {
        int n = 0; for(auto& x : cols) n += x.c != nullptr;
        if(n > 1) { SutScope s; delete k.c; k.c = nullptr; HostScope h; k.e.clear(); cnt(N_TDOWN_OUT_OF_ORDER); }
        break;
    }
    case K_CCPY: { // collections as values: copied, assigned, moved, swapped
        int n = 0; for(auto& x : cols) n += x.c != nullptr;
        const int d = ci(o.a[2]); Col& t = cols[d];
        auto like = [&](int x, const std::vector<Ent>& e, const char* what) {
            if(cols[x].c->nr_bdds() != e.size() || cols[x].c->size() != e.size()) bad(C_COLL, "%s holds %zu diagrams instead of %zu", what, cols[x].c->nr_bdds(), e.size());
            cols[x].e = e; log(e.size());
        };
        switch(o.a[1] % 6)
        {
        case 0: case 1: { // a copy
            if(n >= 5) { cnt(N_SKIPPED); return; }
            bdd_collection* p = nullptr; const std::vector<Ent> e = k.e;
            if(!sut_retry([&] { p = new bdd_collection(*k.c); }, between)) return;
            Col x; x.c = p; cols.push_back(std::move(x)); cnt(N_COLS); // k is invalid from here on
            like((int)cols.size() - 1, e, "a copy"); audit_col((int)cols.size() - 1); audit_col(c);
            return;
        }
        case 2: case 3: { // assignment, at times of a collection to itself
            const std::vector<Ent> e = k.e;
            if(!sut_retry([&] { *t.c = *k.c; }, between)) return;
            like(d, e, "a collection that was assigned to");
            break;
        }
        case 4: { // moved into another object and assigned again
            if(c == d) { cnt(N_SKIPPED); return; }
            const std::vector<Ent> e = k.e;
            if(!sut_retry([&] { bdd_collection fresh; *t.c = std::move(*k.c); *k.c = std::move(fresh); }, between)) return;
            like(d, e, "a collection that was moved to"); like(c, {}, "a collection that was assigned an empty one");
            break;
        }
        default: { // swapped, or carried over into a new object
            if(c != d) { const std::vector<Ent> e = k.e, f = t.e; if(!sut_retry([&] { std::swap(*k.c, *t.c); }, between)) return; like(c, f, "a swapped collection"); like(d, e, "a swapped collection"); }
            else { const std::vector<Ent> e = k.e; bdd_collection* p = nullptr; if(!sut_retry([&] { p = new bdd_collection(std::move(*k.c)); }, between)) return; { SutScope s; delete k.c; } k.c = p; like(c, e, "a moved collection"); }
        }
        }
        audit_col(c); if(d != c) audit_col(d);
        break;
    }
    case K_CADD: {
        if(k.e.size() >= 40) { cnt(N_SKIPPED); break; }
        const int m = mi(o.a[1]); Opd a = pick(m, o.a[2]);
        size_t r = 0; const u32 rc = (u32)a.h.reference_count();
        if(!sut_retry([&] { r = k.c->add_bdd(a.h); }, [&] { audit_all(); if(!a.h.is_terminal() && a.h.reference_count() != rc) bad(C_XFER, "a failed add_bdd kept references to the diagram"); })) break;
        work("add_bdd", tt_size(a.f));
        if(!a.h.is_terminal() && a.h.reference_count() != rc) bad(C_XFER, "add_bdd changed the diagram's reference count from %u to %zu", rc, a.h.reference_count());
        appended(r, a.f, C_XFER, "add_bdd", true);
        break;
    }
    case K_CAND: {
        if(k.e.size() >= 40 || k.e.empty()) { cnt(N_SKIPPED); break; }
        const size_t i = any(o.a[1]), j = any(o.a[2]);
        const TT f = model([&] { return tt_and(k.e[i].f, k.e[j].f); }); if(toobig) break;
        const size_t s = tt_size(f) + 2;
        const u32 q = o.a[3] % 8, form = o.a[4] % 4;
        size_t lim = q == 0 ? s - 1 : q == 1 ? s : q == 2 ? s + 1 : q == 3 ? 3 : q == 4 ? 3 + (o.a[3] / 8) % s : NPOS;
        if(lim < 3) lim = 3;
        if(form == 2) lim = NPOS;
        size_t r = 0;
        if(!sut_retry([&] {
            if(form == 0) r = lim == NPOS ? k.c->bdd_and(i, j) : k.c->bdd_and(i, j, lim);
            else if(form == 1) r = k.c->bdd_and((int)i, (int)j, lim);
            else if(form == 2) { auto a = (*k.c)[i]; auto b = (*k.c)[j]; auto e = a & b; (void)e; r = k.c->nr_bdds() - 1; }
            else { std::array<size_t, 2> v{i, j}; r = k.c->bdd_and(v.begin(), v.end(), lim); }
        }, between)) break;
        work_tuples("a conjunction of stored diagrams", {k.e[i].f, k.e[j].f});
        if(s <= lim) { cnt(N_ACCEPTED); if(r == NPOS) { bad(C_CAND, "conjunction with %zu nodes refused at limit %zu", s, lim); break; } appended(r, f, C_CAND, "conjunction", true); }
        else { cnt(N_REFUSED); if(r != NPOS) { bad(C_CAND, "conjunction with %zu nodes not refused at limit %zu", s, lim); } audit_col(c); log(1); }
        break;
    }
    case K_CNRY: {
        if(k.e.size() >= 40 || k.e.empty()) { cnt(N_SKIPPED); break; }
        Rng r2(o.a[2]);
        const u32 q = o.a[1] % 10; const size_t n = q == 0 ? 1 : q < 6 ? 3 + (o.a[1] / 10) % 4 : 2 + (o.a[1] / 10) % 48;
        std::vector<size_t> v; TT f = tt_const(true);
        // long ranges: a few diagrams repeated, one of them at a single place only, so that every place matters
        std::vector<size_t> few; const size_t lone = any((u32)r2.next()), place = r2.chance(1, 2) ? n - 1 : r2.chance(1, 4) ? 0 : r2.below(n);
        for(size_t i = 0; i < 1 + r2.below(3); ++i) few.push_back(any((u32)r2.next()));
        const bool rep = n > 6 && r2.chance(4, 5);
        for(size_t i = 0; i < n; ++i) { v.push_back(rep ? (i == place ? lone : few[r2.below(few.size())]) : any((u32)r2.next())); f = model([&] { return tt_and(f, k.e[v.back()].f); }); if(toobig) break; }
        if(toobig) break;
        u32 ntup = 0;
        if(WIDE) { std::vector<u32> t; for(size_t i : v) t.push_back(tt_node(k.e[i].f)); if((ntup = rb::tuples(t, 20000, true)) >= 20000) { cnt(N_SKIPPED); break; } } // the work is proportional to the tuples
        const size_t s = tt_size(f) + 2; const u32 lq = o.a[3] % 7;
        size_t lim = lq == 0 ? s - 1 : lq == 1 ? s : lq == 2 ? s + 1 : lq == 3 ? 3 + (o.a[3] / 7) % s : NPOS;
        if(lim < 3) lim = 3;
        const u32 form = o.a[4] % 4; size_t r = 0;
        std::list<size_t> li(v.begin(), v.end()); std::vector<int> vi(v.begin(), v.end());
        const size_t bad_n = o.a[4] % 16 == 7 ? 50 + o.a[1] % 5 : 0;
        if(bad_n)
        {
            std::vector<size_t> big(bad_n, v[0]); bool thrown = false;
            try { SutScope sc2; k.c->bdd_and(big.begin(), big.end()); } catch(const std::runtime_error&) { thrown = true; }
            if(thrown) { cnt(N_EXC_EXPECTED); audit_col(c); break; }
            else { appended(k.c->nr_bdds() - 1, k.e[v[0]].f, C_CAND, "conjunction of equal diagrams", true); break; }
        }
        if(!sut_retry([&] {
            if(form == 0) r = k.c->bdd_and(v.begin(), v.end(), lim);
            else if(form == 1) r = k.c->bdd_and(li.begin(), li.end(), lim);
            else if(form == 2) r = k.c->bdd_and(vi.begin(), vi.end(), lim);
            else r = lim == NPOS ? k.c->bdd_and(v.cbegin(), v.cend()) : k.c->bdd_and(v.cbegin(), v.cend(), lim);
        }, between)) break;
        work("an n-ary conjunction of stored diagrams", ntup * (n + 2) / 3, 1500);
        if(n == 1) { if(r != v[0] || k.c->nr_bdds() != k.e.size()) bad(C_CAND, "conjunction of one diagram is not that diagram"); break; }
        if(s <= lim) { cnt(N_ACCEPTED); if(r == NPOS) { bad(C_CAND, "conjunction of %zu diagrams with %zu nodes refused at limit %zu", n, s, lim); break; } appended(r, f, C_CAND, "n-ary conjunction", true); }
        else { cnt(N_REFUSED); if(r != NPOS) bad(C_CAND, "conjunction of %zu diagrams with %zu nodes not refused at limit %zu", n, s, lim); audit_col(c); log(1); }
        break;
    }
    case K_CORV: {
        if(k.e.size() >= 40 || k.e.empty()) { cnt(N_SKIPPED); break; }
        const size_t i = any(o.a[1]);
        std::unordered_set<size_t> p, n; std::unordered_map<size_t, size_t> pm, nm; TT f = k.e[i].f;
        u64 pmask = o.a[2] & o.a[4], nmask = o.a[3] & (o.a[4] >> 7);
        if(WIDE) { const u64 d = 2 + o.a[4] % 20; pmask = nmask = 0; for(int v = 0; v < NV; ++v) { if(mix2(o.a[2], v) % d == 0) pmask |= 1ull << v; if(mix2(o.a[3], v) % (2 * d) == 0) nmask |= 1ull << v; } }
        for(int v = 0; v < NV; ++v)
        {
            if(pmask >> v & 1) { p.insert(act[v]); pm[act[v]] = 1; f = tt_or(f, tt_var(v)); }
            if(nmask >> v & 1) { n.insert(act[v]); nm[act[v]] = 1; f = tt_or(f, tt_not(tt_var(v))); }
        }
        std::set<size_t> ps(p.begin(), p.end()), ns(n.begin(), n.end());
        size_t r = 0; const u32 form = o.a[5] % 3;
        if(!sut_retry([&] { r = form == 0 ? k.c->bdd_or_var(i, p, n) : form == 1 ? k.c->bdd_or_var(i, ps, ns) : k.c->bdd_or_var(i, pm, nm); }, between)) break;
        work("a disjunction with literals", (u64)(tt_size(k.e[i].f) + 2) * (pm.size() + nm.size() + 1) + act.size(), 1500);
        appended(r, f, C_COLL, "disjunction with literals", true);
        break;
    }
    case K_CREB: {
        if(k.e.empty()) { cnt(N_SKIPPED); break; }
        const size_t i = any(o.a[1]);
        Rng r2(o.a[2]);
        const u64 sup = tt_support(k.e[i].f);
        std::vector<int> sv, tgt; for(int v = 0; v < NV; ++v) { if(sup >> v & 1) sv.push_back(v); tgt.push_back(v); }
        while(tgt.size() > sv.size()) tgt.erase(tgt.begin() + r2.below(tgt.size()));
        int map[MAXV]; for(int v = 0; v < NV; ++v) map[v] = v;
        for(size_t q = 0; q < sv.size(); ++q) map[sv[q]] = tgt[q];
        const TT f = tt_rename(k.e[i].f, map);
        const u32 form = o.a[3] % 5;
        std::unordered_map<size_t, size_t> um; std::map<size_t, size_t> om; std::vector<size_t> vec(act.back() + 1 + o.a[4] % 3, 0);
        for(int v : sv) { um[act[v]] = act[map[v]]; vec[act[v]] = act[map[v]]; }
        if(o.a[4] & 8) um[act.back() + 5] = act.back() + 6;
        om.insert(um.begin(), um.end());
        if(!sut_retry([&] {
            if(form == 0) k.c->rebase(i, um);
            else if(form == 1) k.c->rebase(i, om);
            else if(form == 2) k.c->rebase(i, vec.begin(), vec.end());
            else if(form == 3) (*k.c)[i].rebase(um);
            else (*k.c)[i].rebase(vec.begin(), vec.end());
        }, between)) break;
        work("rebase of a stored diagram", tt_size(k.e[i].f) + act.size(), 600);
        TT got = read_col(c, i, "rebase", C_COLL, &f);
        if(got != f) bad(C_COLL, "rebased diagram denotes %s instead of %s", ttstr(got).c_str(), ttstr(f).c_str());
        k.e[i].f = got;
        audit_col(c); log(tt_hash(got));
        break;
    }
    case K_CREM: {
        if(k.e.empty()) { cnt(N_SKIPPED); break; }
        std::vector<size_t> v; const u32 q = o.a[1] % 5;
        for(size_t i = 0; i < k.e.size(); ++i)
            if(q == 0 ? i == o.a[2] % k.e.size() : q == 1 ? mix2(o.a[2], i) % 2 : q == 2 ? mix2(o.a[2], i) % 5 == 0 : q == 3 ? i < o.a[2] % (k.e.size() + 1) : i + 1 == k.e.size()) v.push_back(i);
        if(k.e.size() > 6 && v.size() == k.e.size()) v.pop_back();
        std::vector<size_t> longer(v); const u32 form = o.a[3] % 4;
        // a range that is only part of a larger container
        if(form == 1 && !k.e.empty()) { size_t last = v.empty() ? 0 : v.back() + 1; longer.push_back(std::min(last + o.a[4] % 2, k.e.size() - 1)); longer.push_back(k.e.size() - 1); }
        std::deque<size_t> dq(v.begin(), v.end()); std::vector<int> vi(v.begin(), v.end());
        if(!sut_retry([&] {
            if(form <= 1) k.c->remove(longer.begin(), longer.begin() + v.size());
            else if(form == 2) k.c->remove(dq.begin(), dq.end());
            else k.c->remove(v.data(), v.data() + v.size());
        }, between)) break;
        { u64 tot = 0; for(auto& x : k.e) tot += x.size; work("removal of stored diagrams", tot, 600); }
        std::vector<Ent> ne; size_t x = 0;
        for(size_t i = 0; i < k.e.size(); ++i) { if(x < v.size() && v[x] == i) ++x; else ne.push_back(k.e[i]); }
        k.e.swap(ne); cnt(N_COL_REMOVED, v.size());
        audit_col(c); log(k.c->nr_bdds());
        break;
    }
    case K_CEXP: {
        if(k.e.empty()) { cnt(N_SKIPPED); break; }
        const size_t i = any(o.a[1]); const int m = mi(o.a[2]); Mgr& g = mgrs[m];
        const u64 sup = tt_support(k.e[i].f); node_ref r;
        const bool imp = o.a[3] & 1;
        const size_t nvb = g.m->nr_variables(); size_t need = 0;
        for(int v = 0; v < NV; ++v) if(sup >> v & 1) need = act[v] + 1;
        if(!imp && need) ensure_var(m, (u32)need - 1);
        const bdd_collection& cc = *k.c;
        if(!sut_retry([&] { r = imp ? g.m->add_bdd(*k.c, i) : cc.export_bdd(*g.m, i); }, [&] { g.nv = g.m->nr_variables(); between(); })) break;
        work("a transfer into a manager", tt_size(k.e[i].f) + 8 * (g.m->nr_variables() - nvb));
        if(g.m->nr_variables() != std::max(nvb, need)) bad(C_XFER, "transfer left %zu variables, expected %zu", g.m->nr_variables(), std::max(nvb, need));
        g.nv = g.m->nr_variables();
        for(auto& h : hs) if(h->m == m && h->h.address() && h->f == k.e[i].f && !(h->h == r)) bad(C_XFER, "%s did not return the handle that the function already has", imp ? "add_bdd" : "export_bdd");
        result(C_XFER, m, r, k.e[i].f, imp ? "import" : "export");
        audit_col(c);
        break;
    }
    case K_CGV: if(!k.e.empty()) do_gv(c, any(o.a[1]), o.a[2], o.a[3]); else cnt(N_SKIPPED); break;
    case K_CVIEW: if(!k.e.empty()) do_view(c, any(o.a[1])); else cnt(N_SKIPPED); break;
    case K_CBLD: {
        if(k.e.size() >= 40) { cnt(N_SKIPPED); break; }
        Rng r2(o.a[1]);
        u64 vars = 0; for(u32 i = 0; i < 1 + o.a[2] % (WIDE ? 8 : 5); ++i) vars |= 1ull << r2.below(NV);
        const TT f = tt_random(r2, vars, o.a[3] % 4);
        if(tt_top(f) == NV) { cnt(N_SKIPPED); break; }
        // nodes in a random order in which parents come before children
        std::vector<TT> order;
        {
            std::vector<TT> all; std::unordered_set<TT, TTHash> seen; std::vector<TT> st{f};
            while(!st.empty()) { TT g = st.back(); st.pop_back(); const int t = tt_top(g); if(t == NV || !seen.insert(g).second) continue; all.push_back(g); st.push_back(tt_cof(g, t, false)); st.push_back(tt_cof(g, t, true)); }
            std::unordered_map<TT, int, TTHash> parents;
            for(auto& g : all) for(int side = 0; side < 2; ++side) { TT ch = tt_cof(g, tt_top(g), side); if(tt_top(ch) < NV) parents[ch]++; }
            std::vector<TT> ready{f};
            while(!ready.empty())
            {
                const size_t q = r2.below(ready.size()); TT g = ready[q]; ready.erase(ready.begin() + q); order.push_back(g);
                for(int side = 0; side < 2; ++side) { TT ch = tt_cof(g, tt_top(g), side); if(tt_top(ch) < NV && --parents[ch] == 0) ready.push_back(ch); }
            }
        }
        const size_t N = order.size(); std::unordered_map<TT, size_t, TTHash> pos; for(size_t q = 0; q < N; ++q) pos[order[q]] = q;
        const bool incomplete = o.a[4] % 6 == 0; const size_t hole = o.a[5] % (2 * N); const u32 after = (o.a[4] / 6) % 3;
        const size_t had = k.e.size(); size_t nr = NPOS;
        // the stored diagrams while another one is being built
        auto others = [&](const char* when) {
            if(k.c->nr_bdds() != had + 1) bad(C_BUILD, "%s the collection reports %zu diagrams instead of %zu", when, k.c->nr_bdds(), had + 1);
            for(size_t i = 0; i < had; ++i)
            {
                if(k.c->nr_bdd_nodes(i) != k.e[i].size || read_col(c, i, "", C_BUILD, &k.e[i].f) != k.e[i].f) { bad(C_BUILD, "%s stored diagram %zu is no longer what it was", when, i); break; }
            }
        };
        auto building = [&] { for(size_t i = 0; i < mgrs.size(); ++i) audit((int)i, false); for(size_t i = 0; i < cols.size(); ++i) if((int)i != c) audit_col((int)i); };
        std::vector<BDD::bdd_collection_node> nodes; nodes.reserve(N);
        auto set = [&](size_t q, int side, int to) { // to: node, -1 the 0 terminal, -2 the 1 terminal
            SutScope s;
            if(to < 0) { if(side) { if(to == -2) nodes[q].set_hi_to_1_terminal(); else nodes[q].set_hi_to_0_terminal(); } else { if(to == -2) nodes[q].set_lo_to_1_terminal(); else nodes[q].set_lo_to_0_terminal(); } }
            else if(side) nodes[q].set_hi_arc(nodes[to]); else nodes[q].set_lo_arc(nodes[to]);
        };
        auto child = [&](size_t q, int side) -> int { const TT ch = tt_cof(order[q], tt_top(order[q]), side); return tt_top(ch) == NV ? (tt_is(ch, true) ? -2 : -1) : (int)pos[ch]; };
        auto anything = [&](size_t q) -> int { const size_t x = r2.below(nodes.size() - q + 1); return x < 2 ? -1 - (int)x : (int)(q + x - 1); };
        if(!sut_retry([&] { nr = k.c->new_bdd(); }, [&] { audit_all(); })) break;
        if(o.a[5] % 13 == 5) // begun and given up at once, with or without nodes
        {
            for(u32 i = 0; i < (o.a[5] / 13) % 3; ++i) { SutScope s; k.c->add_bdd_node(act[i % NV]); }
            others("after a diagram was begun");
            std::vector<size_t> v{nr}; { SutScope s; k.c->remove(v.begin(), v.end()); } audit_col(c); log(6); break;
        }
        if(nr != had) bad(C_BUILD, "new_bdd returned number %zu with %zu diagrams stored", nr, had);
        std::vector<std::pair<size_t, int>> later;
        const bool eager = r2.chance(1, 2);
        auto close = [&] {
            bool thrown = false;
            sut_retry([&] { try { k.c->close_bdd(); } catch(const std::runtime_error&) { thrown = true; } }, [&] { building(); others("after a failed close_bdd"); });
            return thrown;
        };
        for(size_t q = 0; q < N; ++q)
        {
            if(!sut_retry([&] { nodes.push_back(k.c->add_bdd_node(act[tt_top(order[q])])); }, [&] { building(); others("after a failed add_bdd_node"); })) return;
            if(nodes.back().variable() != act[tt_top(order[q])]) bad(C_BUILD, "a node added for variable %u tests variable %zu", act[tt_top(order[q])], nodes.back().variable());
            for(size_t p = 0; p <= q; ++p) for(int side = 0; side < 2; ++side)
            {
                const int to = child(p, side);
                if(std::max<size_t>(p, to < 0 ? 0 : to) != q || (to >= 0 ? (size_t)to != q : p != q)) continue; // becomes possible now
                if(incomplete && hole == 2 * p + side) continue;
                if(eager && r2.chance(1, 2)) set(p, side, to); else later.push_back({p, side});
            }
            if(q + 1 < N && r2.chance(1, 12)) // closed too early: some arc has to lead to a node that is not there yet
            {
                cnt(N_EXC_EXPECTED);
                if(!close()) { bad(C_BUILD, "closing a diagram with an unset arc is not reported"); { SutScope s; delete k.c; k.c = nullptr; } k.e.clear(); return; }
                if(r2.chance(1, 3)) others("after an incomplete diagram was refused");
            }
        }
        for(size_t i = later.size(); i > 1; --i) std::swap(later[i - 1], later[r2.below(i)]);
        for(auto& x : later) { if(r2.chance(1, 6)) set(x.first, x.second, anything(x.first)); set(x.first, x.second, child(x.first, x.second)); } // some arcs are changed before closing
        if(r2.chance(1, 2)) others("while a diagram is being built");
        if(incomplete)
        {
            cnt(N_EXC_EXPECTED);
            if(!close()) { bad(C_BUILD, "closing a diagram with an unset arc is not reported"); { SutScope s; delete k.c; k.c = nullptr; } k.e.clear(); break; }
            others("after an incomplete diagram was refused");
            // the unfinished diagram is completed, removed, or abandoned with its collection
            if(after == 0) set(hole / 2, hole % 2, child(hole / 2, hole % 2));
            else if(after == 1) { std::vector<size_t> v{nr}; SutScope s; k.c->remove(v.begin(), v.end()); HostScope h; audit_col(c); log(5); break; }
            else { SutScope s; delete k.c; k.c = nullptr; HostScope h; k.e.clear(); break; }
        }
        if(close()) { bad(C_BUILD, "closing a complete diagram reported an error"); { SutScope s; delete k.c; k.c = nullptr; } k.e.clear(); break; }
        // arcs of a finished diagram can be changed, and changed back
        if(r2.chance(1, 3) && k.c->nr_bdds() == had + 1)
        {
            const size_t q = r2.below(N); const int side = (int)r2.below(2), to = anything(q);
            std::vector<TT> g(N);
            for(size_t x = N; x-- > 0;)
            {
                TT lh[2]; for(int sd = 0; sd < 2; ++sd) { const int t = x == q && sd == side ? to : child(x, sd); lh[sd] = t < 0 ? tt_const(t == -2) : g[t]; }
                g[x] = tt_ite(tt_var(tt_top(order[x])), lh[1], lh[0]);
            }
            const int back = child(q, side);
            set(q, side, to);
            const TT got = read_col(c, nr, "", C_BUILD, &g[0]);
            if(got != g[0]) bad(C_BUILD, "a finished diagram whose arc was changed denotes %s instead of %s", ttstr(got).c_str(), ttstr(g[0]).c_str());
            others("after an arc of another diagram was changed");
            set(q, side, back);
        }
        appended(nr, f, C_BUILD, "hand-built diagram", true);
        break;
    }
    default: break;
    }
}
} // namespace sim
