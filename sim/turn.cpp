// Turnover: the same lifetime of a manager and a collection again and again, in memory that earlier ones have
// left behind and while others live. The first lifetime sets what all later ones must observe.
#include "world.h"
using namespace BDD;

namespace sim {
namespace {
struct Life {
    u64 seed; u32 nv, len, pos = 0;
    bdd_mgr* m = nullptr; bdd_collection* c = nullptr;
    std::vector<node_ref>* h = nullptr;
    std::vector<u64> seen;
    Life(u64 s, u32 v, u32 l) : seed(s), nv(v), len(l) {}

    u64 value(node_ref& x)
    {
        u64 r = 0; std::vector<char> a(nv);
        for(u32 k = 0; k < 8; ++k) { for(u32 i = 0; i < nv; ++i) a[i] = mix2(seed + k, i) & 1; r = r * 2 + x.evaluate(a.begin(), a.end()); }
        return r;
    }
    // everything in here runs as part of the system under test; false when the lifetime is over
    bool step()
    {
        const u32 i = pos++;
        if(i == 0) { m = new bdd_mgr(); h = new std::vector<node_ref>; c = new bdd_collection; for(u32 v = 0; v < nv; ++v) seen.push_back(m->add_variable()); return true; }
        if(i <= nv) { h->push_back(i % 3 ? m->projection(i - 1) : m->neg_projection(i - 1)); return true; }
        if(i == len) { delete h; h = nullptr; return true; }
        if(i == len + 1) { m->collect_garbage(); seen.push_back(m->nr_nodes()); if(seed & 1) { delete m; m = nullptr; } else { delete c; c = nullptr; } return true; }
        if(i == len + 2)
        {
            if(c) { for(size_t k = 0; k < c->nr_bdds(); ++k) seen.push_back(c->nr_bdd_nodes(k)); delete c; c = nullptr; }
            if(m) { seen.push_back(m->nr_nodes()); delete m; m = nullptr; }
            return false;
        }
        Rng r(mix2(seed, i));
        std::vector<node_ref>& q = *h;
        const size_t n = q.size(), x = r.below(n), y = r.below(n), z = r.below(n);
        switch(r.below(20))
        {
        case 0: q.push_back(q[x] & q[y]); break;
        case 1: q.push_back(q[x] || q[y]); break;
        case 2: q.push_back(q[x] ^ q[y]); break;
        case 3: q.push_back(!q[x]); break;
        case 4: q.push_back(m->and_rec(q[x], q[y])); break;
        case 5: q.push_back(m->ite_rec(q[x], q[y], q[z])); break;
        case 6: q.push_back(m->xor_rec(q[x], q[y])); break;
        case 7: { std::vector<node_ref> v{q[x], q[y], q[z]}; q.push_back(r.chance(1, 2) ? m->at_most_one(v.begin(), v.end()) : m->cardinality(v.begin(), v.end(), 2)); break; }
        case 8: case 9: case 10: case 11:
            seen.push_back(q[x].find_bdd_mgr() == m); seen.push_back(q[x].botsink() == m->botsink()); seen.push_back(q[x].topsink() == m->topsink());
            break;
        case 12: seen.push_back(value(q[x])); seen.push_back(q[x].nr_nodes()); break;
        case 13: q.erase(q.begin() + x); if(q.empty()) q.push_back(m->topsink()); break;
        case 14: m->collect_garbage(); seen.push_back(m->nr_nodes()); break;
        case 15: { const size_t nr = c->add_bdd(q[x]); seen.push_back(c->nr_bdd_nodes(nr)); seen.push_back(c->export_bdd(*m, nr) == q[x]); break; }
        case 16: if(c->nr_bdds() > 1) { const size_t nr = c->bdd_and(r.below(c->nr_bdds()), r.below(c->nr_bdds())); node_ref e = c->export_bdd(*m, nr); seen.push_back(value(e)); seen.push_back(c->nr_bdd_nodes(nr)); q.push_back(e); } break;
        case 17: { std::vector<size_t> map(nv); for(u32 v = 0; v < nv; ++v) map[v] = v + 1; node_ref e = m->rebase(q[x], map.begin(), map.end()); seen.push_back(e.is_terminal() ? 0 : e.nr_nodes()); break; }
        case 18: for(const auto v : q[x].is_terminal() ? std::vector<size_t>{} : q[x].variables()) seen.push_back(v); seen.push_back(q[x].exactly_one_solution()); break;
        case 19: { auto [e, k] = m->and_rec_limited(q[x], q[y], 1 + r.below(12)); seen.push_back(k); if(e.address() != nullptr) seen.push_back(value(e)); break; }
        }
        seen.push_back(q.size()); seen.push_back(value(q.back()));
        for(size_t k = 0; k + 1 < q.size(); ++k) if(q[k] == q.back()) { seen.push_back(k); break; }
        return true;
    }
};
}
void do_turn(World& w, const Op& o)
{
    Rng r(mix2(o.a[0], o.a[1]));
    const u32 nv = (u32)r.range(2, 7), len = nv + 2 + (u32)r.range(3, 30), rounds = (u32)r.range(2, 8);
    const u64 seed = r.next();
    std::vector<u64> first;
    std::vector<char*> gaps;
    auto hole = [&] { // the memory that the next manager gets is another one, or the same
        static const size_t sizes[] = {sizeof(bdd_mgr), sizeof(bdd_collection), 64, 48, 512 * 40, 4096, 16384};
        SutScope s; const size_t z = sizes[r.below(7)];
        if(gaps.size() > 6 || (gaps.size() && r.chance(1, 3))) { const size_t k = r.below(gaps.size()); delete[] gaps[k]; gaps[k] = gaps.back(); gaps.pop_back(); }
        else gaps.push_back(new char[z]);
    };
    auto compare = [&](const Life& l, u32 round, const char* how) {
        if(first.empty()) { first = l.seen; return; }
        if(l.seen == first) return;
        if(w.sc.prop != "C16") return;
        size_t k = 0; while(k < first.size() && k < l.seen.size() && first[k] == l.seen[k]) ++k;
        die("INTERFERE", "lifetime %u of a manager and a collection (%s): observation %zu of %zu is %llu, in the first lifetime of the same operations it was %llu", round, how, k, first.size(),
            k < l.seen.size() ? (unsigned long long)l.seen[k] : 0ull, k < first.size() ? (unsigned long long)first[k] : 0ull);
    };
    auto step = [&](Life& l) { tctx->op_steps = 0; SutScope s; return l.step(); };
    for(u32 t = 0; t < rounds; ++t)
    {
        tctx->in_turn = t > 0;
        Life a(seed, nv, len);
        if(t == 0 || r.chance(1, 2)) { while(step(a)); compare(a, t, "one after the other"); }
        else
        {
            Life b(seed, nv, len); bool x = true, y = true; const u32 bias = (u32)r.range(1, 9), lead = (u32)r.below(len);
            for(u32 k = 0; k < lead && x; ++k) x = step(a);
            while(x || y) { const bool pa = x && (!y || r.below(10) < bias); if(pa) { x = step(a); if(!x) compare(a, t, "two at a time"); } else { y = step(b); if(!y) compare(b, t, "two at a time"); } }
        }
        for(u32 k = (u32)r.below(3); k > 0; --k) hole();
    }
    tctx->in_turn = false;
    SutScope s; for(char* g : gaps) delete[] g;
    HostScope hs; u64 d = 0; for(u64 v : first) d = mix2(d, v); w.log(d); cnt(N_LIVES, rounds);
}
} // namespace sim
