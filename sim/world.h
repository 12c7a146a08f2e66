// The simulated world: clients, managers, collections, and the reference model.
#pragma once
#include "scenario.h"
#include "tt.h"
#include "bdd_mgr.h"
#include "bdd_collection.h"
#include "bdd_node_depth.h"
#include <memory>
#include <functional>
#include <map>
#include <unordered_map>
#include <ostream>
#include <streambuf>

namespace sim {
// every collection of garbage goes through here: what ends a run inside one is a matter of the collection
inline void collect(BDD::bdd_mgr& m)
{
    struct In { bool old = tctx->in_gc; In() { tctx->in_gc = true; } ~In() { tctx->in_gc = old; } } in;
    m.collect_garbage();
}

using BDD::node_ref;
using BDD::bdd_mgr;
using BDD::bdd_collection;

// counters reported in the evidence
enum Cnt {
    N_OPS = 0, // + kind
    N_FAULT_FIRED = 64, N_FAULT_BURST, N_FAULT_ABSORBED, N_RETRY_OK, N_STREAM_SHORT, N_STREAM_THROW, N_STREAM_CUSTOM,
    N_CLIENT_DEATH, N_GC, N_GC_RECLAIMED, N_GC_NOOP, N_REFUSED, N_ACCEPTED, N_CONST_RESULT, N_AUDITS, N_NODES_MAX, N_HANDLES_MAX,
    N_VARS_MAX, N_FOREIGN, N_RESULTS, N_GROWN, N_MGRS, N_COLS, N_REUSE_AFTER_GC, N_REFUSE_BIN, N_EQ_PAIRS, N_TABLE_BIG,
    N_COL_REMOVED, N_PAGES, N_POOL_REUSE, N_SKIPPED, N_EXC_EXPECTED, N_TDOWN_OUT_OF_ORDER, N_WORK_CHECKED, N_WORK_RATIO, N_TABLE_FULL, N_BIG_STEPS, N_DEEP_OPS, N_DEEP_LEVELS, N_BROAD_OPS, N_BROAD_NODES, N_LIVES, N_STREAM_FORMAT, N_END
};
static_assert(N_END <= NCNT, "counters");
inline void cnt(int c, u64 n = 1) { if(shared) shared->cnt[c] += n; }
inline void cntmax(int c, u64 n) { if(shared && shared->cnt[c] < n) shared->cnt[c] = n; }

struct Opd { node_ref h; TT f; };
struct Handle { int m; node_ref h; TT f; u64 fp; u32 size; int owner; };
struct Wide { int v; std::vector<node_ref> base; std::vector<TT> basef; std::vector<std::pair<u32, u32>> pr; std::vector<node_ref> made; };
struct Mgr { bdd_mgr* m = nullptr; size_t nv = 0, sink0[2] = {0, 0}; std::vector<std::unique_ptr<Wide>> wides; };
struct Ent { TT f; u32 size; };
struct Col { bdd_collection* c = nullptr; std::vector<Ent> e; };

struct NI { const void* addr; u32 var; int ai; int lo, hi; u64 fp; u32 parents, handles, xref; bool marked; };
struct Walk {
    bdd_mgr* m;
    std::unordered_map<const void*, int> id;
    std::vector<NI> n;
    std::vector<TT> f; std::vector<char> hasf;
    std::string canon; // first structural problem
    explicit Walk(bdd_mgr* mg);
    int visit(const node_ref& rc, int depth = 0);
    const TT& fn(int i);
    u64 norm(int root); // structure hash without addresses
    u32 count(int root);
};

struct LimBuf : std::streambuf {
    std::string out; size_t cap; int mode; // 0 short writes, 2 the buffer throws
    LimBuf(size_t c, int m) : cap(c), mode(m) {}
    struct Boom {};
    bool put(const char* s, size_t n);
    int overflow(int c) override;
    std::streamsize xsputn(const char* s, std::streamsize n) override;
};
void dress(std::ostream&, u32 kind); // formatting that the user of a stream may have left behind: base, digits in groups
struct ThrowStream {
    LimBuf& b; std::ostream os; bool dead = false;
    explicit ThrowStream(LimBuf& bb) : b(bb), os(&bb) {}
    template<class T> ThrowStream& operator<<(const T& x) { os << x; if(!os) throw LimBuf::Boom(); return *this; }
};

void do_turn(struct World& w, const Op& o);
struct World {
    const Scenario& sc; u32 cls;
    std::vector<u32> act;
    std::vector<Mgr> mgrs; std::vector<Col> cols;
    std::vector<std::unique_ptr<Handle>> hs;
    const Op* op = nullptr; bool fault_used = false;
    bool strict_end = true;
    explicit World(const Scenario& s, u32 c) : sc(s), cls(c), act(s.act) {}

    bool bad(u32 c, const char* fmt, ...);          // report a violation of class c; returns if the check ignores it
    // runs f in the system under test; if an injected allocation failure comes out, checks the state with
    // `between` and runs f again without faults. Returns false if f did not complete.
    template<class F, class B> bool sut_retry(F&& f, B&& between);
    // the last operation's simulated steps must be in proportion to the nodes (or tuples of nodes) it has to look at
    u64 last_steps = 0;
    void work(const char* what, u64 units, u64 per = 0); // per: steps for each unit of an operation that adds nothing to any table
    void work_tuples(const char* what, std::initializer_list<TT> f);
    void log(u64 h);
    int mi(u32 a); int ci(u32 a); Handle* hi(u32 a, int m = -1);
    void ensure_var(int m, u32 idx);
    node_ref leaf(int m, u32 k, TT& f);
    Opd pick(int m, u32 s);
    node_ref build(int m, const TT& f, int form, std::unordered_map<TT, node_ref, TTHash>& memo);
    void check_fn(u32 c, int m, node_ref r, const TT& f, const char* what);
    void result(u32 c, int m, node_ref r, TT f, const char* what);
    void audit(int m, bool after_gc);
    void audit_col(int c);
    void audit_all();
    TT read_col(int c, size_t i, const char* what, u32 cl, const TT* exp = nullptr);
    TT read_wide(int c, size_t i, const TT* exp);
    void new_mgr(); void new_col();
    void gc(int m);
    void drop(Handle* h);
    void del_mgr(int m);
    void exec(const Op& o);
    void query(Handle* h, int kind, u32 seed);
    void do_print(Handle* h, u32 mode, u32 k);
    void do_gv(int c, size_t i, u32 mode, u32 k);
    void do_view(int c, size_t i);
    void do_grow(const Op& o);
    void do_deep(const Op& o); void end_deep();
    std::shared_ptr<struct Deep> deep;
    void col_ops(const Op& o);
    void mgr_ops(const Op& o);
    void end();
    std::vector<char> assignment(u32 i, u64 salt, size_t extra = 0);
    int actidx(u32 var) const { for(size_t i = 0; i < act.size(); ++i) if(act[i] == var) return (int)i; return -1; }
};
std::string ttstr(const TT& f);
std::string check_printed(const std::string& txt, const node_ref& root);
} // namespace sim
