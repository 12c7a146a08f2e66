// A scenario fully determines a run: environment, active variables, operations with faults.
#pragma once
#include "seams.h"
#include <string>
#include <vector>

namespace sim {
enum Kind {
    K_MGR, K_MDEL, K_LEAF, K_BIN, K_NOT, K_ITE, K_NARY, K_FIND, K_RAND, K_CARD, K_LIM, K_REB,
    K_COPY, K_MOVE, K_ASGN, K_SELF, K_VEC, K_DROP, K_DROPN, K_DIE, K_GC, K_ADDV, K_QRY, K_QALL, K_PRN,
    K_CNEW, K_CDEL, K_CADD, K_CAND, K_CNRY, K_CORV, K_CREB, K_CREM, K_CEXP, K_CGV, K_CVIEW, K_CBLD, K_CCPY,
    K_AUD, K_GROW, K_WFIND, K_WDROP, K_BIGOP, K_MEMO, K_DEPTH, K_DEEP, K_TURN,
    K_PNRES, K_PNFREE, K_PGRES, K_PGFREE, K_PNEW,
    K_COUNT
};
extern const char* const kind_name[K_COUNT];

struct Op {
    int cl = 0, kind = 0, id = 0;
    u32 a[6] = {0, 0, 0, 0, 0, 0};
    bool fault = false;
    u64 from = 0, len = 0;
};
constexpr u32 DEEP_KINDS = 25; // kinds of operations on deep diagrams
constexpr u32 BROAD = 0xb0ad; // argument 5 of K_DEEP: broad diagrams with few levels
struct Scenario {
    std::string prop = "C01";
    u64 seed = 0;
    Env env;
    u64 stack_seed = 0;
    std::vector<u32> act;   // indices of the active variables, increasing
    bool teardown_rev = false;
    u64 sched_seed = 0;     // threaded variant: seed of the schedule ...
    bool explicit_sched = false; // ... or the explicit list of switches (scheduling point, client)
    std::vector<std::pair<u64, int>> sw;
    int only = -1;          // C16: run this client alone
    std::vector<Op> ops;
};
std::string to_text(const Scenario& s);
bool from_text(const std::string& t, Scenario& s);
Scenario generate(const std::string& prop, u64 seed, bool thorough, u64 index);
void add_faults(Scenario& s, const u32* op_allocs, u64 seed);

// what a property's check looks at
u32 classes_of(const std::string& prop);
enum Cls {
    C_SEM = 1, C_CANON = 2, C_STABLE = 4, C_GC = 8, C_TRAV = 16, C_TRACE = 32, C_CARD = 64, C_LIMIT = 128, C_REBASE = 256,
    C_COLL = 512, C_CAND = 1024, C_XFER = 2048, C_EXC = 4096, C_GROW = 8192, C_LEAK = 16384, C_PRINT = 32768, C_VIEW = 65536, C_BUILD = 131072, C_POOL = 262144, C_WORK = 524288, C_DEPTH = 1048576, C_DEEP = 2097152
};
void run_world(const Scenario& s, u32 classes);  // in the child; ends with status OK or die()
void run_setup(const Scenario& s);
void run_client(const Scenario& s, int client, void (*boundary)()); // threaded variant
void run_pools(const Scenario& s);
} // namespace sim
