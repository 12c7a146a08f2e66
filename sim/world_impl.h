#pragma once
#include "world.h"
#include <exception>
namespace sim {
template<class F> TT budget(F&& fn, bool& toobig)
{
    if(!WIDE) return fn();
    rb::set_limit(20000); TT t = tt_const(false);
    try { t = fn(); if(tt_size(t) > 1500) toobig = true; } catch(const rb::Budget&) { toobig = true; }
    rb::set_limit(~0ull);
    if(toobig) cnt(N_SKIPPED);
    return t;
}
template<class F, class B> bool World::sut_retry(F&& f, B&& between)
{
    Ctx* c = tctx;
    const bool inject = op && op->fault && !fault_used;
    c->fail_from = inject ? op->from : ~0ull; c->fail_to = inject ? op->from + op->len : 0;
    c->fails_fired = 0; c->armed = true;
    bool nomem = false; std::string other;
    u64 before = c->steps;
    try { SutScope s; f(); }
    catch(const std::bad_alloc&) { nomem = true; }
    catch(const std::exception& e) { other = std::string("exception: ") + e.what(); }
    catch(...) { other = "unknown exception"; }
    c->armed = false;
    last_steps = c->steps - before;
    const u64 fired = c->fails_fired;
    if(fired) { fault_used = true; cnt(N_FAULT_FIRED, 1); if(fired > 1) cnt(N_FAULT_BURST); }
    if(!other.empty()) bad(C_EXC, "%s", other.c_str());
    if(!nomem) { if(fired) cnt(N_FAULT_ABSORBED); return true; }
    if(!fired) bad(C_EXC, "std::bad_alloc although no allocation failed");
    between();
    before = c->steps;
    try { SutScope s; f(); }
    catch(const std::exception& e) { other = e.what(); }
    catch(...) { other = "unknown exception"; }
    last_steps = c->steps - before;
    if(!other.empty()) bad(C_EXC, "repeating the operation after an allocation failure: %s", other.c_str());
    cnt(N_RETRY_OK);
    return true;
}
} // namespace sim
