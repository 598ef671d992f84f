// The generation fence: C21. Internal: drives nudb::detail::gentex and genlock directly.
#include <mutex>
#include <condition_variable>
#include <utility>
#include <boost/assert.hpp>
#include "env.h"
#define private public
#include <nudb/detail/gentex.hpp>
#undef private
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
using gentex = nudb::detail::gentex;
using glock = nudb::detail::genlock<gentex>;
static gentex* g;
static const unsigned MR = 4;
static unsigned rounds;
static bool in[MR];
static unsigned visit[MR];
static unsigned started, finished;
static bool hold_later;
static bool fence_done(void* p) { return finished >= *(unsigned*)p; }
// a reader stays inside over scheduling points; a reader that entered after a fence started may refuse to leave until
// that fence is over
static void reader(void* a) {
    unsigned me = (unsigned)(uintptr_t)a;
    for(unsigned r = 0; r < rounds; r++) {
        unsigned s0 = started;
        {
            glock l(*g);
            sym_check(l.owns_lock() && l.mutex() == g, "owned");
            visit[me]++;
            in[me] = true;
            sched_point();
            if(hold_later && s0 > finished) {
                sched_block(fence_done, &s0, "deadlock: the fence waits for a reader that entered after it started");
                sym_reach("later reader held");
            }
            in[me] = false;
        }
    }
}
static void fencer(void*) {
    unsigned nf = P("fences", 2);
    for(unsigned i = 0; i < nf; i++) {
        bool b[MR];
        unsigned v[MR];
        for(unsigned r = 0; r < MR; r++) {
            b[r] = in[r];
            v[r] = visit[r];
        }
        g->start();
        started++;
        sched_point();
        g->finish();
        for(unsigned r = 0; r < MR; r++)
            if(b[r]) {
                sym_check(!(in[r] && visit[r] == v[r]), "when the fence finishes every earlier reader has left");
                sym_reach("earlier reader");
            }
        finished++;
        sched_point();
    }
}
extern "C" void h_fence() {
    g = new gentex;
    rounds = P("rounds", 1);
    hold_later = P("hold", 1) && sym_choose("hold", 2);
    unsigned nr = P("readers", 2);
    thr_budget = P("budget", 3);
    thr_spurious = (int)P("spurious", 0);
    int t[MR + 1];
    int k = 0;
    for(unsigned r = 0; r < nr; r++) t[k++] = thr_start(reader, (void*)(uintptr_t)r);
    t[k++] = thr_start(fencer, nullptr);
    thr_on = true;
    for(int i = 0; i < k; i++) thr_join(t[i]);
    thr_on = false;
    // everything left: a further fence does not wait
    g->start();
    g->finish();
    sym_check(g->cur_ == 0 && g->prev_ == 0, "counters return to zero");
    sym_observe(thr_switches);
    sym_reach("fence");
    delete g;
}
// one step from any state: cur_ readers of the current generation, prev_ older ones
extern "C" void h_step() {
    g = new gentex;
    uint64_t gen = sym_u64("gen"), cur = sym_u64("cur"), prev = sym_u64("prev");
    sym_assume(cur < (1ull << 32) && prev < (1ull << 32));
    g->gen_ = gen;
    g->cur_ = cur;
    g->prev_ = prev;
    unsigned op = (unsigned)sym_choose("op", 5);
    if(op == 0) {
        uint64_t r = g->lock_gen();
        sym_check(r == gen && g->cur_ == cur + 1 && g->prev_ == prev && g->gen_ == gen,
                  "entering counts a reader of the current generation");
    } else if(op == 1) {
        sym_assume(cur > 0);
        g->unlock_gen(gen);
        sym_check(g->cur_ == cur - 1 && g->prev_ == prev && g->gen_ == gen,
                  "a reader of the current generation leaves");
    } else if(op == 2) {
        sym_assume(prev > 0);
        uint64_t old = sym_u64("reader");
        sym_assume(old != gen);
        g->unlock_gen(old);
        sym_check(g->cur_ == cur && g->prev_ == prev - 1 && g->gen_ == gen, "an older reader leaves");
    } else if(op == 3) {
        g->start();
        sym_check(g->cur_ == 0 && g->prev_ == prev + cur && g->gen_ != gen,
                  "starting a fence makes every reader an older one");
    } else {
        sym_assume(prev == 0);
        g->finish();
        sym_check(g->cur_ == cur && g->prev_ == 0 && g->gen_ == gen,
                  "finish returns once no older reader is left, whatever later readers do");
    }
    sym_reach("step");
}
// finish with older readers blocks until the last of them leaves
static bool fin;
static void waiter(void*) {
    g->finish();
    fin = true;
}
extern "C" void h_wait() {
    g = new gentex;
    unsigned nr = 1 + (unsigned)sym_choose("readers", 3), later = (unsigned)sym_choose("later", 2);
    uint64_t ids[4];
    for(unsigned i = 0; i < nr; i++) ids[i] = g->lock_gen();
    g->start();
    uint64_t lid = 0;
    if(later) lid = g->lock_gen();
    int t = thr_start(waiter, nullptr);
    thr_on = true;
    thr_budget = P("budget", 3);
    for(unsigned i = 0; i < nr; i++) {
        sched_point();
        sym_check(!fin, "finish does not return while an earlier reader is inside");
        g->unlock_gen(ids[i]);
    }
    thr_join(t);
    sym_check(fin, "finish returns");
    thr_on = false;
    if(later) {
        g->unlock_gen(lid);
    }
    g->start();
    g->finish();
    sym_reach("wait");
}
// the RAII lock: moves transfer the generation
extern "C" void h_genlock() {
    g = new gentex;
    unsigned k = (unsigned)sym_choose("op", 5);
    bool fence = sym_choose("fence", 2);
    {
        glock a(*g), b(*g, std::defer_lock);
        sym_check(a.owns_lock() && !b.owns_lock() && (bool)a, "ownership");
        sym_check(g->cur_ == 1, "one reader");
        if(fence) g->start();
        if(k == 0) {
            glock c(std::move(a));
            sym_check(c.owns_lock() && !a.owns_lock(), "moved");
        } else if(k == 1) {
            b = std::move(a);
            sym_check(b.owns_lock() && !a.owns_lock(), "moved");
            b.unlock();
            sym_check(!b.owns_lock(), "unlocked");
        } else if(k == 2) {
            a.unlock();
            a.lock();
            sym_check(a.owns_lock(), "relocked");
        } else if(k == 3) {
            b.lock();
            b = std::move(a);
            sym_check(g->cur_ + g->prev_ == 1, "the target is unlocked first");
        } else {
            swap(a, b);
            sym_check(b.owns_lock() && !a.owns_lock(), "swapped");
        }
    }
    sym_check(g->cur_ == 0 && g->prev_ == 0, "every lock is released exactly once, in its own generation");
    sym_reach("genlock");
}
