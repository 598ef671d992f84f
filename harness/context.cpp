// The context with store_base objects of its own: C22. Internal: context::insert/erase and store_base are not public.
#include <boost/assert.hpp>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <memory>
#include <atomic>
#include "env.h"
#define private public
#define protected public
#include <nudb/context.hpp>
#include <nudb/detail/store_base.hpp>
#undef private
#undef protected
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static const unsigned MS = 3;
struct FakeStore : nudb::detail::store_base {
    unsigned id;
    bool open, in;
    unsigned flushes;
    int by;
    void flush() override {
        by = thr_cur;
        sym_check(open, "a closed database is not touched");
        sym_check(!in, "one thread at a time flushes a database");
        in = true;
        sched_point();
        in = false;
        flushes++;
        sched_point();
    }
};
static FakeStore* fs[MS];
static nudb::context* cx;
static unsigned nstores;
static void add(unsigned i) {
    fs[i]->open = true;
    cx->insert(*fs[i]);
}
static void drop(unsigned i) {
    cx->erase(*fs[i]);
    sym_check(!fs[i]->in, "closing waits for the flush in progress");
    fs[i]->open = false;
}
static void within_second(int64_t until) {
    bool any = false;
    for(unsigned i = 0; i < nstores; i++) any |= fs[i]->open;
    if(any) {
        sym_check(until <= env_clock + 1000000000, "the next round is due within a second");
        sym_reach("round due");
    }
}
static void make(unsigned n) {
    nstores = n;
    env_on_timed = within_second;
    cx = new nudb::context;
    for(unsigned i = 0; i < n; i++) {
        fs[i] = new FakeStore;
        fs[i]->id = i;
        fs[i]->open = fs[i]->in = false;
        fs[i]->flushes = 0;
        add(i);
    }
}
static bool all_flushed(void* p) {
    unsigned m = *(unsigned*)p;
    for(unsigned i = 0; i < nstores; i++)
        if((m >> i & 1) && !fs[i]->flushes) return false;
    return true;
}
static void wait_flushed(unsigned mask) {
    sched_block(all_flushed, &mask, "deadlock: an open database is never flushed although a round is due");
}
static void kill_all() {
    for(unsigned i = 0; i < nstores; i++)
        if(fs[i]->open) drop(i);
    for(unsigned i = 0; i < nstores; i++) delete fs[i];
    delete cx;
    sym_check(vf_misuse == 0, "misuse");
    sym_observe(thr_switches);
    sym_reach("shutdown");
}
static void runner(void*) { cx->run(); }
static void flusher(void*) { cx->flush(); }
static void dropper(void* p) { drop((unsigned)(uintptr_t)p); }
static void on() {
    hb_enable(P("hb_on", 0));
    thr_on = true;
    thr_budget = P("budget", 2);
    thr_spurious = (int)P("spurious", 0);
}
static void off() {
    thr_on = false;
    thr_spurious = 0;
    hb_enable(0);
}
// worker threads; one round reaches every database; a database is closed meanwhile; everything stops
extern "C" void h_workers() {
    unsigned nt = P("threads", 1), n = P("stores", 2);
    make(n);
    thr_timers = P("timers", 1);
    int t[3];
    for(unsigned i = 0; i < nt; i++) t[i] = thr_start(runner, nullptr);
    on();
    unsigned mask = (1u << n) - 1;
    if(P("drop", 1)) {
        if(sym_choose("drop", 2)) {
            drop(0);
            mask &= ~1u;
        }
    }
    wait_flushed(mask);
    sym_reach("flushed");
    static unsigned nt_;
    nt_ = nt;
    sched_block([](void* p) { return cx->num_threads_ >= *(unsigned*)p; }, &nt_, "deadlock: the workers never enter");
    if(P("readd", 0) && !fs[0]->open) {
        add(0);
    }
    cx->stop_all();
    for(unsigned i = 0; i < nt; i++) thr_join(t[i]);
    off();
    sym_check(cx->num_threads_ == 0, "every thread left");
    unsigned f = fs[n - 1]->flushes;
    cx->flush();
    sym_check(fs[n - 1]->flushes == f + 1, "after the stop a flush by hand works again");
    kill_all();
}
// databases are closed by threads of their own while a worker flushes and everything is being stopped
extern "C" void h_close_stop() {
    unsigned nc = P("closers", 1), n = P("stores", 1);
    make(n);
    thr_timers = P("timers", 1);
    int t[4];
    unsigned k = 0;
    t[k++] = thr_start(runner, nullptr);
    for(unsigned i = 0; i < nc; i++) t[k++] = thr_start(dropper, (void*)(uintptr_t)i);
    on();
    sched_block([](void*) { return cx->num_threads_ >= 1; }, nullptr, "deadlock: the worker never enters");
    if(P("stop", 1)) cx->stop_all();
    for(unsigned i = 1; i < k; i++) thr_join(t[i]);
    if(!P("stop", 1)) {
        sym_reach("closed while running");
        cx->stop_all();
    }
    thr_join(t[0]);
    off();
    sym_check(cx->num_threads_ == 0, "every thread left");
    kill_all();
}
// two databases are closed while threads flush both by hand
extern "C" void h_close2() {
    unsigned n = 2;
    make(n);
    int t[4];
    for(unsigned i = 0; i < 2; i++) t[i] = thr_start(flusher, nullptr);
    for(unsigned i = 0; i < 2; i++) t[2 + i] = thr_start(dropper, (void*)(uintptr_t)i);
    on();
    for(unsigned i = 0; i < 4; i++) thr_join(t[i]);
    off();
    kill_all();
    sym_reach("closed both");
}
// stopping at any moment, threads anywhere
extern "C" void h_stop() {
    unsigned nt = P("threads", 2);
    make(P("stores", 1));
    thr_timers = P("timers", 2);
    bool own = sym_choose("own", 2);
    int t[3];
    if(own)
        cx->start();
    else
        for(unsigned i = 0; i < nt; i++) t[i] = thr_start(runner, nullptr);
    on();
    if(!own) {
        static bool in_;
        struct W {
            static bool ready(void* p) { return cx->num_threads_ >= *(unsigned*)p; }
        };
        (void)in_;
        sched_block(W::ready, &nt, "deadlock: the workers never enter");
    }
    cx->stop_all();
    if(!own)
        for(unsigned i = 0; i < nt; i++) thr_join(t[i]);
    off();
    sym_check(cx->num_threads_ == 0 && !cx->stop_, "every thread left");
    if(own) {
        cx->start();
        on();
        cx->stop_all();
        off();
    }
    kill_all();
}
// flush by hand from two threads while a database is closed and another one opened
extern "C" void h_flush() {
    unsigned n = P("stores", 2);
    make(n);
    int t[3];
    unsigned k = 0;
    t[k++] = thr_start(flusher, nullptr);
    if(P("two", 1)) t[k++] = thr_start(flusher, nullptr);
    if(P("drop", 1)) t[k++] = thr_start(dropper, (void*)0);
    on();
    for(unsigned i = 0; i < k; i++) thr_join(t[i]);
    off();
    for(unsigned i = 1; i < n; i++) sym_check(fs[i]->flushes >= 1, "a flush reaches every open database");
    if(!P("drop", 1)) sym_check(fs[0]->flushes >= 1, "a flush reaches every open database");
    unsigned f[MS];
    for(unsigned i = 0; i < n; i++) f[i] = fs[i]->flushes;
    cx->flush();
    for(unsigned i = 0; i < n; i++)
        if(fs[i]->open)
            sym_check(fs[i]->flushes == f[i] + 1, "no database is lost: the next round flushes each exactly once");
        else
            sym_check(fs[i]->flushes == f[i], "a closed database is not touched");
    kill_all();
}
// the lists under any short sequence of operations, without threads
extern "C" void h_seq() {
    unsigned n = P("stores", 3);
    make(n);
    for(unsigned s = 0; s < P("steps", 4); s++) {
        unsigned op = (unsigned)sym_choose("op", n + 1);
        if(op == n) {
            unsigned f[MS];
            for(unsigned i = 0; i < n; i++) f[i] = fs[i]->flushes;
            cx->flush();
            for(unsigned i = 0; i < n; i++)
                sym_check(fs[i]->flushes == f[i] + (fs[i]->open ? 1 : 0),
                          "a flush reaches exactly the open databases, once");
            sym_reach("round");
        } else if(fs[op]->open)
            drop(op);
        else
            add(op);
    }
    kill_all();
}
// a context that is destroyed with a database still open says so
extern "C" void h_destroy() {
    make(1);
    bool threw = false;
    thr_timers = 1;
    if(sym_choose("own", 2)) cx->start();
    if(sym_choose("drop", 2)) drop(0);
    on();
    try {
        delete cx;
    } catch(std::logic_error&) {
        threw = true;
    }
    off();
    sym_check(threw == fs[0]->open, "an open database is reported when the context is destroyed");
    sym_reach(threw ? "threw" : "clean");
}

// a flush by hand while a service thread runs does nothing: the service threads do the work
extern "C" void h_flush_ignored() {
    make(P("stores", 1));
    thr_timers = P("timers", 1);
    for(unsigned i = 0; i < nstores; i++) fs[i]->by = -1;
    int t = thr_start(runner, nullptr);
    on();
    sched_block([](void* p) { return ((SThr*)p)->waited; }, &thr[t], "deadlock: the worker never waits");
    cx->flush();
    for(unsigned i = 0; i < nstores; i++) sym_check(fs[i]->by != 0, "only service threads flush while there are any");
    cx->stop_all();
    thr_join(t);
    cx->flush();
    off();
    for(unsigned i = 0; i < nstores; i++) sym_check(fs[i]->by == 0, "without service threads a flush by hand flushes");
    sym_reach("flush ignored");
    kill_all();
}
