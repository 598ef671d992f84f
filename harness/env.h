// Environment model: POSIX files with crash and fault injection, clock, mutexes, condition variables, threads.
// Everything here is part of the trusted base; each rule is stated in DESIGN.md.
#pragma once
#include "sym.h"
#include <cerrno>
#include <cstring>
#include <cstdlib>
#include <chrono>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <pthread.h>
#include <time.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <random>

// ------------------------------------------------------------------ scheduler
#ifndef MAXTHR
#define MAXTHR 5
#endif
struct SThr {
    int co;
    bool live;
    bool (*ready)(void*);
    void* arg;
    void (*fn)(void*);
    void* farg;
    const void* obj;
    bool waited; /* has waited on a condition variable */
};
static SThr thr[MAXTHR] = {{0, true, nullptr, nullptr, nullptr, nullptr, nullptr, false}};
static int thr_n = 1, thr_cur = 0;
static int thr_budget = 0;
static bool thr_on = false;
static int thr_timers = 0;
// how often a condition variable may wake a waiter for no reason (the standard allows it)
static int thr_spurious = 0;
static unsigned thr_switches = 0;
static bool thr_runnable(int i) { return thr[i].live && (!thr[i].ready || thr[i].ready(thr[i].arg)); }
static void thr_to(int t) {
    if(t == thr_cur) return;
    thr_cur = t;
    thr_switches++;
    hb_thread(t);
    co_switch(thr[t].co);
}
// a place where another thread may run first (only while concurrency is switched on)
static void sched_point() {
    if(!thr_on || thr_budget <= 0) return;
    int c[MAXTHR], n = 0;
    for(int i = 0; i < thr_n; i++)
        if(i != thr_cur && thr_runnable(i)) c[n++] = i;
    if(!n) return;
    uint64_t k = sym_choose("sched", n + 1);
    if(k == 0) return;
    thr_budget--;
    thr_to(c[k - 1]);
}
static void (*thr_idle)() = nullptr; // called instead of reporting a deadlock
static void sched_block(bool (*ready)(void*), void* arg, const char* what) {
    while(!ready(arg)) {
        thr[thr_cur].ready = ready;
        thr[thr_cur].arg = arg;
        int c[MAXTHR], n = 0;
        for(int i = 0; i < thr_n; i++)
            if(i != thr_cur && thr_runnable(i)) c[n++] = i;
        if(!n) {
            if(thr_idle) thr_idle();
            sym_fail(what);
        }
        thr_to(c[sym_choose("sched", n)]);
    }
    thr[thr_cur].ready = nullptr;
}
[[noreturn]] static void sched_exit_thread() {
    thr[thr_cur].live = false;
    hb_release(&thr[thr_cur]);
    int c[MAXTHR], n = 0;
    for(int i = 0; i < thr_n; i++)
        if(i != thr_cur && thr_runnable(i)) c[n++] = i;
    if(!n) {
        if(thr_idle) thr_idle();
        sym_fail("deadlock: every remaining thread is blocked");
    }
    thr_to(c[sym_choose("sched", n)]);
    sym_fail("dead thread scheduled");
}
static void thr_entry(void* p) {
    SThr* t = (SThr*)p;
    hb_acquire(t);
    t->fn(t->farg);
    sched_exit_thread();
}
static int thr_start(void (*fn)(void*), void* arg) {
    if(thr_n >= MAXTHR) sym_kill();
    int i = thr_n++;
    thr[i].live = true;
    thr[i].ready = nullptr;
    thr[i].fn = fn;
    thr[i].farg = arg;
    hb_release(&thr[i]);
    thr[i].co = co_create(thr_entry, &thr[i]);
    return i;
}
static bool thr_isdead(void* p) { return !((SThr*)p)->live; }
static void thr_join(int i) {
    sched_block(thr_isdead, &thr[i], "deadlock: join of a thread that never ends");
    hb_acquire(&thr[i]);
}

// ------------------------------------------------------------------ mutexes
extern "C" {
struct EnvSM {
    int w, r;
};
static bool sm_free(void* p) {
    EnvSM* m = (EnvSM*)p;
    return m->w == 0 && m->r == 0;
}
static bool sm_nowr(void* p) { return ((EnvSM*)p)->w == 0; }
static const char* DL = "deadlock: lock can never be granted";
void env_sm_lock(void* m) {
    sched_point();
    sched_block(sm_free, m, DL);
    ((EnvSM*)m)->w = 1;
    hb_acquire(m);
    hb_acquire((char*)m + 1);
}
void env_sm_unlock(void* m) {
    sym_check(((EnvSM*)m)->w == 1, "unlock of a shared_mutex that is not held exclusively");
    hb_release(m);
    ((EnvSM*)m)->w = 0;
    sched_point();
}
void env_sm_lock_shared(void* m) {
    sched_point();
    sched_block(sm_nowr, m, DL);
    ((EnvSM*)m)->r++;
    hb_acquire(m);
}
void env_sm_unlock_shared(void* m) {
    sym_check(((EnvSM*)m)->r > 0, "unlock_shared of a shared_mutex that is not held");
    hb_release((char*)m + 1);
    ((EnvSM*)m)->r--;
    sched_point();
}
bool env_sm_try_lock(void* m) {
    sched_point();
    if(!sm_free(m)) return false;
    env_sm_lock(m);
    return true;
}
bool env_sm_try_lock_shared(void* m) {
    sched_point();
    if(!sm_nowr(m)) return false;
    env_sm_lock_shared(m);
    return true;
}
struct EnvMx {
    int owner;
    int r0;
}; // overlays pthread_mutex_t; owner is thread index + 1
static bool mx_free(void* p) { return ((EnvMx*)p)->owner == 0; }
int model_pthread_mutex_lock(pthread_mutex_t* m) {
    EnvMx* e = (EnvMx*)m;
    sched_point();
    sched_block(mx_free, e, DL);
    e->owner = thr_cur + 1;
    hb_acquire(m);
    return 0;
}
int model_pthread_mutex_trylock(pthread_mutex_t* m) {
    EnvMx* e = (EnvMx*)m;
    sched_point();
    if(e->owner) return EBUSY;
    e->owner = thr_cur + 1;
    hb_acquire(m);
    return 0;
}
int model_pthread_mutex_unlock(pthread_mutex_t* m) {
    EnvMx* e = (EnvMx*)m;
    sym_check(e->owner == thr_cur + 1, "unlock of a mutex the thread does not hold");
    hb_release(m);
    e->owner = 0;
    sched_point();
    return 0;
}
// condition variables: word 0 counts notify_all generations
struct EnvCv {
    unsigned gen, waiters, tokens;
};
struct CvW {
    EnvCv* c;
    unsigned gen;
    bool timed;
};
static bool cv_woken(void* p) {
    CvW* w = (CvW*)p;
    return w->c->gen != w->gen || w->c->tokens > 0 || (w->timed && thr_timers > 0) || thr_spurious > 0;
}
static int cv_wait(void* cv, pthread_mutex_t* m, bool timed) {
    EnvCv* c = (EnvCv*)cv;
    CvW w{c, c->gen, timed};
    sym_check(((EnvMx*)m)->owner == thr_cur + 1, "wait without holding the mutex");
    c->waiters++;
    thr[thr_cur].waited = true;
    hb_release(m);
    ((EnvMx*)m)->owner = 0;
    sched_point();
    sched_block(cv_woken, &w, "deadlock: condition variable never signalled");
    bool to = false;
    if(c->gen != w.gen) {
    } else if(c->tokens) {
        c->tokens--;
    } else if(timed && thr_timers > 0) {
        thr_timers--;
        to = true;
    } else
        thr_spurious--;
    c->waiters--;
    sched_block(mx_free, m, DL);
    ((EnvMx*)m)->owner = thr_cur + 1;
    hb_acquire(m);
    return to ? ETIMEDOUT : 0;
}
void model__ZNSt18condition_variableC1Ev(void* c) { memset(c, 0, sizeof(std::condition_variable)); }
void model__ZNSt18condition_variableD1Ev(void*) {}
void model__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, std::unique_lock<std::mutex>& l) {
    cv_wait(c, l.mutex()->native_handle(), false);
}
void model__ZNSt18condition_variable10notify_allEv(void* c) {
    ((EnvCv*)c)->gen++;
    ((EnvCv*)c)->tokens = 0;
    sched_point();
}
void model__ZNSt18condition_variable10notify_oneEv(void* c) {
    EnvCv* e = (EnvCv*)c;
    if(e->tokens < e->waiters) e->tokens++;
    sched_point();
}
static void (*env_on_timed)(int64_t) = nullptr; // a wait until this moment begins
int model_pthread_cond_clockwait(void* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) {
    if(env_on_timed) env_on_timed((int64_t)t->tv_sec * 1000000000 + t->tv_nsec);
    return cv_wait(c, m, true);
}
int model_pthread_cond_timedwait(void* c, pthread_mutex_t* m, const struct timespec* t) {
    return model_pthread_cond_clockwait(c, m, 0, t);
}
// std::thread
struct EnvThreadState {
    virtual ~EnvThreadState();
    virtual void run() = 0;
}; // layout of std::thread::_State
static void st_run(void* p) {
    ((EnvThreadState*)p)->run();
    delete(EnvThreadState*)p;
}
void model__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(std::thread* t,
                                                                                                 void** s, void (*)()) {
    void* st = *s;
    *s = nullptr;
    int i = thr_start(st_run, st);
    *(unsigned long*)t = (unsigned long)i;
    sched_point();
}
void model__ZNSt6thread6_StateD2Ev(void*) {}
void model__ZNSt11logic_errorC1EPKc(void* p, const char*) { memset(p, 0, sizeof(std::logic_error)); }
void model__ZNSt11logic_errorD1Ev(void*) {}
void model__ZNSt6thread4joinEv(std::thread* t) {
    unsigned long i = *(unsigned long*)t;
    sym_check(i > 0 && i < (unsigned long)thr_n, "join of a thread that was not started");
    thr_join((int)i);
    *(unsigned long*)t = 0;
}
// clock, sleep, randomness
static int64_t env_clock = 1000000000;
static int64_t (*env_clock_fn)() = nullptr;
static unsigned env_sleeps = 0;
static void (*env_on_sleep)() = nullptr;
int64_t model__ZNSt6chrono3_V212steady_clock3nowEv() {
    if(env_clock_fn) return env_clock_fn();
    return env_clock += 1000000;
}
int64_t model__ZNSt6chrono3_V212system_clock3nowEv() { return model__ZNSt6chrono3_V212steady_clock3nowEv(); }
int model_nanosleep(const struct timespec*, struct timespec*) {
    env_sleeps++;
    if(env_on_sleep) env_on_sleep();
    sched_point();
    return 0;
}
static unsigned env_rand = 0x1234567;
void model__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, void*) {}
void model__ZNSt13random_device7_M_finiEv(void*) {}
unsigned model__ZNSt13random_device9_M_getvalEv(void*) { return env_rand = env_rand * 1664525u + 1013904223u; }
}

// ------------------------------------------------------------------ files
#ifndef VF_CAP
#define VF_CAP 32768
#endif
#ifndef VF_N
#define VF_N 6
#endif
static const int VF_FD = 24;
struct VFile {
    char name[24];
    bool linked, append;
    uint64_t size, maxsize;
    unsigned refs;
};
struct VFd {
    bool open;
    int ino;
    int flags;
};
struct VOp {
    int kind, ino;
    uint64_t off, n, oldsize, oldmax;
    uint8_t *od, *nd;
};
static VFile vf[VF_N];
static uint8_t vf_d[VF_N][VF_CAP];
static VFd vfd[VF_FD];
static VOp vf_ops[600];
static int vf_nops;
static bool vf_record = false; // keep undo/redo records for crashes
static bool vf_crash_on = false;
static uint64_t vf_crash_at;
static unsigned vf_cnt = 0;
static int vf_home = 0;
static bool vf_crashed = false;
static int vf_crash_op = 0;
static bool vf_fault_on = false;
static uint64_t vf_fault_at,
    vf_fault_mode /* 0: this call only, 1: from this call on, 2: as 1 and a write first transfers some bytes */;
static unsigned vf_fcnt = 0;
static bool vf_faulted = false;
static int vf_fault_kind = 0;
static unsigned vf_faults = 0, vf_partial = 0;
static bool vf_unlink_ok = false;
enum { K_OPEN = 1, K_CREATE, K_PREAD, K_PWRITE, K_FSYNC, K_TRUNC, K_FSTAT, K_UNLINK, K_FADV };
static unsigned vf_calls[10];
static void (*vf_hook)(int kind, int ino, uint64_t off, uint64_t n) = nullptr;
static unsigned vf_misuse = 0;
// Sparse files: a logical file is a list of extents of the stored image; what lies between two extents is a hole that
// reads as zeros. The last extent is open-ended. No extents: the image is the file.
struct VExt {
    uint64_t log, len, phys;
};
static const int VF_X = 4;
static VExt vf_x[VF_N][VF_X];
static int vf_nx[VF_N];
static uint64_t vf_logsize(int ino, uint64_t phys) {
    if(!vf_nx[ino]) return phys;
    VExt& e = vf_x[ino][vf_nx[ino] - 1];
    return phys - e.phys + e.log;
}
// extent that holds logical offset off, or -1 for a hole
static int vf_extent(int ino, uint64_t off) {
    for(int i = 0; i < vf_nx[ino]; i++)
        if(off >= vf_x[ino][i].log && off - vf_x[ino][i].log < vf_x[ino][i].len) return i;
    return -1;
}
static int vf_find(const char* p) {
    for(int i = 0; i < VF_N; i++)
        if(vf[i].linked && !strcmp(vf[i].name, p)) return i;
    return -1;
}
static int vf_new(const char* p) {
    for(int i = 0; i < VF_N; i++)
        if(!vf[i].linked && vf[i].refs == 0) {
            bool busy = false;
            for(int j = 0; j < VF_FD; j++)
                if(vfd[j].open && vfd[j].ino == i) busy = true;
            if(busy) continue;
            size_t n = strlen(p);
            if(n >= sizeof vf[i].name) sym_kill();
            memset(&vf[i], 0, sizeof vf[i]);
            memcpy(vf[i].name, p, n);
            vf[i].linked = true;
            vf[i].append = p[0] != 'k';
            memset(vf_d[i], 0, VF_CAP);
            return i;
        }
    sym_kill();
}
static uint64_t vf_size(const char* p) {
    int i = vf_find(p);
    return i < 0 ? 0 : vf[i].size;
}
static bool vf_exists(const char* p) { return vf_find(p) >= 0; }
static uint8_t* vf_data(const char* p) {
    int i = vf_find(p);
    return i < 0 ? nullptr : vf_d[i];
}
static int vf_openfds() {
    int n = 0;
    for(int i = 0; i < VF_FD; i++) n += vfd[i].open;
    return n;
}
// crash before this mutating operation?
static void vf_crash_point(int kind) {
    sched_point();
    if(!vf_crash_on) return;
    if(vf_crash_at == vf_cnt++) {
        vf_crash_on = false;
        vf_crashed = true;
        vf_crash_op = kind;
        co_switch(vf_home);
        sym_fail("crashed process continued");
    }
}
// does this call fail?
static int vf_fault_thr = -1; // calls of this thread only
static bool vf_fault(int kind) {
    if(vf_fault_thr >= 0 && thr_cur != vf_fault_thr) return false;
    if(!vf_fault_on || (vf_unlink_ok && kind == K_UNLINK)) return false;
    bool f;
    if(vf_faulted) {
        f = vf_fault_mode != 0;
        vf_fcnt++;
    } else {
        f = vf_fault_at == vf_fcnt++;
    }
    if(f) {
        vf_faulted = true;
        if(!vf_fault_kind) vf_fault_kind = kind;
        vf_faults++;
    }
    return f;
}
// harmless outcomes a system call may have: interrupted (1) or a partial transfer (2: one byte, 3: all but one), at one
// call or at every other call from there on
static bool vf_benign_on = false;
static uint64_t vf_benign_at;
static bool vf_benign_rep = false, vf_benign_last = false;
static unsigned vf_bcnt = 0, vf_benigns = 0;
static unsigned vf_benign(bool transfer) {
    if(!vf_benign_on) return 0;
    if(vf_benign_last) {
        vf_benign_last = false;
        return 0;
    }
    bool hit = vf_benigns ? vf_benign_rep : vf_benign_at == vf_bcnt++;
    if(!hit) return 0;
    vf_benigns++;
    vf_benign_last = true;
    return transfer ? 1 + (unsigned)sym_choose("benign", vf_benigns == 1 ? 3 : 1) : 1;
}
static bool vf_ok(int fd) {
    if(fd < 0 || fd >= VF_FD || !vfd[fd].open) {
        vf_misuse++;
        return false;
    }
    return true;
}
static void vf_push(int kind, int ino, uint64_t off, uint64_t n, const void* nd) {
    if(!vf_record) return;
    if(vf_nops >= 600) sym_kill();
    VOp& o = vf_ops[vf_nops++];
    o.kind = kind;
    o.ino = ino;
    o.off = off;
    o.n = n;
    o.oldsize = vf[ino].size;
    o.oldmax = vf[ino].maxsize;
    o.od = o.nd = nullptr;
    uint64_t len = n;
    if(kind == 1) {
        len = off < vf[ino].maxsize ? vf[ino].maxsize - off : 0;
    }
    if(len) {
        o.od = (uint8_t*)malloc(len);
        memcpy(o.od, vf_d[ino] + off, len);
        if(kind == 0) {
            o.nd = (uint8_t*)malloc(len);
            memcpy(o.nd, nd, len);
        }
    }
    o.n = len;
}
static void vf_setsize(int ino, uint64_t s, uint64_t mx) {
    vf[ino].size = s;
    vf[ino].maxsize = mx;
}
extern "C" {
int model_open(const char* p, int fl, ...) {
    int ino = vf_find(p);
    bool mut = (fl & O_CREAT) && ino < 0;
    if(mut)
        vf_crash_point(K_CREATE);
    else
        sched_point();
    vf_calls[mut ? K_CREATE : K_OPEN]++;
    if(vf_fault(mut ? K_CREATE : K_OPEN)) {
        errno = EACCES;
        return -1;
    }
    if(ino < 0) {
        if(!(fl & O_CREAT)) {
            errno = ENOENT;
            return -1;
        }
        ino = vf_new(p);
        if(vf_hook) vf_hook(K_CREATE, ino, 0, 0);
    } else if((fl & O_CREAT) && (fl & O_EXCL)) {
        errno = EEXIST;
        return -1;
    } else if(fl & O_TRUNC) {
        vf_push(1, ino, 0, 0, nullptr);
        memset(vf_d[ino], 0, VF_CAP);
        vf_setsize(ino, 0, 0);
    }
    for(int i = 3; i < VF_FD; i++)
        if(!vfd[i].open) {
            vfd[i].open = true;
            vfd[i].ino = ino;
            vfd[i].flags = fl;
            return i;
        }
    errno = EMFILE;
    return -1;
}
int model_close(int fd) {
    if(!vf_ok(fd)) {
        errno = EBADF;
        return -1;
    }
    vfd[fd].open = false;
    return 0;
}
int model_posix_fadvise(int fd, off_t, off_t, int) {
    if(!vf_ok(fd)) return EBADF;
    if(vf_fault(K_FADV)) {
        errno = 0;
        return EIO;
    }
    return 0;
} // returns the error number and does not set errno
int model_fstat(int fd, struct stat* st) {
    sched_point();
    if(!vf_ok(fd)) {
        errno = EBADF;
        return -1;
    }
    vf_calls[K_FSTAT]++;
    if(vf_fault(K_FSTAT)) {
        errno = EIO;
        return -1;
    }
    memset(st, 0, sizeof *st);
    st->st_size = (off_t)vf_logsize(vfd[fd].ino, vf[vfd[fd].ino].size);
    return 0;
}
int model_fsync(int fd) {
    vf_crash_point(K_FSYNC);
    if(!vf_ok(fd)) {
        errno = EBADF;
        return -1;
    }
    vf_calls[K_FSYNC]++;
    if(vf_benign(false)) {
        errno = EINTR;
        return -1;
    }
    if(vf_fault(K_FSYNC)) {
        errno = EIO;
        return -1;
    }
    int ino = vfd[fd].ino;
    if(vf_hook) vf_hook(K_FSYNC, ino, 0, 0);
    int j = 0;
    for(int i = 0; i < vf_nops; i++)
        if(vf_ops[i].ino != ino)
            vf_ops[j++] = vf_ops[i];
        else {
            free(vf_ops[i].od);
            free(vf_ops[i].nd);
        }
    vf_nops = j;
    return 0;
}
int model_fdatasync(int fd) { return model_fsync(fd); }
int model_ftruncate(int fd, off_t len) {
    vf_crash_point(K_TRUNC);
    if(!vf_ok(fd) || (vfd[fd].flags & O_ACCMODE) == O_RDONLY) {
        errno = EINVAL;
        return -1;
    }
    vf_calls[K_TRUNC]++;
    if(vf_benign(false)) {
        errno = EINTR;
        return -1;
    }
    if(vf_fault(K_TRUNC)) {
        errno = EIO;
        return -1;
    }
    int ino = vfd[fd].ino;
    uint64_t n = (uint64_t)len;
    if(vf_nx[ino]) {
        int x = vf_extent(ino, n);
        if(x != vf_nx[ino] - 1) sym_fail("a large file is cut below its committed size");
        n = n - vf_x[ino][x].log + vf_x[ino][x].phys;
    }
    if(n > VF_CAP) {
        errno = EFBIG;
        return -1;
    }
    n = sym_concretize(n);
    if(vf_hook) vf_hook(K_TRUNC, ino, n, 0);
    vf_push(1, ino, n, 0, nullptr);
    if(n < vf[ino].maxsize) memset(vf_d[ino] + n, 0, vf[ino].maxsize - n);
    vf_setsize(ino, n, n);
    return 0;
}
int model_unlink(const char* p) {
    vf_crash_point(K_UNLINK);
    vf_calls[K_UNLINK]++;
    int ino = vf_find(p);
    if(vf_fault(K_UNLINK)) {
        errno = EACCES;
        return -1;
    }
    if(ino < 0) {
        errno = ENOENT;
        return -1;
    }
    if(vf_hook) vf_hook(K_UNLINK, ino, 0, 0);
    vf[ino].linked = false;
    return 0;
}
ssize_t model_pread(int fd, void* b, size_t n, off_t off0) {
    sched_point();
    if(!vf_ok(fd)) {
        errno = EBADF;
        return -1;
    }
    vf_calls[K_PREAD]++;
    if(vf_fault(K_PREAD)) {
        errno = EIO;
        return -1;
    }
    unsigned bn = vf_benign(!sym_is_symbolic(n) && n > 1);
    if(bn == 1) {
        errno = EINTR;
        return -1;
    }
    if(bn) n = bn == 2 ? 1 : n - 1;
    int ino = vfd[fd].ino;
    uint64_t off = (uint64_t)off0;
    if(off0 < 0) {
        errno = EINVAL;
        return -1;
    }
    if(vf_nx[ino]) {
        int x = vf_extent(ino, off);
        n = sym_concretize(n);
        if(x < 0) {
            for(int i = vf_nx[ino] - 1; i >= 0; i--)
                if(off < vf_x[ino][i].log && n > vf_x[ino][i].log - off) n = sym_concretize(vf_x[ino][i].log - off);
            memset(b, 0, n);
            return (ssize_t)n;
        }
        off = off - vf_x[ino][x].log;
        if(n > vf_x[ino][x].len - off) n = sym_concretize(vf_x[ino][x].len - off);
        off += vf_x[ino][x].phys;
    }
    if(vf_hook) vf_hook(K_PREAD, ino, off, n);
    uint64_t sz = vf[ino].size, mx = vf[ino].maxsize;
    if(off >= mx || off >= sz) return 0;
    off = sym_concretize(off);
    uint64_t av = sz - off;
    uint64_t r = n;
    if(n > av)
        r = av;
    else
        sym_reach("full read");
    uint64_t lim = mx - off;
    if(!sym_is_symbolic(n) && n < lim) lim = n;
    if(!sym_is_symbolic(n)) hb_touch(b, lim, 1);
    sym_memcpy(b, vf_d[ino] + off, r, lim);
    return (ssize_t)r;
}
ssize_t model_pwrite(int fd, const void* b, size_t n, off_t off0) {
    vf_crash_point(K_PWRITE);
    if(!vf_ok(fd) || (vfd[fd].flags & O_ACCMODE) == O_RDONLY) {
        errno = EBADF;
        return -1;
    }
    vf_calls[K_PWRITE]++;
    int ino = vfd[fd].ino;
    uint64_t off = (uint64_t)off0;
    if(vfd[fd].flags & O_APPEND) off = vf[ino].size;
    bool fault = vf_fault(K_PWRITE);
    unsigned bn = vf_benign(!sym_is_symbolic(n) && n > 1);
    if(bn == 1) {
        errno = EINTR;
        return -1;
    }
    if(bn) n = bn == 2 ? 1 : n - 1;
    if(fault && n > 1 && vf_fault_mode == 2 && !vf_partial) {
        vf_partial = 1;
        uint64_t t = sym_choose("partial", 3);
        n = t == 0 ? 1 : t == 1 ? n / 2 : n - 1;
    } else if(fault) {
        errno = ENOSPC;
        return -1;
    }
    if(vf_nx[ino] && !(vfd[fd].flags & O_APPEND)) {
        int x = vf_extent(ino, off);
        n = sym_concretize(n);
        if(x < 0) {
            for(uint64_t i = 0; i < n; i++)
                if(((const char*)b)[i]) sym_fail("a large file is written where nothing belongs to this operation");
            return (ssize_t)n;
        }
        off = off - vf_x[ino][x].log;
        if(n > vf_x[ino][x].len - off) n = sym_concretize(vf_x[ino][x].len - off);
        off += vf_x[ino][x].phys;
    }
    if(off > VF_CAP || n > VF_CAP - off) {
        errno = ENOSPC;
        return -1;
    }
    off = sym_concretize(off);
    n = sym_concretize(n);
    if(vf_hook) vf_hook(K_PWRITE, ino, off, n);
    hb_touch(b, n, 0);
    vf_push(0, ino, off, n, b);
    memcpy(vf_d[ino] + off, b, n);
    if(off + n > vf[ino].size) vf_setsize(ino, off + n, off + n);
    return (ssize_t)n;
}
}
// The machine stopped: decide what of the unsynced operations reached the disk, then forget the process.
//  - data and log files (any name not starting with k): an ordered prefix of the pending appends and truncations, the
//  last append torn at any byte
//  - the key file: every pending overwrite independently reaches the disk up to any byte
static void vf_after_crash() {
    thr_cur = 0;
    for(int i = 0; i < VF_FD; i++) vfd[i].open = false;
    for(int ino = 0; ino < VF_N; ino++) {
        int idx[600], n = 0;
        for(int i = 0; i < vf_nops; i++)
            if(vf_ops[i].ino == ino) idx[n++] = i;
        if(!n) continue;
        for(int k = n - 1; k >= 0; k--) {
            VOp& o = vf_ops[idx[k]];
            if(o.n) memcpy(vf_d[ino] + o.off, o.od, o.n);
            vf_setsize(ino, o.oldsize, o.oldmax);
        }
        if(!vf[ino].linked) continue;
        if(vf[ino].append) {
            int j = (int)sym_choose("persisted", n + 1);
            for(int k = 0; k < j; k++) {
                VOp& o = vf_ops[idx[k]];
                if(o.kind == 0) {
                    memcpy(vf_d[ino] + o.off, o.nd, o.n);
                    if(o.off + o.n > vf[ino].size) vf_setsize(ino, o.off + o.n, o.off + o.n);
                } else {
                    if(o.off < vf[ino].maxsize) memset(vf_d[ino] + o.off, 0, vf[ino].maxsize - o.off);
                    vf_setsize(ino, o.off, o.off);
                }
            }
            if(j < n && vf_ops[idx[j]].kind == 0) {
                VOp& o = vf_ops[idx[j]];
                uint64_t t = sym_below("torn", o.n);
                if(vf[ino].size <= o.off) {
                    memcpy(vf_d[ino] + o.off, o.nd, o.n);
                    vf_setsize(ino, o.off + t, o.off + o.n - 1);
                }
            }
        } else
            for(int k = 0; k < n; k++) {
                VOp& o = vf_ops[idx[k]];
                if(o.kind == 0) {
                    uint64_t t = sym_below("torn", o.n + 1);
                    sym_memcpy(vf_d[ino] + o.off, o.nd, t, o.n);
                    uint64_t e = o.off + t;
                    uint64_t s = vf[ino].size;
                    uint64_t ns = (t != 0) & (e > s) ? e : s;
                    uint64_t m = o.off + o.n > vf[ino].maxsize ? o.off + o.n : vf[ino].maxsize;
                    vf_setsize(ino, ns, m);
                } else if(sym_choose("persisted", 2)) {
                    if(o.off < vf[ino].maxsize) memset(vf_d[ino] + o.off, 0, vf[ino].maxsize - o.off);
                    vf_setsize(ino, o.off, o.off);
                }
            }
    }
    vf_nops = 0;
    vf_crash_on = false;
}
// run fn(arg) as a process that stops before its k-th mutating file operation, k arbitrary in [0,limit]; returns true
// if it stopped
static bool vf_done_flag;
static void (*vf_pfn)();
static void vf_proc(void*) {
    vf_pfn();
    vf_done_flag = true;
    vf_crash_on = false;
    co_switch(vf_home);
    sym_fail("finished process continued");
}
static bool vf_run_crashing(void (*fn)(), unsigned limit) {
    vf_home = co_self();
    vf_pfn = fn;
    vf_done_flag = false;
    vf_crashed = false;
    vf_cnt = 0;
    vf_record = true;
    vf_crash_on = true;
    vf_crash_at = sym_below("crash_at", limit);
    int c = co_create(vf_proc, nullptr);
    co_switch(c);
    if(vf_done_flag) {
        sym_check(vf_cnt <= limit, "harness bound on crash points too small");
    }
    return !vf_done_flag;
}
