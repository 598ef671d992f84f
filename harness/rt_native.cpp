// Native replay runtime: feeds a recorded model to the harness compiled with the system compiler.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" {
void __sanitizer_start_switch_fiber(void**, const void*, size_t);
void __sanitizer_finish_switch_fiber(void*, const void**, size_t*);
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
}
static uint64_t heap;
static bool heap_off; // the runtime's own blocks do not count
static void on_malloc(const volatile void*, size_t) {
    if(!heap_off) heap++;
}
static void on_free(const volatile void* p) {
    if(p && !heap_off) heap--;
}
#endif
struct In {
    std::string name;
    bool bytes;
    unsigned long long v;
    std::vector<unsigned char> b;
};
static std::vector<In> ins;
static size_t pos;
static std::map<std::string, unsigned long long> prm;
static void out(const char* s) {
    size_t n = strlen(s);
    while(n) {
        ssize_t k = ::write(1, s, n);
        if(k <= 0) break;
        s += k;
        n -= k;
    }
}
static void die(int code, const char* w) {
    std::string s = std::string(w) + "\n";
    out(s.c_str());
    _exit(code);
}
static In& next(const char* name, bool bytes) {
    if(pos >= ins.size()) die(4, (std::string("REPLAY-EXHAUSTED at ") + name).c_str());
    In& i = ins[pos++];
    if(i.name != name || i.bytes != bytes)
        die(4, (std::string("REPLAY-DIVERGED expected ") + i.name + " got " + name).c_str());
    return i;
}
extern "C" {
uint64_t sym_u64(const char* n) { return next(n, false).v; }
uint64_t sym_bits(const char* n, unsigned) { return next(n, false).v; }
void sym_bytes(void* p, size_t n, const char* nm) {
    In& i = next(nm, true);
    if(i.b.size() != n) die(4, "REPLAY-DIVERGED size");
    if(n) memcpy(p, i.b.data(), n);
}
void sym_assume(bool c) {
    if(!c) die(5, "REPLAY-ASSUME-FALSE");
}
void sym_check(bool c, const char* m) {
    if(!c) die(1, (std::string("REPLAY-VIOLATION ") + m).c_str());
}
void sym_fail(const char* m) {
    die(1, (std::string("REPLAY-VIOLATION ") + m).c_str());
    abort();
}
void sym_reach(const char*) {}
void sym_observe(uint64_t v) {
    char b[40];
    snprintf(b, 40, "OBS %llu\n", (unsigned long long)v);
    out(b);
}
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_is_symbolic(uint64_t) { return 0; }
void sym_exit() {
    die(0, "REPLAY-END");
    abort();
}
void sym_kill() {
    die(5, "REPLAY-KILLED");
    abort();
}
uint64_t sym_param(const char* n, uint64_t d) {
    auto i = prm.find(n);
    return i == prm.end() ? d : i->second;
}
uint64_t sym_heap() {
#if defined(__SANITIZE_ADDRESS__)
    return heap;
#else
    return 0;
#endif
}
int sym_engine() { return 0; }
void sym_log(const char* s, uint64_t v) {
    if(getenv("SYM_LOG")) {
        char b[200];
        snprintf(b, 200, "LOG %s %llu 0x%llx\n", s, (unsigned long long)v, (unsigned long long)v);
        out(b);
    }
}
void sym_memcpy(void* d, const void* s, size_t n, size_t) { memcpy(d, s, n); }
#if defined(__SANITIZE_THREAD__)
void __tsan_acquire(void*);
void __tsan_release(void*);
void* __tsan_get_current_fiber();
void* __tsan_create_fiber(unsigned);
void __tsan_switch_to_fiber(void*, unsigned);
void hb_enable(int) {}
void hb_thread(int) {}
void hb_acquire(const void* p) { __tsan_acquire((void*)p); }
void hb_release(const void* p) { __tsan_release((void*)p); }
void hb_touch(const void* p, size_t n, int wr) {
    volatile char* c = (volatile char*)p;
    for(size_t i = 0; i < n; i++) {
        char x = c[i];
        if(wr) c[i] = x;
    }
}
#else
void hb_enable(int) {}
void hb_thread(int) {}
void hb_acquire(const void*) {}
void hb_release(const void*) {}
void hb_touch(const void*, size_t, int) {}
#endif
struct Co {
    ucontext_t c;
    void (*fn)(void*);
    void* arg;
    char* stk;
    size_t sz;
    void* fake;
    void* fiber;
};
static std::vector<Co*> cos;
static int cur, from;
static const void* mainb;
static size_t mains; /* bounds of the main stack, for AddressSanitizer */
static void ent(int i) {
#if defined(__SANITIZE_ADDRESS__)
    const void* ob;
    size_t os;
    __sanitizer_finish_switch_fiber(nullptr, &ob, &os);
    if(from == 0) {
        mainb = ob;
        mains = os;
    }
#endif
    cos[i]->fn(cos[i]->arg);
    die(4, "coroutine returned");
}
static void ensure() {
    if(cos.empty()) {
        cos.push_back(new Co());
#if defined(__SANITIZE_THREAD__)
        cos[0]->fiber = __tsan_get_current_fiber();
#endif
    }
}
int co_create(void (*fn)(void*), void* a) {
#if defined(__SANITIZE_ADDRESS__)
    heap_off = true;
#endif
    ensure();
    Co* c = new Co();
    c->fn = fn;
    c->arg = a;
    c->sz = 1 << 20;
    c->stk = (char*)malloc(c->sz);
    getcontext(&c->c);
    c->c.uc_stack.ss_sp = c->stk;
    c->c.uc_stack.ss_size = c->sz;
    c->c.uc_link = nullptr;
#if defined(__SANITIZE_THREAD__)
    c->fiber = __tsan_create_fiber(0);
#endif
    cos.push_back(c);
    makecontext(&c->c, (void (*)())ent, 1, (int)cos.size() - 1);
#if defined(__SANITIZE_ADDRESS__)
    heap_off = false;
#endif
    return (int)cos.size() - 1;
}
void co_switch(int id) {
#if defined(__SANITIZE_ADDRESS__)
    heap_off = true;
#endif
    ensure();
#if defined(__SANITIZE_ADDRESS__)
    heap_off = false;
#endif
    int me = cur;
    if(me == id) return;
    from = me;
    cur = id;
#if defined(__SANITIZE_ADDRESS__)
    void* fake;
    __sanitizer_start_switch_fiber(&fake, id == 0 ? mainb : cos[id]->stk, id == 0 ? mains : cos[id]->sz);
    swapcontext(&cos[me]->c, &cos[id]->c);
    const void* ob;
    size_t os;
    __sanitizer_finish_switch_fiber(fake, &ob, &os);
    if(from == 0) {
        mainb = ob;
        mains = os;
    }
#else
#if defined(__SANITIZE_THREAD__)
    __tsan_switch_to_fiber(cos[id]->fiber, 1);
#endif
    swapcontext(&cos[me]->c, &cos[id]->c);
#endif
}
int co_self() { return cur; }
}
#ifdef __SANITIZE_ADDRESS__
extern "C" const char* __asan_default_options() {
    return "exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_"
           "mb=8192";
}
#endif
namespace boost {
void assertion_failed(char const* e, char const* f, char const* fi, long l) {
    die(1,
        (std::string("REPLAY-VIOLATION BOOST_ASSERT ") + e + " in " + f + " " + fi + ":" + std::to_string(l)).c_str());
}
void assertion_failed_msg(char const* e, char const* m, char const* f, char const* fi, long l) {
    assertion_failed(e, f, fi, l);
}
} // namespace boost
#define ENTRY(x) extern "C" void x();
#include "entries.inc"
#undef ENTRY
int main(int c, char** v) { // prog entry inputs [k=v...]
    if(c < 3) return 4;
    FILE* f = fopen(v[2], "r");
    if(!f) return 4;
    char nm[256];
    char k;
    while(fscanf(f, "%255s %c", nm, &k) == 2) {
        In i;
        i.name = nm;
        i.bytes = k == 'b';
        if(k == 'u') {
            if(fscanf(f, "%llu", &i.v) != 1) return 4;
        } else {
            unsigned n;
            if(fscanf(f, "%u", &n) != 1) return 4;
            if(n) {
                for(unsigned j = 0; j < n; j++) {
                    unsigned x;
                    if(fscanf(f, "%2x", &x) != 1) return 4;
                    i.b.push_back(x);
                }
            }
        }
        ins.push_back(i);
    }
    fclose(f);
    for(int i = 3; i < c; i++) {
        std::string s = v[i];
        auto p = s.find('=');
        prm[s.substr(0, p)] = strtoull(s.c_str() + p + 1, 0, 10);
    }
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
#define ENTRY(x)                                                                                                       \
    if(!strcmp(v[1], #x)) {                                                                                            \
        x();                                                                                                           \
        die(0, "REPLAY-END");                                                                                          \
    }
#include "entries.inc"
    return 4;
}
