// Interface between harnesses and (a) the symbolic engine, (b) the native replay runtime.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_u64(const char* name);                  // arbitrary 64-bit value
uint64_t sym_bits(const char* name, unsigned w);     // arbitrary w-bit value
void sym_bytes(void* p, size_t n, const char* name); // arbitrary bytes
void sym_assume(bool c);
void sym_check(bool c, const char* msg); // the property
[[noreturn]] void sym_fail(const char* msg);
void sym_reach(const char* label);   // vacuity witness
void sym_observe(uint64_t v);        // compared between engine and native run
uint64_t sym_concretize(uint64_t v); // case split
int sym_is_symbolic(uint64_t v);
[[noreturn]] void sym_exit();                        // path ends normally
[[noreturn]] void sym_kill();                        // path is outside the bounds
uint64_t sym_param(const char* name, uint64_t dflt); // bound chosen by the tier
uint64_t sym_heap();                                 // number of live heap blocks
int sym_engine();                                    // 1 in the engine, 0 natively
void sym_log(const char* s, uint64_t v);
void sym_memcpy(void* d, const void* s, size_t n, size_t max); // copy of n<=max bytes, n may stay symbolic
int co_create(void (*fn)(void*), void* arg);
void co_switch(int id);
int co_self();
void hb_enable(int on);
void hb_thread(int tid);
void hb_acquire(const void*);
void hb_release(const void*);
void hb_touch(const void*, size_t, int wr);
}
// symbolic value in [0,n), split into cases
static inline uint64_t sym_choose(const char* name, uint64_t n) {
    if(n <= 1) return 0;
    uint64_t v = sym_bits(name, 16);
    sym_assume(v < n);
    return sym_concretize(v);
}
static inline uint64_t sym_below(const char* name, uint64_t n) {
    uint64_t v = sym_u64(name);
    sym_assume(v < n);
    return v;
}
#define CHECK(c) sym_check((c), #c)
