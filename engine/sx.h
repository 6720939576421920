// Harness-side interface of the symbolic executor (engine/sx.cpp) and of its
// native replay runtime (engine/native_rt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int64_t sx_int(const char *name, int64_t lo, int64_t hi);   // symbolic integer in [lo,hi]
void sx_assume(int cond);                                   // prune paths on which cond is false
void sx_assert(int cond, const char *msg);                  // property
[[noreturn]] void sx_fail(const char *msg);                 // property broken
__attribute__((nomerge)) void sx_reach(const char *label);                         // vacuity witness: must be reached
void sx_trace(int64_t tag, int64_t val);                    // observable event (compared at replay)
int64_t sx_param(const char *name, int64_t dflt);           // bound, set by the driver
void *sx_malloc(size_t n, size_t align);
void sx_free(void *p);
void sx_fault_budget(int n);                                // arm n symbolic allocation failures
int sx_fault(void);                                         // 1: this fallible point fails
int64_t sx_faults_used(void);
int64_t sx_heap_live(void);                                 // live heap objects
int sx_thread(void (*fn)(void *), void *arg);
void sx_join(int tid);
int sx_self(void);
void sx_point(void);                                        // explicit scheduling point
int sx_mutexes_held(void);                                  // pthread mutexes held by this thread
int64_t sx_lock_count(void);                                // pthread mutex acquisitions so far (all threads)
int64_t sx_concrete(int64_t v);                             // fork on every feasible value
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define CHECK(c, msg) sx_assert((c) ? 1 : 0, msg)
