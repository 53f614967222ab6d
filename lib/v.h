/* Verification support: shared by the CBMC build (goto-cc defines __CPROVER) and the native replay build.
   Everything nondeterministic goes through nd_u64(), so that a counterexample trace is a list of 64-bit
   choices, which the native build of the very same unit replays against the real code. */
#ifndef V_H
#define V_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>

/* ---- ghost state common to all units ---- */
struct v_ghost {
    uint64_t nd_val;         /* last nondeterministic choice */
    bool alloc_failed;       /* some allocation inside the code under proof returned NULL */
    int64_t live;            /* allocations minus deallocations */
    const void *watch;       /* allocation whose bytes must be zero when it is freed */
    size_t watch_len;
    bool watch_freed;
    bool watch_dirty;        /* the watched allocation was freed while byte watch_k was not zero */
    size_t watch_k;
    size_t cat_k;            /* ghost index followed through concatenations */
    size_t cmp_k;            /* ghost index at which a memcmp that returns 0 is known to agree */
};
extern struct v_ghost G;
/* does the environment inject allocation failures? */
extern bool v_inject;

uint64_t nd_u64(void);

#ifdef __CPROVER
 #define REQ(...) __CPROVER_requires(__VA_ARGS__)
 #define ENS(...) __CPROVER_ensures(__VA_ARGS__)
 #define ASG(...) __CPROVER_assigns(__VA_ARGS__)
 #define FREES(...) __CPROVER_frees(__VA_ARGS__)
 #define RET __CPROVER_return_value
 #define OLD(x) __CPROVER_old(x)
 #define OBJ(p) __CPROVER_object_whole(p)
 #define GHOST __CPROVER_object_whole(&G)
 #define ASSUME(c) __CPROVER_assume(c)
 /* obligations stated in the harness (the postcondition of a composition of contracts) */
 #define POST(label, c) __CPROVER_assert((c), "POST " label)
 /* proof that the precondition is satisfiable and that the interesting outcome is reached: must FAIL */
 #define REACH(label, c) __CPROVER_assert(!(c), "REACH " label)
 /* the same for a failure path that an equivalent program need not have (it depends on the order of the calls): only reported */
 #define REACH_OPT(label, c) __CPROVER_assert(!(c), "REACH? " label)
 #define RW_OK(p, n) __CPROVER_rw_ok((p), (n))
 #define R_OK(p, n) __CPROVER_r_ok((p), (n))
 #define NATIVE_ONLY(x)
#else
 #include <stdio.h>
 #define REQ(...)
 #define ENS(...)
 #define ASG(...)
 #define FREES(...)
 #define ASSUME(c) do { if (!(c)) v_native_skip(#c); } while (0)
 #define POST(label, c) do { if (!(c)) v_native_fail(label, #c); } while (0)
 #define REACH(label, c) do { if (c) v_native_reach(label); } while (0)
 #define REACH_OPT REACH
 #define RW_OK(p, n) ((p) != NULL)
 #define R_OK(p, n) ((p) != NULL)
 #define NATIVE_ONLY(x) x
 #define __CPROVER_assume(c) ASSUME(c)
 void v_native_skip(const char *why);
 void v_native_fail(const char *label, const char *cond);
 void v_native_reach(const char *label);
 void v_native_fill(void *p, size_t n);
 bool v_native_coin(void);
#endif

/* ---- choices ---- */
static inline bool nd_bool(void) { return (nd_u64() & 1) != 0; }
static inline uint8_t nd_u8(void) { return (uint8_t)nd_u64(); }
static inline uint32_t nd_u32(void) { return (uint32_t)nd_u64(); }
#ifdef __CPROVER
static inline uint64_t nd_range(uint64_t lo, uint64_t hi) { uint64_t v = nd_u64(); ASSUME(v >= lo && v <= hi); return v; }
static inline size_t nd_len(size_t lo, size_t hi) { return (size_t)nd_range(lo, hi); }
#else
uint64_t nd_range(uint64_t lo, uint64_t hi);
size_t nd_len(size_t lo, size_t hi);
#endif
/* may the next allocation or callee fail? (any choice in a proof; natively at a rate chosen for each run) */
#ifdef __CPROVER
static inline bool nd_fail(void) { return (nd_u64() & 1) != 0; }
#else
bool nd_fail(void);
#endif

/* allocation that cannot fail, used to build the inputs of a harness (counted in G.live) */
static inline void *mk_mem(size_t n)
{
    void *p = malloc(n);
    ASSUME(p != NULL);
    G.live++;
    NATIVE_ONLY(v_native_fill(p, n);)
    return p;
}

/* what malloc / calloc / free of the code under proof are compiled to (lib/hook.h) */
void *v_malloc(size_t n);
void *v_calloc(size_t a, size_t n);
void v_free(void *p);
int v_memcmp(const void *a, const void *b, size_t n);

void harness(void);
#endif
