#include "v.h"
struct v_ghost G;
bool v_inject;

#ifdef __CPROVER
uint64_t nondet_u64(void);
uint64_t nd_u64(void) { uint64_t v = nondet_u64(); G.nd_val = v; return v; }
#else
#include <setjmp.h>
#include <stdio.h>
#include <unistd.h>
#include <time.h>
static uint64_t tape[1 << 20]; static size_t tape_n, tape_i;
static uint64_t rng_s; static int tape_mode;
static jmp_buf skip_jmp;
static uint64_t rng(void) { rng_s += 0x9E3779B97F4A7C15ull; uint64_t z = rng_s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t rec[1 << 16]; static size_t rec_n;
static uint64_t note(uint64_t v) { if (rec_n < (1 << 16)) rec[rec_n++] = v; return v; }
static int tape_live(void) { return tape_mode && tape_i < tape_n; }
/* tape_mode 1: the choices of the counterexample as they are; 2: enormous sizes brought down, a choice here and there changed */
static uint64_t taped(void)
{
    uint64_t v = tape[tape_i++];
    return tape_mode == 2 && tape_i > 1 && rng() % 24 == 0 ? v ^ (rng() & 1 ? 1 : rng() % 8) : v;
}
bool v_native_coin(void) { return rng() & 1; }
uint64_t nd_u64(void)
{
    if (tape_live()) return note(taped());
    switch (rng() % 8) {
        case 0: return note(rng());
        case 1: return note((uint64_t)0 - rng() % 4);
        case 2: return note(1ull << (rng() % 64));
        case 3: return note(rng() % 65536);
        default: return note(rng() % 8);
    }
}
static unsigned fail_rate;
bool nd_fail(void)
{
    if (tape_live()) return note(taped()) & 1;
    return note(fail_rate && rng() % fail_rate == 0) != 0;
}
uint64_t nd_range(uint64_t lo, uint64_t hi)
{
    if (tape_live()) {
        uint64_t v = taped();
        if (tape_mode > 1 && (v < lo || v > hi)) v = lo + rng() % (hi - lo < 70 ? hi - lo + 1 : 70);
        if (v < lo || v > hi) v_native_skip("range");
        return note(v);
    }
    uint64_t span = hi - lo + 1, v;
    switch (rng() % 8) {
        case 0: v = span ? lo + rng() % span : rng(); break;
        case 1: v = hi - (span ? rng() % (span < 4 ? span : 4) : rng() % 4); break;
        default: v = lo + rng() % ((span && span < 70) ? span : 70);
    }
    return note(v);
}
size_t nd_len(size_t lo, size_t hi)
{
    if (tape_live()) {
        uint64_t v = taped();
        if (tape_mode > 1 && (v < lo || v > hi || v > (1u << 17))) { uint64_t cap = rng() % 4 == 0 ? 150000 : 70; v = lo + rng() % (hi - lo < cap ? hi - lo + 1 : cap); }   /* a size that fits, in place of an enormous one */
        if (v < lo || v > hi || v > (1u << 22)) v_native_skip("len");
        return (size_t)note(v);
    }
    uint64_t span = hi - lo + 1;
    uint64_t pick = rng() % 32, cap = pick == 0 ? 150000 : pick < 3 ? 5000 : 70;   /* mostly small sizes, sometimes beyond any internal block size */
    if (span && span < cap) cap = span;
    return (size_t)note(lo + rng() % cap);
}
void v_native_fill(void *p, size_t n)
{
    uint8_t *b = p; int small = rng() % 3 == 0;
    for (size_t i = 0; i < n; i++) b[i] = small ? (uint8_t)(rng() % 3) : (uint8_t)rng();
}
void v_native_skip(const char *why) { (void)why; longjmp(skip_jmp, 1); }
static const char *out_path;
static uint64_t cur_seed;
void v_native_fail(const char *label, const char *cond)
{
    printf("NATIVE-FAIL %s: %s (seed %llu)\n", label, cond, (unsigned long long)cur_seed);
    if (out_path) { FILE *f = fopen(out_path, "w"); if (f) { for (size_t i = 0; i < rec_n; i++) fprintf(f, "%llu\n", (unsigned long long)rec[i]); fclose(f); } }
    fflush(stdout); _exit(7);
}
static struct { const char *l; long n; } reach[64];
void v_native_reach(const char *l) { for (int i = 0; i < 64; i++) { if (!reach[i].l) reach[i].l = l; if (!strcmp(reach[i].l, l)) { reach[i].n++; return; } } }
extern void v_unit_reset(void) __attribute__((weak));
/* usage: unit SECONDS SEED OUT [TAPE]   (TAPE: choices of a counterexample trace, replayed first) */
int main(int argc, char **argv)
{
    setvbuf(stdout, NULL, _IOLBF, 0);
    double secs = argc > 1 ? atof(argv[1]) : 3; uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 0) : 1;
    out_path = argc > 3 ? argv[3] : NULL;
    if (argc > 4) { FILE *f = fopen(argv[4], "r"); unsigned long long v; while (f && tape_n < (1 << 20) && fscanf(f, "%llu", &v) == 1) tape[tape_n++] = v; if (f) fclose(f); }
    long runs = 0, skipped = 0; struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (long it = 0;; it++) {
        tape_mode = !tape_n ? 0 : it < 100 ? 1 : it < 3000 ? (it % 3 ? 3 : 2) : it % 4 ? 0 : 2; tape_i = 0; rec_n = 0;
        cur_seed = seed * 1000003ull + it; rng_s = cur_seed * 0xD1342543DE82EF95ull + 1;
        fail_rate = (const unsigned[]){ 0, 2, 40, 12 }[it % 4];
        memset(&G, 0, sizeof G);
        v_inject = false;
        if (v_unit_reset) v_unit_reset();
        if (setjmp(skip_jmp)) { skipped++; } else { harness(); runs++; }
        clock_gettime(CLOCK_MONOTONIC, &t);
        if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9 > secs) break;
    }
    printf("native runs %ld skipped %ld\n", runs, skipped);
    for (int i = 0; i < 64 && reach[i].l; i++) printf("reach %s %ld\n", reach[i].l, reach[i].n);
    return 0;
}
#endif

void *v_malloc(size_t n)
{
    if (v_inject && nd_fail()) { G.alloc_failed = true; return NULL; }
    void *p = malloc(n);
#ifdef __CPROVER
    ASSUME(p != NULL);
#else
    if (!p) { G.alloc_failed = true; return NULL; }
    v_native_fill(p, n);
#endif
    G.live++;
    return p;
}
void *v_calloc(size_t a, size_t n)
{
    if (v_inject && nd_fail()) { G.alloc_failed = true; return NULL; }
    void *p = calloc(a, n);
#ifdef __CPROVER
    ASSUME(p != NULL);
#else
    if (!p) { G.alloc_failed = true; return NULL; }
#endif
    G.live++;
    return p;
}
void v_free(void *p)
{
    if (!p) return;
    if (p == G.watch) {
        G.watch_freed = true;
#ifdef __CPROVER
        if (G.watch_k < G.watch_len && ((const uint8_t *)p)[G.watch_k] != 0) G.watch_dirty = true;
#else
        for (size_t i = 0; i < G.watch_len; i++) if (((const uint8_t *)p)[i]) G.watch_dirty = true;
#endif
    }
    G.live--;
    free(p);
}

/* contract of memcmp: 0 exactly for equal ranges (known at the ghost index), nonzero with a witness index */
int v_memcmp(const void *a, const void *b, size_t n)
{
    const uint8_t *x = a, *y = b;
#ifdef __CPROVER
    __CPROVER_assert(n == 0 || (R_OK(x, n) && R_OK(y, n)), "memcmp ranges readable");
    if (n == 0) return 0;
 #ifdef V_MEMCMP_EXACT
    /* ranges of at most that size: exactly memcmp */
    __CPROVER_assert(n <= V_MEMCMP_EXACT, "memcmp range within the size of the unit");
    for (size_t i = 0; i < V_MEMCMP_EXACT; i++) if (i < n && x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
 #endif
    if (nd_bool()) { size_t j = (size_t)nd_range(0, n - 1); ASSUME(x[j] != y[j]); return x[j] < y[j] ? -1 : 1; }
    ASSUME(x[0] == y[0] && x[n - 1] == y[n - 1] && (G.cmp_k >= n || x[G.cmp_k] == y[G.cmp_k]));
    return 0;
#else
    if (n == 0) return 0;
    if (nd_bool()) (void)nd_u64();
    return memcmp(a, b, n);
#endif
}
