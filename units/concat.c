/* Contract of wickr_buffer_concat_multi for any number of buffers: the result is their contents in order, missing ones skipped.
   P[i] is the length of the first i buffers together (P[i+1] = P[i] + length of buffer i, mathematically). */
#include "gen.h"
#include "loopc.h"
static struct { unsigned v1, v2; unsigned k; size_t j; uint8_t n; size_t cap; } U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); }
static uint64_t P[257];
#ifdef V_LOOPS
#define PN Pn
#define PK Pk
#else
#define PN P[U.n]
#define PK P[U.k]
#endif
/* buffer k, and a buffer standing for any other one (its content is renewed whenever a loop arrives at it) */
static wickr_buffer_t Bk, Bo; static wickr_buffer_t **L; static uint8_t *mem;
#ifdef V_LOOPS
/* instances of the sequence P at i and i + 1: P(0) = 0, P(i + 1) = P(i) + length of buffer i, monotone (it is a sum of
   at most 255 lengths, so it does not wrap around); P(k), P(k + 1) and P(n) are fixed in the harness */
static uint64_t Pk, Pk1, Pn, Pi, Pi1;
static uint64_t at(unsigned i)
{
    uint64_t p = nd_range(0, (uint64_t)255 << 33);
    ASSUME(i != 0 || p == 0); ASSUME(i > U.n || p <= Pn); ASSUME(i != U.n || p == Pn);
    if (U.k < U.n) ASSUME(i <= U.k ? p <= Pk && (i != U.k || p == Pk) : p >= Pk1 && (i != U.k + 1 || p == Pk1));
    return p;
}
static void meet(unsigned i)
{
    Pi = at(i);
    if (i >= U.n) return;
    Pi1 = at(i + 1); ASSUME(Pi <= Pi1);
    size_t len = (size_t)(Pi1 - Pi);
    if (i == U.k) { L[i] = Bk.length == 0 && nd_bool() ? NULL : &Bk; return; }
    ASSUME(len <= U.cap || len > MAX_BUFFER_SIZE);
    Bo.length = len; Bo.bytes = mem;
    L[i] = (len == 0 && nd_bool()) ? NULL : &Bo;
}
static unsigned at_i;
void v_loop_count(wickr_buffer_t **b, uint8_t *i, uint8_t n, size_t *count)
{
    if (LOOP_STEP(U.v1)) {
        POST("C01: concat count loop invariant on entry", *i == 0 && *count == 0);
        at_i = *i = (uint8_t)nd_range(0, n); meet(*i); *count = Pi; ASSUME(Pi <= MAX_BUFFER_SIZE);
    } else { POST("C01: concat count loop invariant preserved", *i == at_i + 1 && *i <= n && *count == Pi1 && *count <= MAX_BUFFER_SIZE); LOOP_END(); }
}
void v_loop_merge(wickr_buffer_t **b, uint8_t *i, uint8_t n, size_t *count, wickr_buffer_t *m)
{
    bool inv = m && m->length == Pn && RW_OK(m->bytes, m->length) && (U.k >= *i || U.j >= Bk.length || m->bytes[Pk + U.j] == Bk.bytes[U.j]);
    if (LOOP_STEP(U.v2)) {
        POST("C01: concat merge loop invariant on entry", inv && *i == 0 && *count == 0);
        at_i = *i = (uint8_t)nd_range(0, n); meet(*i); *count = Pi;
        if (U.k < n && U.j < Bk.length) {
            uint8_t v = nd_u8(); m->bytes[Pk + U.j] = v;
            if (U.k < *i) ASSUME(v == Bk.bytes[U.j]);
        }
    } else { POST("C01: concat merge loop invariant preserved", inv && *i == at_i + 1 && *i <= n && *count == Pi1); LOOP_END(); }
}
#endif
#ifdef __CPROVER
 #define LIM 5
#else
 #define LIM 16
#endif
void harness(void)
{
    memset(&U, 0, sizeof U);
    /* any number of buffers of any lengths, missing and empty ones included */
    U.n = (uint8_t)nd_range(0, 255); U.k = (unsigned)nd_range(0, 254); U.j = nd_u64();
#ifdef V_LOOPS
    U.cap = nd_len(1, MAX_BUFFER_SIZE); mem = mk_mem(U.cap); L = mk_mem(U.n ? U.n * sizeof *L : 1);
    Bk.length = nd_len(0, MAX_BUFFER_SIZE); Bk.bytes = mk_mem(Bk.length ? Bk.length : 1);
    Pn = nd_range(0, (uint64_t)255 << 33); Pk = nd_range(0, Pn); Pk1 = Pk + Bk.length; ASSUME(U.n != 0 || Pn == 0);
    if (U.k < U.n) ASSUME(Pk1 <= Pn && (U.k != 0 || Pk == 0) && (U.k + 1 != U.n || Pk1 == Pn));
#else
    U.cap = 300; mem = mk_mem(U.cap); U.n %= LIM; L = mk_mem(U.n ? U.n * sizeof *L : 1); P[0] = 0; U.k %= LIM;
    for (unsigned i = 0; i < U.n; i++) { wickr_buffer_t *b = mk_buffer_range(1, U.cap); if (nd_bool()) b->length = 0; L[i] = nd_bool() ? b : NULL; P[i + 1] = P[i] + (L[i] ? b->length : 0); if (i == U.k) { Bk = *b; if (!L[i]) Bk.length = 0; } }
#endif
    int64_t l0 = G.live; v_inject = true;
    wickr_buffer_t *r = wickr_buffer_concat_multi(L, U.n);
    v_inject = false;
    POST("C01: nothing is joined from nothing", wickr_buffer_concat_multi(NULL, U.n) == NULL);
    POST("C01: the buffers are joined whenever their length allows", r || G.alloc_failed || PN == 0 || PN > MAX_BUFFER_SIZE || U.n == 0);
    POST("C01: the result is as long as all buffers together", !r || (ok_buffer(r) && r->length == PN));
#ifdef __CPROVER
    POST("C01: the result is the buffers in order", !r || U.k >= U.n || U.j >= Bk.length || r->bytes[PK + U.j] == Bk.bytes[U.j]);
#else
    for (unsigned i = 0; r && i < U.n; i++) POST("C01: the result is the buffers in order", !L[i] || memcmp(r->bytes + P[i], L[i]->bytes, L[i]->length) == 0);
#endif
    POST("C25: concat_multi leaks nothing", G.live == l0 + (r ? 2 : 0));
    REACH("joined", r && U.n > 2 && U.k < U.n && U.k > 0 && Bk.length > 1);
}
