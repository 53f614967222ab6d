/* wickr_zero really zeroes every byte (loop contract) */
#include "gen.h"
#include "memory.h"
#include "loopc.h"
static unsigned visits; static size_t K;
void v_unit_reset(void) { visits = 0; }
#ifdef V_LOOPS
void v_loop_zero(volatile unsigned char *b, size_t *i, size_t len)
{
    bool inv = *i <= len && (K >= *i || b[K] == 0);
    if (LOOP_STEP(visits)) {
        POST("C16: wickr_zero loop invariant on entry", inv);
        *i = nd_range(0, len);
        uint8_t v = nd_u8();
        if (K < len) b[K] = v;
        ASSUME(K >= *i || v == 0);
    } else { POST("C16: wickr_zero loop invariant preserved", inv); LOOP_END(); }
}
#endif
void harness(void)
{
    size_t cap = nd_len(1, MAX_BUFFER_SIZE), len = nd_len(0, MAX_BUFFER_SIZE); ASSUME(len <= cap);
    uint8_t *p = mk_mem(cap); K = nd_u64(); size_t after = nd_u64();
    uint8_t a = after < cap ? p[after] : 0;
    wickr_zero(NULL, len);
    wickr_zero(p, len);
#ifdef __CPROVER
    POST("C16: every byte of the range is zero", K >= len || p[K] == 0);
#else
    for (size_t i = 0; i < len; i++) POST("C16: every byte of the range is zero", p[i] == 0);
#endif
    POST("C16: nothing behind the range changes", after < len || after >= cap || p[after] == a);
    REACH("zeroed", len > 1 && K < len);
}
