#ifndef V_UDIV_H
#define V_UDIV_H
#include <stdint.h>
#ifdef __CPROVER
uint64_t __CPROVER_uninterpreted_udiv(uint64_t a, uint64_t b);
/* division of the code under proof; constant divisors stay concrete */
static inline uint64_t v_udiv_f(uint64_t a, uint64_t b)
{
    __CPROVER_assert(b != 0, "division by zero");
    return __CPROVER_uninterpreted_udiv(a, b);
}
#define v_udiv(a, b) (__builtin_constant_p(b) ? (a) / (b) : v_udiv_f((a), (b)))
/* lemma: a >= b implies a/p >= b/p, and division does not exceed its dividend (Nat.div_le_div_right, Nat.div_le_self) */
static inline void v_udiv_lemmas(uint64_t a, uint64_t b, uint64_t p)
{
    uint64_t x = __CPROVER_uninterpreted_udiv(a, p), y = __CPROVER_uninterpreted_udiv(b, p);
    __CPROVER_assume(x <= a && y <= b && (a < b || x >= y) && (b < a || y >= x));
}
#else
#define v_udiv(a, b) ((a) / (b))
#define v_udiv_lemmas(a, b, p) ((void)0)
#endif
#endif
