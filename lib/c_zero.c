/* contract of wickr_zero, used in place of its body (the loop is verified once, in units/zero.c):
   every byte of the range is zero afterwards; the proof follows the arbitrary byte at the ghost index watch_k. */
#include "v.h"
void wickr_zero(void *buf, size_t len)
{
    if (!buf || len == 0) return;
#ifdef __CPROVER
    __CPROVER_assert(RW_OK(buf, len), "wickr_zero precondition: range writable");
    if (G.watch_k < len) ((uint8_t *)buf)[G.watch_k] = 0;
#else
    memset(buf, 0, len);
#endif
}
