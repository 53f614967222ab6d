/* contract of wickr_buffer_concat_multi, used in place of its body (proved for any number of buffers in units/concat.c):
   the result is the contents in order, missing buffers skipped; the proofs follow the arbitrary byte at the ghost index
   cat_k and the first V_CAT_HEAD bytes. */
#include "v.h"
#include "buffer.h"
#ifndef V_CAT_HEAD
#define V_CAT_HEAD 0
#endif
wickr_buffer_t *wickr_buffer_concat_multi(wickr_buffer_t **buffers, uint8_t n_buffers)
{
    size_t count = 0;
    if (!buffers || n_buffers == 0) return NULL;
    for (uint8_t i = 0; i < n_buffers; i++) {
        wickr_buffer_t *b = buffers[i];
        if (!b || b->length == 0) continue;
        if (b->length > MAX_BUFFER_SIZE || MAX_BUFFER_SIZE - count < b->length) return NULL;
#ifdef __CPROVER
        __CPROVER_assert(R_OK(b->bytes, b->length), "concatenated buffers are readable");
#endif
        count += b->length;
    }
    if (count == 0) return NULL;
    wickr_buffer_t *m = v_malloc(sizeof *m);
    if (!m) return NULL;
    m->length = count; m->bytes = v_malloc(count);
    if (!m->bytes) { v_free(m); return NULL; }
    size_t p = 0;
    for (uint8_t i = 0; i < n_buffers; i++) {
        wickr_buffer_t *b = buffers[i];
        if (!b || b->length == 0) continue;
#ifdef __CPROVER
        if (G.cat_k >= p && G.cat_k - p < b->length) m->bytes[G.cat_k] = b->bytes[G.cat_k - p];
        for (size_t h = 0; h < V_CAT_HEAD; h++) if (h >= p && h - p < b->length) m->bytes[h] = b->bytes[h - p];
#else
        memcpy(m->bytes + p, b->bytes, b->length);
#endif
        p += b->length;
    }
    return m;
}
