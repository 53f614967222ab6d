#ifndef GEN_STREAM_H
#define GEN_STREAM_H
#include "gen.h"
#include "stream_key.h"
#include "stream_iv.h"
#include "stream_ctx.h"
static inline wickr_stream_key_t *mk_stream_key_for(wickr_cipher_t c, wickr_buffer_t *user)
{
    wickr_stream_key_t *k = mk_mem(sizeof *k);
    k->cipher_key = mk_cipher_key_for(c); k->evolution_key = mk_buffer_len(32); k->user_data = user;
    k->packets_per_evolution = (uint32_t)nd_range(PACKET_PER_EVO_MIN, PACKET_PER_EVO_MAX);
    return k;
}
static inline bool ok_stream_key(const wickr_stream_key_t *k)
{
    return R_OK(k, sizeof *k) && ok_cipher_key(k->cipher_key) && k->cipher_key->cipher.is_authenticated && ok_buffer_len(k->evolution_key, 32)
        && ok_buffer_opt(k->user_data) && k->packets_per_evolution >= PACKET_PER_EVO_MIN && k->packets_per_evolution <= PACKET_PER_EVO_MAX;
}
static inline int64_t n_stream_key(const wickr_stream_key_t *k) { return 6 + (k->user_data ? 2 : 0); }
#endif
