#ifndef GEN_KEX_H
#define GEN_KEX_H
#include "gen_id.h"
#include "key_exchange.h"
static inline int64_t n_cipher_result(const wickr_cipher_result_t *r) { return r ? 3 + (r->auth_tag ? 2 : 0) + (r->cipher_text ? 2 : 0) : 0; }
static inline bool same_cipher_result(const wickr_cipher_result_t *a, const wickr_cipher_result_t *b, size_t k)
{
    return same_cipher(&a->cipher, &b->cipher) && same_bytes_at(a->iv, b->iv, k) && same_bytes_at(a->auth_tag, b->auth_tag, k) && same_bytes_at(a->cipher_text, b->cipher_text, k);
}
static inline bool apart_cipher_result(const wickr_cipher_result_t *a, const wickr_cipher_result_t *b)
{
    return a != b && apart_buf(a->iv, b->iv) && apart_buf(a->auth_tag, b->auth_tag) && apart_buf(a->cipher_text, b->cipher_text);
}
static inline wickr_key_exchange_t *mk_exchange(void)
{
    wickr_key_exchange_t *x = mk_mem(sizeof *x);
    x->exchange_id = mk_buffer(); x->key_id = nd_u64(); x->exchange_ciphertext = mk_cipher_result();
    return x;
}
static inline int64_t n_exchange(const wickr_key_exchange_t *x) { return x ? 3 + n_cipher_result(x->exchange_ciphertext) : 0; }
static inline bool same_exchange(const wickr_key_exchange_t *a, const wickr_key_exchange_t *b, size_t k)
{
    return a->key_id == b->key_id && same_bytes_at(a->exchange_id, b->exchange_id, k) && same_cipher_result(a->exchange_ciphertext, b->exchange_ciphertext, k);
}
static inline bool apart_exchange(const wickr_key_exchange_t *a, const wickr_key_exchange_t *b)
{
    return a != b && apart_buf(a->exchange_id, b->exchange_id) && apart_cipher_result(a->exchange_ciphertext, b->exchange_ciphertext);
}
#endif
