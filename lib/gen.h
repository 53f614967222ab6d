/* Constructive generators: the preconditions of the contracts, by construction, for the types of the library. */
#ifndef GEN_H
#define GEN_H
#include "v.h"
#include "buffer.h"
#include "cipher.h"
#include "eckey.h"
#include "ecdsa.h"

static inline bool ok_buffer(const wickr_buffer_t *b)
{
    return R_OK(b, sizeof(*b)) && b->length > 0 && b->length <= MAX_BUFFER_SIZE && RW_OK(b->bytes, b->length);
}
static inline bool ok_buffer_opt(const wickr_buffer_t *b) { return !b || ok_buffer(b); }
static inline bool ok_buffer_len(const wickr_buffer_t *b, size_t n) { return ok_buffer(b) && b->length == n; }

static inline wickr_buffer_t *mk_buffer_len(size_t n)
{
    wickr_buffer_t *b = mk_mem(sizeof(*b));
    b->length = n;
    b->bytes = mk_mem(n);
    b->bytes[0] = nd_u8();
    if (n > 1) b->bytes[1] = nd_u8();
    return b;
}
static inline wickr_buffer_t *mk_buffer_range(size_t lo, size_t hi) { return mk_buffer_len(nd_len(lo, hi)); }
static inline wickr_buffer_t *mk_buffer(void) { return mk_buffer_range(1, MAX_BUFFER_SIZE); }
static inline wickr_buffer_t *mk_buffer_opt(void) { return nd_bool() ? NULL : mk_buffer(); }

/* a cipher of the library, or (other == true) arbitrary parameters */
static inline wickr_cipher_t mk_cipher(void) { return nd_bool() ? CIPHER_AES256_GCM : CIPHER_AES256_CTR; }

static inline wickr_cipher_key_t *mk_cipher_key_for(wickr_cipher_t c)
{
    wickr_cipher_key_t *k = mk_mem(sizeof(*k));
    k->cipher = c;
    k->key_data = mk_buffer_len(c.key_len);
    return k;
}
static inline wickr_cipher_key_t *mk_cipher_key(void) { return mk_cipher_key_for(mk_cipher()); }
static inline bool ok_cipher(const wickr_cipher_t *c)
{
    return (c->cipher_id == CIPHER_ID_AES256_GCM && c->key_len == 32 && c->iv_len == 12 && c->auth_tag_len == 16 && c->is_authenticated)
        || (c->cipher_id == CIPHER_ID_AES256_CTR && c->key_len == 32 && c->iv_len == 16 && c->auth_tag_len == 0 && !c->is_authenticated);
}
static inline bool ok_cipher_key(const wickr_cipher_key_t *k)
{
    return R_OK(k, sizeof(*k)) && ok_cipher(&k->cipher) && ok_buffer_len(k->key_data, k->cipher.key_len);
}
static inline wickr_cipher_result_t *mk_cipher_result_for(wickr_cipher_t c)
{
    wickr_cipher_result_t *r = mk_mem(sizeof(*r));
    r->cipher = c;
    r->iv = mk_buffer_len(c.iv_len);
    r->auth_tag = c.is_authenticated ? mk_buffer_len(c.auth_tag_len) : NULL;
    r->cipher_text = mk_buffer_opt();
    return r;
}
static inline wickr_cipher_result_t *mk_cipher_result(void) { return mk_cipher_result_for(mk_cipher()); }
static inline bool same_cipher(const wickr_cipher_t *a, const wickr_cipher_t *b)
{
    return a->cipher_id == b->cipher_id && a->key_len == b->key_len && a->iv_len == b->iv_len
        && a->auth_tag_len == b->auth_tag_len && a->is_authenticated == b->is_authenticated;
}
static inline bool ok_cipher_result(const wickr_cipher_result_t *r)
{
    return R_OK(r, sizeof(*r)) && ok_cipher(&r->cipher) && ok_buffer_len(r->iv, r->cipher.iv_len)
        && (r->cipher.is_authenticated ? ok_buffer_len(r->auth_tag, r->cipher.auth_tag_len) : r->auth_tag == NULL)
        && ok_buffer_opt(r->cipher_text);
}
static inline wickr_digest_t mk_digest(void) { uint64_t c = nd_range(0, 2); return c == 0 ? DIGEST_SHA_256 : c == 1 ? DIGEST_SHA_384 : DIGEST_SHA_512; }
static inline bool same_digest(const wickr_digest_t *a, const wickr_digest_t *b) { return a->type == b->type && a->digest_id == b->digest_id && a->size == b->size; }
static inline bool same_curve(const wickr_ec_curve_t *a, const wickr_ec_curve_t *b)
{
    return a->identifier == b->identifier && a->signature_size == b->signature_size && a->raw_signature_size == b->raw_signature_size && a->max_pub_size == b->max_pub_size;
}
static inline wickr_ecdsa_result_t *mk_ecdsa(void)
{
    wickr_ecdsa_result_t *r = mk_mem(sizeof *r);
    r->curve = EC_CURVE_NIST_P521; r->digest_mode = mk_digest(); r->sig_data = mk_buffer_range(1, P521_SIGNATURE_MAX_SIZE - 2);
    return r;
}
static inline bool ok_ecdsa(const wickr_ecdsa_result_t *r)
{
    return R_OK(r, sizeof *r) && same_curve(&r->curve, &EC_CURVE_NIST_P521) && r->digest_mode.digest_id >= DIGEST_ID_SHA256 && r->digest_mode.digest_id <= DIGEST_ID_SHA512 && ok_buffer(r->sig_data);
}
static inline wickr_ec_key_t *mk_ec_key_pub(void)
{
    wickr_ec_key_t *k = mk_mem(sizeof *k);
    k->curve = EC_CURVE_NIST_P521; k->pub_data = mk_buffer_range(1, P521_PUB_KEY_MAX_SIZE); k->pri_data = NULL;
    return k;
}
static inline wickr_ec_key_t *mk_ec_key(void) { wickr_ec_key_t *k = mk_ec_key_pub(); k->pri_data = mk_buffer_opt(); return k; }
static inline wickr_ec_key_t *mk_ec_key_pair(void) { wickr_ec_key_t *k = mk_ec_key_pub(); k->pri_data = mk_buffer(); return k; }
static inline bool ok_ec_key(const wickr_ec_key_t *k)
{
    return R_OK(k, sizeof *k) && same_curve(&k->curve, &EC_CURVE_NIST_P521) && ok_buffer(k->pub_data) && ok_buffer_opt(k->pri_data);
}
/* equal lengths, and equal at the ghost index k (for the native build: equal everywhere) */
static inline bool same_bytes_at(const wickr_buffer_t *a, const wickr_buffer_t *b, size_t k)
{
    if (!a || !b) return a == b;
    if (a->length != b->length) return false;
#ifdef __CPROVER
    return k >= a->length || a->bytes[k] == b->bytes[k];
#else
    (void)k;
    return memcmp(a->bytes, b->bytes, a->length) == 0;
#endif
}
#endif
