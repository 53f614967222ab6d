#ifndef GEN_ID_H
#define GEN_ID_H
#include "gen.h"
#include "identity.h"
#include "private/identity_priv.h"
static inline wickr_identity_t *mk_identity(void)
{
    wickr_identity_t *i = mk_mem(sizeof *i);
    i->type = nd_bool() ? IDENTITY_TYPE_ROOT : IDENTITY_TYPE_NODE;
    i->identifier = mk_buffer_range(1, MAX_IDENTIFIER_LEN - 1); i->sig_key = mk_ec_key(); i->signature = nd_bool() ? NULL : mk_ecdsa();
    return i;
}
static inline int64_t n_ec_key(const wickr_ec_key_t *k) { return k ? 3 + (k->pri_data ? 2 : 0) : 0; }
static inline int64_t n_ecdsa(const wickr_ecdsa_result_t *s) { return s ? 3 : 0; }
static inline int64_t n_identity(const wickr_identity_t *i) { return i ? 3 + n_ec_key(i->sig_key) + n_ecdsa(i->signature) : 0; }
static inline wickr_identity_chain_t *mk_chain(void)
{
    wickr_identity_chain_t *c = mk_mem(sizeof *c);
    c->root = mk_identity(); c->node = mk_identity();
    c->status = (wickr_identity_chain_status)nd_range(0, 2); c->_status_cache = nd_bool() ? NULL : mk_buffer_len(64);
    return c;
}
static inline int64_t n_chain(const wickr_identity_chain_t *c) { return c ? 1 + n_identity(c->root) + n_identity(c->node) + (c->_status_cache ? 2 : 0) : 0; }
static inline bool same_ec_key(const wickr_ec_key_t *a, const wickr_ec_key_t *b, size_t k)
{
    return same_curve(&a->curve, &b->curve) && same_bytes_at(a->pub_data, b->pub_data, k) && same_bytes_at(a->pri_data, b->pri_data, k);
}
static inline bool same_ecdsa(const wickr_ecdsa_result_t *a, const wickr_ecdsa_result_t *b, size_t k)
{
    if (!a || !b) return a == b;
    return same_curve(&a->curve, &b->curve) && same_digest(&a->digest_mode, &b->digest_mode) && same_bytes_at(a->sig_data, b->sig_data, k);
}
static inline bool same_identity(const wickr_identity_t *a, const wickr_identity_t *b, size_t k)
{
    return a->type == b->type && same_bytes_at(a->identifier, b->identifier, k) && same_ec_key(a->sig_key, b->sig_key, k) && same_ecdsa(a->signature, b->signature, k);
}
static inline bool apart_buf(const wickr_buffer_t *a, const wickr_buffer_t *b) { return !a || !b || (a != b && a->bytes != b->bytes); }
static inline bool apart_ec_key(const wickr_ec_key_t *a, const wickr_ec_key_t *b) { return a != b && apart_buf(a->pub_data, b->pub_data) && apart_buf(a->pri_data, b->pri_data); }
static inline bool apart_ecdsa(const wickr_ecdsa_result_t *a, const wickr_ecdsa_result_t *b) { return !a || !b || (a != b && apart_buf(a->sig_data, b->sig_data)); }
static inline bool apart_identity(const wickr_identity_t *a, const wickr_identity_t *b)
{
    return a != b && apart_buf(a->identifier, b->identifier) && apart_ec_key(a->sig_key, b->sig_key) && apart_ecdsa(a->signature, b->signature);
}
#endif
