#ifndef GEN_NODE_H
#define GEN_NODE_H
#include "gen_id.h"
#include "ephemeral_keypair.h"
#include "node.h"
#include "private/ephemeral_keypair_priv.h"
#include "private/node_priv.h"
static inline wickr_ephemeral_keypair_t *mk_keypair(void)
{
    wickr_ephemeral_keypair_t *k = mk_mem(sizeof *k);
    k->identifier = nd_u64(); k->ec_key = mk_ec_key(); k->signature = nd_bool() ? NULL : mk_ecdsa();
    return k;
}
static inline int64_t n_keypair(const wickr_ephemeral_keypair_t *k) { return k ? 1 + n_ec_key(k->ec_key) + n_ecdsa(k->signature) : 0; }
static inline bool same_keypair(const wickr_ephemeral_keypair_t *a, const wickr_ephemeral_keypair_t *b, size_t k)
{
    if (!a || !b) return a == b;
    return a->identifier == b->identifier && same_ec_key(a->ec_key, b->ec_key, k) && same_ecdsa(a->signature, b->signature, k);
}
static inline bool apart_keypair(const wickr_ephemeral_keypair_t *a, const wickr_ephemeral_keypair_t *b) { return !a || !b || (a != b && apart_ec_key(a->ec_key, b->ec_key) && apart_ecdsa(a->signature, b->signature)); }
static inline bool same_chain(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b, size_t k)
{
    return same_identity(a->root, b->root, k) && same_identity(a->node, b->node, k) && a->status == b->status && same_bytes_at(a->_status_cache, b->_status_cache, k);
}
static inline bool apart_chain(const wickr_identity_chain_t *a, const wickr_identity_chain_t *b) { return a != b && apart_identity(a->root, b->root) && apart_identity(a->node, b->node) && apart_buf(a->_status_cache, b->_status_cache); }
static inline wickr_node_t *mk_node(void)
{
    wickr_node_t *n = mk_mem(sizeof *n);
    n->dev_id = mk_buffer(); n->id_chain = mk_chain(); n->ephemeral_keypair = nd_bool() ? NULL : mk_keypair();
    n->status = (wickr_node_status)nd_range(0, 2); n->_status_cache = nd_bool() ? NULL : mk_buffer_len(64);
    return n;
}
static inline int64_t n_node(const wickr_node_t *n) { return n ? 3 + n_chain(n->id_chain) + n_keypair(n->ephemeral_keypair) + (n->_status_cache ? 2 : 0) : 0; }
static inline bool same_node(const wickr_node_t *a, const wickr_node_t *b, size_t k)
{
    return same_bytes_at(a->dev_id, b->dev_id, k) && same_chain(a->id_chain, b->id_chain, k) && same_keypair(a->ephemeral_keypair, b->ephemeral_keypair, k)
        && a->status == b->status && same_bytes_at(a->_status_cache, b->_status_cache, k);
}
static inline bool apart_node(const wickr_node_t *a, const wickr_node_t *b)
{
    return a != b && apart_buf(a->dev_id, b->dev_id) && apart_chain(a->id_chain, b->id_chain) && apart_keypair(a->ephemeral_keypair, b->ephemeral_keypair) && apart_buf(a->_status_cache, b->_status_cache);
}
#endif
