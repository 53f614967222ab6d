/* Contracts of node.c / node_priv.c / ephemeral_keypair.c / ephemeral_keypair_priv.c */
#include "gen_node.h"
#include "pb.h"

static struct {
    size_t k; bool engine_failed;
    unsigned verifies; bool verify_ret; const void *v_sig, *v_key, *v_data;
    unsigned digests; bool last_dig_args, same_as_cached; size_t c_len; uint8_t c_byte; const void *last_digest;
    wickr_node_t *node;
    /* identity chain contracts */
    unsigned validates; bool validate_ret; bool cache_asked, cache_ret; const void *validated;
    /* proto contracts */
    const void *chain_proto, *key_proto; const void *chain_src, *key_src, *chain_in, *key_in; wickr_identity_chain_t *chain; wickr_ephemeral_keypair_t *keypair; bool failed;
    unsigned imports; size_t import_len; const uint8_t *import_ptr; bool import_private; wickr_ec_key_t *imported;
    const wickr_ec_key_t *sign_key; const wickr_buffer_t *sign_data; bool sign_sha512; const void *rand_key;
    const wickr_ephemeral_keypair_t *kp; const wickr_node_t *n;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB); }

static bool e_verify(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *key, const wickr_buffer_t *data)
{
    U.verifies++; U.v_sig = s; U.v_key = key; U.v_data = data;
    return U.verify_ret = nd_bool() && s;
}
/* byte k of ephemeral public key | signature | status cache of the chain | status */
static bool dig_content(const wickr_buffer_t *d)
{
    const wickr_buffer_t *a = U.node->ephemeral_keypair->ec_key->pub_data, *b = U.node->ephemeral_keypair->signature->sig_data, *c = U.node->id_chain->_status_cache;
    if (!c || d->length != a->length + b->length + c->length + 1) return false;
    size_t k = U.k;
    if (k < a->length) return d->bytes[k] == a->bytes[k];
    k -= a->length;
    if (k < b->length) return d->bytes[U.k] == b->bytes[k];
    k -= b->length;
    if (k < c->length) return d->bytes[U.k] == c->bytes[k];
    k -= c->length;
    return k > 0 || d->bytes[U.k] == (uint8_t)U.node->status;
}
static wickr_buffer_t *e_digest(const wickr_buffer_t *d, const wickr_buffer_t *salt, wickr_digest_t m)
{
    U.digests++;
    U.last_dig_args = !salt && m.digest_id == DIGEST_ID_SHA512 && U.node && dig_content(d);
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    wickr_buffer_t *o = mk_buffer_len(64), *cache = U.node ? U.node->_status_cache : NULL;
    G.cmp_k = nd_range(0, 63);
    /* natively the remembered content is guessed to be this one half of the time */
    NATIVE_ONLY(if (U.digests == 1 && v_native_coin()) { U.c_len = d->length; U.c_byte = U.k < d->length ? d->bytes[U.k] : 0; })
    bool may = cache && d->length == U.c_len && (U.k >= d->length || d->bytes[U.k] == U.c_byte);
    U.same_as_cached = cache && nd_bool() && may;
    if (cache) { if (U.same_as_cached) memcpy(o->bytes, cache->bytes, 64); else ASSUME(o->bytes[0] != cache->bytes[0]); }
    U.last_digest = o;
    return o;
}
static wickr_ec_key_t *e_import(const wickr_buffer_t *b, bool is_private)
{
    U.imports++; U.import_len = b->length; U.import_ptr = b->bytes; U.import_private = is_private;
    if (nd_bool() || b->length == 0) { U.engine_failed = true; return NULL; }
    return U.imported = is_private ? mk_ec_key_pair() : mk_ec_key_pub();
}
static wickr_ec_key_t *e_rand_key(wickr_ec_curve_t c) { if (nd_bool()) { U.engine_failed = true; return NULL; } wickr_ec_key_t *k = mk_ec_key_pair(); U.rand_key = k; return k; }
static wickr_ecdsa_result_t *e_sign(const wickr_ec_key_t *key, const wickr_buffer_t *data, wickr_digest_t d)
{
    U.sign_key = key; U.sign_data = data; U.sign_sha512 = d.digest_id == DIGEST_ID_SHA512;
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    return mk_ecdsa();
}
static wickr_crypto_engine_t mk_engine(void)
{
    wickr_crypto_engine_t e; memset(&e, 0, sizeof e);
    e.default_curve = EC_CURVE_NIST_P521;
    e.wickr_crypto_engine_ec_verify = e_verify; e.wickr_crypto_engine_digest = e_digest; e.wickr_crypto_engine_ec_key_import = e_import;
    e.wickr_crypto_engine_ec_rand_key = e_rand_key; e.wickr_crypto_engine_ec_sign = e_sign;
    return e;
}
#ifdef S_CHAIN
/* contracts of the identity chain (proved in units/identity.c) */
bool wickr_identity_chain_validate(wickr_identity_chain_t *c, const wickr_crypto_engine_t *e)
{
    U.validates++; U.validated = c;
    if (!c || !e) return false;
    U.validate_ret = nd_bool();
    c->status = U.validate_ret ? IDENTITY_CHAIN_STATUS_VALID : IDENTITY_CHAIN_STATUS_INVALID;
    if (nd_bool()) { wickr_buffer_destroy(&c->_status_cache); if (nd_bool()) c->_status_cache = mk_buffer_len(64); }
    return U.validate_ret;
}
bool wickr_identity_chain_has_valid_cache(const wickr_identity_chain_t *c, const wickr_crypto_engine_t *e)
{
    if (!c || !e || !c->_status_cache) return false;
    U.cache_asked = true; return U.cache_ret = nd_bool();
}
#endif
#ifdef S_PROTO
/* contracts of the message builders of the parts (proved in units/identity.c and in this file) */
Wickr__Proto__IdentityChain *wickr_identity_chain_to_proto(const wickr_identity_chain_t *c)
{
    U.chain_src = c;
    if (!c || nd_bool()) { U.failed = true; return NULL; }
    Wickr__Proto__IdentityChain i = WICKR__PROTO__IDENTITY_CHAIN__INIT, *m = mk_mem(sizeof *m);
    *m = i; U.chain_proto = m; return m;
}
Wickr__Proto__EphemeralKeypair *wickr_ephemeral_keypair_to_proto(const wickr_ephemeral_keypair_t *k)
{
    U.key_src = k;
    if (!k) return NULL;
    if (nd_bool()) { U.failed = true; return NULL; }
    Wickr__Proto__EphemeralKeypair i = WICKR__PROTO__EPHEMERAL_KEYPAIR__INIT, *m = mk_mem(sizeof *m);
    *m = i; U.key_proto = m; return m;
}
wickr_identity_chain_t *wickr_identity_chain_create_from_proto(const Wickr__Proto__IdentityChain *p, const wickr_crypto_engine_t *e)
{
    U.chain_in = p;
    if (!p || !e || nd_bool()) { U.failed = true; return NULL; }
    return U.chain = mk_chain();
}
wickr_ephemeral_keypair_t *wickr_ephemeral_keypair_create_from_proto(const Wickr__Proto__EphemeralKeypair *p, const wickr_crypto_engine_t *e)
{
    U.key_in = p;
    if (!p || nd_bool()) { U.failed = true; return NULL; }
    return U.keypair = mk_keypair();
}
#endif
#ifdef S_COPY
/* contracts of the copies of the parts (proved in units/identity.c and in this file) */
wickr_identity_chain_t *wickr_identity_chain_copy(const wickr_identity_chain_t *c) { U.chain_src = c; if (!c || nd_bool()) { U.failed = true; return NULL; } return U.chain = mk_chain(); }
wickr_ephemeral_keypair_t *wickr_ephemeral_keypair_copy(const wickr_ephemeral_keypair_t *k) { U.key_src = k; if (!k) return NULL; if (nd_bool()) { U.failed = true; return NULL; } return U.keypair = mk_keypair(); }
#endif
/* ---- protobuf messages ---- */
static Wickr__Proto__EphemeralKeypair *mk_pb_ephemeral_keypair(void)
{
    Wickr__Proto__EphemeralKeypair *m = mk_mem(sizeof *m);
    m->has_identifier = nd_bool(); m->identifier = nd_u64(); PB_OPT(m, ec_key, MAX_BUFFER_SIZE); PB_OPT(m, key_signature, MAX_BUFFER_SIZE);
    return m;
}
static void free_pb_ephemeral_keypair(Wickr__Proto__EphemeralKeypair *m) { PB_FREE(m, ec_key); PB_FREE(m, key_signature); v_free(m); }
static void on_pack_ephemeral_keypair(const Wickr__Proto__EphemeralKeypair *m) { POST("C08: the packed message is the one built for the key pair", U.kp != NULL); }
static Wickr__Proto__Node *mk_pb_node(void)
{
    Wickr__Proto__Node *m = mk_mem(sizeof *m);
    PB_OPT(m, devid, MAX_BUFFER_SIZE);
    m->id_chain = nd_bool() ? NULL : mk_mem(sizeof *m->id_chain); m->ephemeral_keypair = nd_bool() ? NULL : mk_mem(sizeof *m->ephemeral_keypair);
    return m;
}
static void free_pb_node(Wickr__Proto__Node *m) { PB_FREE(m, devid); v_free(m->id_chain); v_free(m->ephemeral_keypair); v_free(m); }
static bool node_msg_ok(const Wickr__Proto__Node *m, const wickr_node_t *n)
{
    return m->has_devid && pb_is_copy(m->devid, n->dev_id, U.k) && m->id_chain && m->id_chain == U.chain_proto && U.chain_src == n->id_chain
        && (n->ephemeral_keypair ? m->ephemeral_keypair && m->ephemeral_keypair == U.key_proto && U.key_src == n->ephemeral_keypair : !m->ephemeral_keypair);
}
static void on_pack_node(const Wickr__Proto__Node *m) { POST("C22: a serialized node consists of its device id and the public forms of its chain and key pair", U.n && node_msg_ok(m, U.n)); }
PB_MSG(Wickr__Proto__EphemeralKeypair, ephemeral_keypair, WICKR__PROTO__EPHEMERAL_KEYPAIR__INIT)
PB_MSG(Wickr__Proto__Node, node, WICKR__PROTO__NODE__INIT)

static bool kp_msg_ok(const Wickr__Proto__EphemeralKeypair *m, const wickr_ephemeral_keypair_t *p)
{
    return m->has_identifier && m->identifier == p->identifier && m->has_ec_key && pb_is_copy(m->ec_key, p->ec_key->pub_data, U.k)
        && (p->signature ? m->has_key_signature && m->key_signature.len == P521_SIGNATURE_MAX_SIZE && m->key_signature.data[0] == p->signature->digest_mode.digest_id
              && m->key_signature.data[1] == P521_SIGNATURE_MAX_SIZE - 2 - p->signature->sig_data->length
              && (U.k >= p->signature->sig_data->length || m->key_signature.data[P521_SIGNATURE_MAX_SIZE - p->signature->sig_data->length + U.k] == p->signature->sig_data->bytes[U.k]) : !m->has_key_signature);
}
static bool kp_is_msg(const wickr_ephemeral_keypair_t *p, const Wickr__Proto__EphemeralKeypair *m)
{
    return m->has_identifier && m->has_ec_key && p->identifier == m->identifier && U.imports == 1 && p->ec_key == U.imported && U.import_ptr == m->ec_key.data && U.import_len == m->ec_key.len && !U.import_private
        && (m->has_key_signature ? ok_ecdsa(p->signature) && p->signature->sig_data->length + 2 + m->key_signature.data[1] == m->key_signature.len && p->signature->digest_mode.digest_id == (m->key_signature.data[0] & 15)
              && (U.k >= p->signature->sig_data->length || p->signature->sig_data->bytes[U.k] == m->key_signature.data[2 + m->key_signature.data[1] + U.k]) : p->signature == NULL);
}

void harness(void)
{
    memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB);
    U.k = nd_u64(); PB.k = nd_u64();
    wickr_crypto_engine_t eng = mk_engine(); int64_t l0;
#ifdef H_VERIFY
    wickr_node_t *n = mk_node(); U.node = n;
    wickr_node_status st0 = n->status;
    U.c_len = nd_len(4, MAX_BUFFER_SIZE); U.c_byte = nd_u8();
    wickr_identity_chain_t *c = n->id_chain; wickr_ephemeral_keypair_t *kp = n->ephemeral_keypair;
    l0 = G.live - n_node(n);
    v_inject = true;
    bool r = wickr_node_verify_signature_chain(nd_bool() ? n : NULL, nd_bool() ? &eng : NULL);
    v_inject = false;
    bool fresh = U.validates == 1 && U.validated == c && U.validate_ret && U.verifies == 1 && U.verify_ret && kp && U.v_sig == kp->signature && U.v_key == c->node->sig_key && U.v_data == kp->ec_key->pub_data;
    bool memo = U.validates == 0 && U.verifies == 0 && U.cache_ret && U.digests == 1 && U.same_as_cached && st0 == NODE_STATUS_VALID;
    POST("C08: a node verifies only if chain and ephemeral key verify, now or for this very content", !r || fresh || memo);
    POST("C08: the memory of an outcome covers the ephemeral key, its signature, the chain and the status", U.digests == 0 || U.last_dig_args);
    POST("C08: the outcome is what is returned and remembered", U.validates == 0 || (n->status == (r ? NODE_STATUS_VALID : NODE_STATUS_INVALID) && (n->_status_cache == NULL || n->_status_cache == U.last_digest)));
    POST("C08: a fully verified node is accepted", U.validates == 0 || r == (U.validate_ret && U.verifies == 1 && U.verify_ret));
    POST("C08: verification does not change the node", n->id_chain == c && n->ephemeral_keypair == kp);
    POST("C25: node_verify_signature_chain leaks nothing", G.live == l0 + n_node(n));
    REACH("verified", r && fresh); REACH("from memory", r && memo); REACH("chain invalid", !r && U.validates && !U.validate_ret); REACH_OPT("key invalid", !r && U.verifies);
#endif
#ifdef H_ROTATE
    wickr_node_t *n = nd_bool() ? NULL : mk_node(); bool copy = nd_bool();
    /* the given key may be the one the node already has */
    bool same = n && n->ephemeral_keypair && nd_bool();
    wickr_ephemeral_keypair_t *k = same ? n->ephemeral_keypair : nd_bool() ? NULL : mk_keypair(), *old = n ? n->ephemeral_keypair : NULL;
    wickr_node_status st0 = n ? n->status : NODE_STATUS_UNKNOWN;
    /* what the given key is, recorded before the call: it is released when it is the one replaced by its copy */
    uint64_t id0 = k ? k->identifier : 0; size_t len0 = k ? k->ec_key->pub_data->length : 0; uint8_t b0 = k && U.k < len0 ? k->ec_key->pub_data->bytes[U.k] : 0; bool sig0 = k && k->signature;
    int64_t own = n_keypair(old);
    l0 = G.live; v_inject = true;
    bool r = wickr_node_rotate_keypair(n, k, copy);
    v_inject = false;
    const wickr_ephemeral_keypair_t *now = n ? n->ephemeral_keypair : NULL;
    POST("C08: a rotated node has the given key and an unknown status", !r || (n && now && n->status == NODE_STATUS_UNKNOWN && (!copy ? now == k : now->identifier == id0 && now->ec_key->pub_data->length == len0 && (U.k >= len0 || now->ec_key->pub_data->bytes[U.k] == b0) && (now->signature != NULL) == sig0
        && (same || (same_keypair(now, k, U.k) && apart_keypair(now, k))))));
    POST("C08: a node without its new key keeps its key and its verdict, or has neither", r || !n || (now == old && n->status == st0) || (!now && n->status == NODE_STATUS_UNKNOWN));
    POST("C08: a node can be rotated", r || !n || !k || G.alloc_failed);
    POST("C25: node_rotate_keypair leaks nothing", G.live == l0 - (now != old ? own : 0) + (r && copy ? n_keypair(now) : 0));
    REACH("rotated", r && copy); REACH("taken over", r && !copy);
#endif
#ifdef H_NODE_SER
    wickr_node_t *n = nd_bool() ? NULL : mk_node(); U.n = n;
    l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_node_serialize(n);
    v_inject = false;
    POST("C08: the result is the packed message", !b || (n && ok_buffer(b) && PB_OUT_OK(b)));
    POST("C25: node_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    REACH("serialized", b && n->ephemeral_keypair);
#endif
#ifdef H_NODE_PARSE
    Wickr__Proto__Node *m = nd_bool() ? NULL : mk_pb_node();
    l0 = G.live; v_inject = true;
    wickr_node_t *n = wickr_node_create_from_proto(m, nd_bool() ? NULL : &eng);
    v_inject = false;
    POST("C08: a parsed node carries exactly the parts of the message and no trust", !n || (m && m->has_devid && pb_is_copy(m->devid, n->dev_id, U.k) && n->dev_id->bytes != m->devid.data && n->id_chain == U.chain && U.chain_in == m->id_chain
        && (m->ephemeral_keypair ? n->ephemeral_keypair == U.keypair && U.key_in == m->ephemeral_keypair : !n->ephemeral_keypair) && n->status == NODE_STATUS_UNKNOWN && !n->_status_cache));
    POST("C08: a well formed node is accepted", n || !m || !m->has_devid || m->devid.len == 0 || U.failed || G.alloc_failed);
    POST("C25: node_create_from_proto leaks nothing", G.live == l0 + n_node(n));
    REACH("parsed", n && n->ephemeral_keypair);
    l0 = G.live - n_node(n);
    if (n) { wickr_node_destroy(&n); POST("C25: node_destroy releases everything", !n && G.live == l0); }
#endif
#ifdef H_NODE_PARSE2
    wickr_buffer_t *b = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_node_t *n = wickr_node_create_from_buffer(b, &eng);
    v_inject = false;
    POST("C08: a node is parsed from exactly the given bytes", !n || (b && PB.unpacks == 1 && PB.in == b->bytes && PB.in_len == b->length && n->status == NODE_STATUS_UNKNOWN && !n->_status_cache));
    POST("C25: node_create_from_buffer leaks nothing", G.live == l0 + n_node(n));
    REACH("parsed", n);
#endif
#ifdef H_NODE_COPY
    wickr_node_t *s = nd_bool() ? NULL : mk_node();
    l0 = G.live; v_inject = true;
    wickr_node_t *c = wickr_node_copy(s);
    v_inject = false;
    POST("C21: a node copy is complete", !c || (s && same_bytes_at(c->dev_id, s->dev_id, U.k) && U.chain_src == s->id_chain && c->id_chain == U.chain && U.key_src == s->ephemeral_keypair
        && c->ephemeral_keypair == U.keypair && (!s->ephemeral_keypair) == (!c->ephemeral_keypair) && c->status == s->status && same_bytes_at(c->_status_cache, s->_status_cache, U.k)));
    POST("C21: a node copy is separate", !c || (c != s && apart_buf(c->dev_id, s->dev_id) && apart_buf(c->_status_cache, s->_status_cache)));
    POST("C21: copying succeeds", c || !s || U.failed || G.alloc_failed);
    POST("C25: node_copy leaks nothing", G.live == l0 + n_node(c));
    REACH("copied", c && c->ephemeral_keypair);
#endif
#ifdef H_KP_SER
    wickr_ephemeral_keypair_t *p = nd_bool() ? NULL : mk_keypair(); U.kp = p;
    l0 = G.live; v_inject = true;
    Wickr__Proto__EphemeralKeypair *m = wickr_ephemeral_keypair_to_proto(p);
    v_inject = false;
    POST("C08: the message of a key pair carries identifier, public key and signature", !m || (p && kp_msg_ok(m, p)));
    POST("C22: the message of a key pair carries no private key", !m || !p->ec_key->pri_data || m->ec_key.data != p->ec_key->pri_data->bytes);
    POST("C25: ephemeral_keypair_to_proto leaks nothing", G.live == l0 + (m ? 1 + (m->has_key_signature ? 1 : 0) : 0));
    REACH("with signature", m && m->has_key_signature);
    if (m) { wickr_ephemeral_keypair_proto_free(m); POST("C25: ephemeral_keypair_proto_free releases everything", G.live == l0); }
    v_inject = true;
    wickr_buffer_t *b = wickr_ephemeral_keypair_serialize(p);
    v_inject = false;
    POST("C08: the result is the packed message", !b || (p && ok_buffer(b) && PB_OUT_OK(b)));
    POST("C25: ephemeral_keypair_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    REACH("serialized", b);
#endif
#ifdef H_KP_PARSE
    Wickr__Proto__EphemeralKeypair *m = nd_bool() ? NULL : mk_pb_ephemeral_keypair();
    l0 = G.live; v_inject = true;
    wickr_ephemeral_keypair_t *p = wickr_ephemeral_keypair_create_from_proto(m, &eng);
    v_inject = false;
    POST("C08: a parsed key pair carries exactly the fields of the message and a public key", !p || (m && kp_is_msg(p, m)));
    POST("C25: ephemeral_keypair_create_from_proto leaks nothing", G.live == l0 + n_keypair(p));
    REACH("parsed", p && p->signature);
    l0 = G.live - n_keypair(p);
    if (p) { wickr_ephemeral_keypair_destroy(&p); POST("C25: ephemeral_keypair_destroy releases everything", !p && G.live == l0); }
    wickr_buffer_t *b = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    p = wickr_ephemeral_keypair_create_from_buffer(b, &eng);
    v_inject = false;
    POST("C08: a key pair is parsed from exactly the given bytes", !p || (b && PB.unpacks == 1 && PB.in == b->bytes && PB.in_len == b->length));
    POST("C25: ephemeral_keypair_create_from_buffer leaks nothing", G.live == l0 + n_keypair(p));
#endif
#ifdef H_KP
    wickr_ephemeral_keypair_t *s = nd_bool() ? NULL : mk_keypair(); wickr_identity_t *id = nd_bool() ? NULL : mk_identity();
    bool v = wickr_ephemeral_keypair_verify_owner(s, nd_bool() ? NULL : &eng, id);
    POST("C08: an owner is verified by the signature over the public key under its key", !v || (s && id && U.verifies == 1 && U.verify_ret && U.v_sig == s->signature && U.v_key == id->sig_key && U.v_data == s->ec_key->pub_data));
    REACH("owner verified", v);
    l0 = G.live; v_inject = true;
    wickr_ephemeral_keypair_t *c = wickr_ephemeral_keypair_copy(s);
    v_inject = false;
    POST("C21: a key pair copy is complete", !c || (s && same_keypair(c, s, U.k)));
    POST("C21: a key pair copy is separate", !c || apart_keypair(c, s));
    POST("C21: copying succeeds", c || !s || G.alloc_failed);
    POST("C25: ephemeral_keypair_copy leaks nothing", G.live == l0 + n_keypair(c));
    REACH("copied", c && c->signature && c->ec_key->pri_data);
    if (c) {
        wickr_buffer_t *pri = c->ec_key->pri_data;
        if (pri) { G.watch = pri->bytes; G.watch_len = pri->length; G.watch_k = U.k; }
        if (nd_bool()) wickr_ephemeral_keypair_make_public(c);
        else { wickr_ephemeral_keypair_destroy(&c); POST("C25: ephemeral_keypair_destroy releases everything", !c && G.live == l0); }
        POST("C22: a key pair made public or destroyed has no private key", !c || !c->ec_key->pri_data);
        POST("C16: the private key of a key pair is wiped", !G.watch || (G.watch_freed && !G.watch_dirty));
    }
#endif
#ifdef H_KP_GEN
    wickr_identity_t *id = nd_bool() ? NULL : mk_identity(); uint64_t i = nd_u64();
    l0 = G.live; v_inject = true;
    wickr_ephemeral_keypair_t *p = wickr_ephemeral_keypair_generate_identity(&eng, i, id);
    v_inject = false;
    POST("C08: a generated key pair is a fresh key signed by the identity with SHA-512", !p || (id && id->sig_key->pri_data && p->identifier == i && p->ec_key == U.rand_key && U.sign_key == id->sig_key && U.sign_data == p->ec_key->pub_data && U.sign_sha512 && ok_ecdsa(p->signature)));
    POST("C25: ephemeral_keypair_generate_identity leaks nothing", G.live == l0 + n_keypair(p));
    REACH("generated", p);
#endif
}
