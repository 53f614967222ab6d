/* Contracts of identity.c / identity_priv.c */
#include "gen_id.h"
#include "pb.h"

static struct {
    size_t k; bool engine_failed;
    /* verify */
    unsigned verifies; bool verify_ret; const void *v_sig, *v_key, *v_data;
    /* digest: the cached value was computed for content of length c_len with byte c_byte at index k */
    unsigned digests; bool dig_args; size_t c_len; uint8_t c_byte; bool same_as_cached;
    wickr_identity_chain_t *chain; const void *last_digest; bool last_dig_args; uint8_t last_status;
    /* import */
    unsigned imports; bool import_private[2]; size_t import_len[2]; uint8_t import_byte[2]; wickr_ec_key_t *imported[2]; const uint8_t *import_ptr[2];
    /* proto */
    const wickr_identity_t *id; const wickr_identity_chain_t *ch; bool pvt, pack_ok;
    const wickr_ec_key_t *sign_key; const wickr_buffer_t *sign_data; bool sign_sha512; const void *rand_key;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB); }

static bool e_verify(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *key, const wickr_buffer_t *data)
{
    U.verifies++; U.v_sig = s; U.v_key = key; U.v_data = data;
    U.verify_ret = nd_bool() && s;                /* the engine never accepts an absent signature */
    return U.verify_ret;
}
/* byte k of root public key | node signature | node public key | status */
static bool dig_content(const wickr_buffer_t *d, uint8_t status)
{
    const wickr_buffer_t *a = U.chain->root->sig_key->pub_data, *b = U.chain->node->signature ? U.chain->node->signature->sig_data : NULL, *c = U.chain->node->sig_key->pub_data;
    if (!b || d->length != a->length + b->length + c->length + 1) return false;
    size_t k = U.k;
    if (k < a->length) return d->bytes[k] == a->bytes[k];
    k -= a->length;
    if (k < b->length) return d->bytes[U.k] == b->bytes[k];
    k -= b->length;
    if (k < c->length) return d->bytes[U.k] == c->bytes[k];
    k -= c->length;
    return k > 0 || d->bytes[U.k] == status;
}
static wickr_buffer_t *e_digest(const wickr_buffer_t *d, const wickr_buffer_t *salt, wickr_digest_t m)
{
    U.digests++;
    const wickr_buffer_t *cache = U.chain ? U.chain->_status_cache : NULL;
    U.last_dig_args = !salt && m.digest_id == DIGEST_ID_SHA512 && U.chain && dig_content(d, (uint8_t)U.chain->status);
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    wickr_buffer_t *o = mk_buffer_len(64);
    G.cmp_k = nd_range(0, 63);
    /* collision resistance: the digest equals the cached one only for the content the cached one was computed for */
    /* natively the remembered content is guessed to be this one half of the time */
    NATIVE_ONLY(if (U.digests == 1 && v_native_coin()) { U.c_len = d->length; U.c_byte = U.k < d->length ? d->bytes[U.k] : 0; })
    bool may = cache && d->length == U.c_len && (U.k >= d->length || d->bytes[U.k] == U.c_byte);
    U.same_as_cached = cache && nd_bool() && may;
    if (cache) {
        if (U.same_as_cached) memcpy(o->bytes, cache->bytes, 64);
        else ASSUME(o->bytes[0] != cache->bytes[0]);
    }
    U.last_digest = o;
    return o;
}
static wickr_ec_key_t *e_import(const wickr_buffer_t *b, bool is_private)
{
    unsigned n = U.imports++;
    POST("C07: key import gets at most one key per identity", n < 2);
    if (n < 2) { U.import_private[n] = is_private; U.import_len[n] = b->length; U.import_ptr[n] = b->bytes; }
    if (nd_bool() || b->length == 0) { U.engine_failed = true; return NULL; }
    wickr_ec_key_t *k = is_private ? mk_ec_key_pair() : mk_ec_key_pub();
    if (n < 2) U.imported[n] = k;
    return k;
}
static wickr_ec_key_t *e_rand_key(wickr_ec_curve_t c) { if (nd_bool()) { U.engine_failed = true; return NULL; } wickr_ec_key_t *k = mk_ec_key_pair(); U.rand_key = k; return k; }
static wickr_ecdsa_result_t *e_sign(const wickr_ec_key_t *key, const wickr_buffer_t *data, wickr_digest_t d)
{
    U.sign_key = key; U.sign_data = data; U.sign_sha512 = d.digest_id == DIGEST_ID_SHA512;
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    return mk_ecdsa();
}
static wickr_buffer_t *e_random(size_t n) { if (nd_bool()) { U.engine_failed = true; return NULL; } POST("C07: random identifiers have the documented length", n == IDENTIFIER_LEN); return mk_buffer_len(n); }
static wickr_crypto_engine_t mk_engine(void)
{
    wickr_crypto_engine_t e; memset(&e, 0, sizeof e);
    e.default_curve = EC_CURVE_NIST_P521;
    e.wickr_crypto_engine_ec_verify = e_verify; e.wickr_crypto_engine_digest = e_digest; e.wickr_crypto_engine_ec_key_import = e_import;
    e.wickr_crypto_engine_ec_rand_key = e_rand_key; e.wickr_crypto_engine_ec_sign = e_sign; e.wickr_crypto_engine_crypto_random = e_random;
    return e;
}
/* ---- protobuf messages ---- */
static Wickr__Proto__Identity *mk_pb_identity(void)
{
    Wickr__Proto__Identity *m = mk_mem(sizeof *m);
    PB_OPT(m, identifier, MAX_BUFFER_SIZE); PB_OPT(m, sig_key, MAX_BUFFER_SIZE); PB_OPT(m, signature, MAX_BUFFER_SIZE);
    m->has_type = nd_bool(); m->type = (Wickr__Proto__Identity__Type)nd_range(0, 3); m->has_is_private = nd_bool(); m->is_private = m->has_is_private ? nd_bool() : 0;
    return m;
}
static void free_pb_identity(Wickr__Proto__Identity *m) { PB_FREE(m, identifier); PB_FREE(m, sig_key); PB_FREE(m, signature); v_free(m); }
static Wickr__Proto__IdentityChain *mk_pb_identity_chain(void)
{
    Wickr__Proto__IdentityChain *m = mk_mem(sizeof *m);
    m->root = nd_bool() ? NULL : mk_pb_identity(); m->node = nd_bool() ? NULL : mk_pb_identity();
    return m;
}
static void free_pb_identity_chain(Wickr__Proto__IdentityChain *m) { if (m->root) free_pb_identity(m->root); if (m->node) free_pb_identity(m->node); v_free(m); }
/* the message carries exactly the identity, with the public key only unless a private export was asked for */
static bool id_msg_ok(const Wickr__Proto__Identity *m, const wickr_identity_t *i, bool pvt)
{
    bool sig = i->type == IDENTITY_TYPE_NODE;
    return m->has_type && m->type == (i->type == IDENTITY_TYPE_ROOT ? WICKR__PROTO__IDENTITY__TYPE__IDENTITY_TYPE_ROOT : WICKR__PROTO__IDENTITY__TYPE__IDENTITY_TYPE_NODE)
        && m->has_identifier && pb_is_copy(m->identifier, i->identifier, U.k) && m->has_sig_key && pb_is_copy(m->sig_key, pvt ? i->sig_key->pri_data : i->sig_key->pub_data, U.k)
        && m->has_is_private && m->is_private == pvt && m->has_signature == sig
        && (!sig || (i->signature && m->signature.len == P521_SIGNATURE_MAX_SIZE && m->signature.data[0] == i->signature->digest_mode.digest_id
            && m->signature.data[1] == P521_SIGNATURE_MAX_SIZE - 2 - i->signature->sig_data->length
            && (U.k >= i->signature->sig_data->length || m->signature.data[P521_SIGNATURE_MAX_SIZE - i->signature->sig_data->length + U.k] == i->signature->sig_data->bytes[U.k])));
}
static bool id_msg_public(const Wickr__Proto__Identity *m, const wickr_identity_t *i)
{
    return !m->is_private && (!i->sig_key->pri_data || m->sig_key.data != i->sig_key->pri_data->bytes);
}
static void on_pack_identity(const Wickr__Proto__Identity *m)
{
    POST("C07: the serialized identity carries exactly its fields", U.id && id_msg_ok(m, U.id, false));
    POST("C22: a serialized identity carries no private key", U.id && id_msg_public(m, U.id));
}
static void on_pack_identity_chain(const Wickr__Proto__IdentityChain *m)
{
    POST("C07: the serialized chain carries exactly its identities", U.ch && m->root && m->node && id_msg_ok(m->root, U.ch->root, U.pvt) && id_msg_ok(m->node, U.ch->node, U.pvt));
    POST("C22: a chain serialized for others carries no private key", U.pvt || (id_msg_public(m->root, U.ch->root) && id_msg_public(m->node, U.ch->node)));
}
PB_MSG(Wickr__Proto__Identity, identity, WICKR__PROTO__IDENTITY__INIT)
PB_MSG(Wickr__Proto__IdentityChain, identity_chain, WICKR__PROTO__IDENTITY_CHAIN__INIT)

/* the parsed identity is exactly the message */
static bool id_is_msg(const wickr_identity_t *i, const Wickr__Proto__Identity *m, unsigned n)
{
    return m->has_identifier && m->has_sig_key && m->has_type && ok_buffer(i->identifier) && pb_is_copy(m->identifier, i->identifier, U.k) && i->identifier->length < MAX_IDENTIFIER_LEN
        && i->identifier->bytes != m->identifier.data
        && i->type == (m->type == WICKR__PROTO__IDENTITY__TYPE__IDENTITY_TYPE_NODE ? IDENTITY_TYPE_NODE : IDENTITY_TYPE_ROOT)
        && U.imports > n && i->sig_key == U.imported[n] && U.import_len[n] == m->sig_key.len && U.import_ptr[n] == m->sig_key.data && U.import_private[n] == (m->has_is_private && m->is_private)
        && (m->has_signature ? ok_ecdsa(i->signature) && i->signature->sig_data->length + 2 + m->signature.data[1] == m->signature.len && i->signature->digest_mode.digest_id == (m->signature.data[0] & 15)
              && (U.k >= i->signature->sig_data->length || i->signature->sig_data->bytes[U.k] == m->signature.data[2 + m->signature.data[1] + U.k]) : i->signature == NULL);
}
static bool sig_field_ok(const Wickr__Proto__Identity *m)
{
    return !m->has_signature || (m->signature.len > 1 && m->signature.len > 2u + m->signature.data[1] && m->signature.data[0] >= 1 && m->signature.data[0] <= 3);
}
static bool id_acceptable(const Wickr__Proto__Identity *m)
{
    return m && m->has_identifier && m->identifier.len > 0 && m->identifier.len < MAX_IDENTIFIER_LEN && m->has_sig_key && m->has_type && sig_field_ok(m);
}

void harness(void)
{
    memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB);
    U.k = nd_u64(); PB.k = nd_u64();
    wickr_crypto_engine_t eng = mk_engine(); int64_t l0;
#ifdef H_VALIDATE
    wickr_identity_chain_t *c = mk_chain(); U.chain = c;
    wickr_identity_chain_status st0 = c->status;
    /* what the cached value was computed for: any content; the status inside it was never UNKNOWN */
    U.c_len = nd_len(4, MAX_BUFFER_SIZE); U.c_byte = nd_u8();
    wickr_identity_t *root = c->root, *node = c->node; const void *sig = node->signature, *rk = root->sig_key, *np = node->sig_key->pub_data;
    l0 = G.live - (c->_status_cache ? 2 : 0);
    v_inject = true;
    bool r = wickr_identity_chain_validate(nd_bool() ? c : NULL, nd_bool() ? &eng : NULL);
    v_inject = false;
    POST("C07: valid means the root signature over the node key verified, now or for this very content", !r || (U.verifies == 1 && U.verify_ret) || (U.verifies == 0 && U.same_as_cached && st0 == IDENTITY_CHAIN_STATUS_VALID));
    POST("C07: verification covers the node signature, root key and node public key of the chain", U.verifies == 0 || (U.verifies == 1 && U.v_sig == sig && U.v_key == rk && U.v_data == np));
    POST("C07: the outcome of a verification is what is returned and remembered", U.verifies == 0 || (r == U.verify_ret && c->status == (r ? IDENTITY_CHAIN_STATUS_VALID : IDENTITY_CHAIN_STATUS_INVALID)));
    POST("C07: the memory of an outcome covers root key, signature, node key and status", U.digests == 0 || U.last_dig_args);
    POST("C07: the memory is the digest computed for the new status", U.verifies == 0 || c->_status_cache == NULL || c->_status_cache == U.last_digest);
    POST("C07: validation does not change the chain", c->root == root && c->node == node && node->signature == sig && root->sig_key == rk && node->sig_key->pub_data == np);
    POST("C25: identity_chain_validate leaks nothing", G.live == l0 + (c->_status_cache ? 2 : 0));
    REACH("valid by verification", r && U.verifies); REACH("valid by memory", r && !U.verifies); REACH("invalid by memory", !r && !U.verifies && U.digests); REACH_OPT("invalid", !r && U.verifies);
#endif
#ifdef H_ID_SER
    wickr_identity_t *i = nd_bool() ? NULL : mk_identity(); U.id = i;
    l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_identity_serialize(i);
    v_inject = false;
    POST("C07: the result is the packed message", !b || (i && ok_buffer(b) && PB_OUT_OK(b)));
    POST("C07: an identity can be serialized", b || !i || G.alloc_failed || (PB.sized && PB.size > MAX_BUFFER_SIZE) || (i->type == IDENTITY_TYPE_NODE && !i->signature));
    POST("C25: identity_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    REACH("node serialized", b && i->type == IDENTITY_TYPE_NODE); REACH("root serialized", b && i->type == IDENTITY_TYPE_ROOT && i->sig_key->pri_data);
#endif
#ifdef H_ID_PARSE
    wickr_buffer_t *b = mk_buffer_opt();
    wickr_identity_t *i; Wickr__Proto__Identity *m = nd_bool() ? NULL : mk_pb_identity();
    l0 = G.live; v_inject = true;
    i = wickr_identity_create_from_proto(m, nd_bool() ? NULL : &eng);
    v_inject = false;
    POST("C07: a parsed identity carries exactly the fields of the message", !i || (m && id_is_msg(i, m, 0)));
    POST("C07: a well formed identity is accepted", i || G.alloc_failed || U.engine_failed || !m || !id_acceptable(m) || U.imports == 0);
    POST("C25: identity_create_from_proto leaks nothing", G.live == l0 + n_identity(i));
    REACH("parsed node with signature", i && i->signature && i->type == IDENTITY_TYPE_NODE); REACH_OPT("rejected signature", m && !i && !sig_field_ok(m));
#endif
#ifdef H_ID_PARSE2
    wickr_buffer_t *b = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_identity_t *i = wickr_identity_create_from_buffer(b, nd_bool() ? NULL : &eng);
    POST("C07: an identity is parsed from exactly the given bytes", !i || (b && PB.unpacks == 1 && PB.in == b->bytes && PB.in_len == b->length));
    POST("C25: identity_create_from_buffer leaks nothing", G.live == l0 + n_identity(i));
    REACH("parsed", i);
#endif
#ifdef H_CH_SER
    wickr_identity_chain_t *c = nd_bool() ? NULL : mk_chain(); U.ch = c; U.pvt = nd_bool();
    l0 = G.live; v_inject = true;
    wickr_buffer_t *b = U.pvt ? wickr_identity_chain_serialize_private(c) : wickr_identity_chain_serialize(c);
    v_inject = false;
    POST("C07: the result is the packed message", !b || (c && ok_buffer(b) && PB_OUT_OK(b)));
    POST("C25: identity_chain_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    REACH("serialized", b && !U.pvt); REACH("serialized privately", b && U.pvt);
#endif
#ifdef H_CH_PARSE
    wickr_buffer_t *b = mk_buffer_opt();
    Wickr__Proto__IdentityChain *m = nd_bool() ? NULL : mk_pb_identity_chain();
    l0 = G.live; v_inject = true;
    wickr_identity_chain_t *c = wickr_identity_chain_create_from_proto(m, nd_bool() ? NULL : &eng);
    v_inject = false;
    POST("C07: a parsed chain carries exactly its two identities and no status", !c || (m && m->root && m->node && id_is_msg(c->root, m->root, 0) && id_is_msg(c->node, m->node, 1) && c->status == IDENTITY_CHAIN_STATUS_UNKNOWN && !c->_status_cache));
    POST("C25: identity_chain_create_from_proto leaks nothing", G.live == l0 + n_chain(c));
    REACH("parsed", c);
#endif
#ifdef H_CH_PARSE2
    wickr_buffer_t *b = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_identity_chain_t *c = wickr_identity_chain_create_from_buffer(b, nd_bool() ? NULL : &eng);
    v_inject = false;
    POST("C07: a chain is parsed from exactly the given bytes and starts without status", !c || (b && PB.unpacks == 1 && PB.in == b->bytes && PB.in_len == b->length && c->status == IDENTITY_CHAIN_STATUS_UNKNOWN && !c->_status_cache));
    POST("C25: identity_chain_create_from_buffer leaks nothing", G.live == l0 + n_chain(c));
    REACH("parsed", c);
    l0 = G.live - n_chain(c);
    if (c) { wickr_identity_chain_destroy(&c); POST("C25: identity_chain_destroy releases everything", !c && G.live == l0); }
#endif
#ifdef H_COPY
    wickr_identity_chain_t *s = nd_bool() ? NULL : mk_chain();
    l0 = G.live; v_inject = true;
    wickr_identity_chain_t *c = wickr_identity_chain_copy(s);
    v_inject = false;
    POST("C21: a chain copy is complete", !c || (s && same_identity(c->root, s->root, U.k) && same_identity(c->node, s->node, U.k) && c->status == s->status && same_bytes_at(c->_status_cache, s->_status_cache, U.k)));
    POST("C21: a chain copy is separate", !c || (c != s && apart_identity(c->root, s->root) && apart_identity(c->node, s->node) && apart_buf(c->_status_cache, s->_status_cache)));
    POST("C21: copying succeeds", c || !s || G.alloc_failed);
    POST("C25: identity_chain_copy leaks nothing", G.live == l0 + n_chain(c));
    REACH("copied", c && c->_status_cache && c->node->signature);
#endif
#ifdef H_COPY1
    wickr_identity_t *s = nd_bool() ? NULL : mk_identity();
    l0 = G.live; v_inject = true;
    wickr_identity_t *c = wickr_identity_copy(s);
    v_inject = false;
    POST("C21: an identity copy is complete", !c || (s && same_identity(c, s, U.k)));
    POST("C21: an identity copy is separate", !c || apart_identity(c, s));
    POST("C21: copying succeeds", c || !s || G.alloc_failed);
    POST("C25: identity_copy leaks nothing", G.live == l0 + n_identity(c));
    REACH("copied", c && c->signature && c->sig_key->pri_data);
    if (c) {
        wickr_buffer_t *pri = c->sig_key->pri_data;
        if (pri) { G.watch = pri->bytes; G.watch_len = pri->length; G.watch_k = U.k; }
        wickr_identity_destroy(&c);
        POST("C25: identity_destroy releases everything", !c && G.live == l0);
        POST("C16: destroying an identity wipes its private key", !G.watch || (G.watch_freed && !G.watch_dirty));
    }
#endif
#ifdef H_GEN
    wickr_identity_t *root = nd_bool() ? NULL : mk_identity(); wickr_buffer_t *idb = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_identity_t *n = wickr_node_identity_gen(nd_bool() ? NULL : &eng, root, idb);
    v_inject = false;
    POST("C07: a generated node identity has a fresh key signed by the root with SHA-512", !n || (root && root->type == IDENTITY_TYPE_ROOT && root->sig_key->pri_data && n->type == IDENTITY_TYPE_NODE && n->sig_key == U.rand_key
        && U.sign_key == root->sig_key && U.sign_data == n->sig_key->pub_data && U.sign_sha512 && ok_ecdsa(n->signature)));
    POST("C07: a generated node identity has the given or a random identifier", !n || (idb ? same_bytes_at(n->identifier, idb, U.k) && n->identifier != idb : n->identifier->length == IDENTIFIER_LEN));
    POST("C25: node_identity_gen leaks nothing", G.live == l0 + n_identity(n));
    REACH("generated", n); REACH("generated with identifier", n && idb);
#endif
#ifdef H_SIGN
    wickr_identity_t *root = nd_bool() ? NULL : mk_identity(); const wickr_buffer_t *d = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_ecdsa_result_t *s = wickr_identity_sign(root, &eng, d);
    POST("C07: signing uses the identity key over exactly the data with SHA-512", !s || (root->sig_key == U.sign_key && U.sign_data == d && U.sign_sha512 && root->sig_key->pri_data && d));
    POST("C25: identity_sign leaks nothing", G.live == l0 + n_ecdsa(s));
#endif
}
