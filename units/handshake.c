/* Contracts of transport_handshake.c and transport_handshake_priv.c. The parts of a handshake (identity chains, packets,
   key agreement, root keys, arrays) are used by their contracts (units identity, packet, ecdh, rootkey, array). */
#include "hs_payload.h"
#include "gen_id.h"
#include "gen_kex.h"
#include "gen_stream.h"
#include "private/transport_handshake_priv.h"
#include "private/transport_root_key_priv.h"
#include "transport_packet.h"
#include "ecdh_cipher_ctx.h"
#include "kdf.h"
#include "pb.h"

typedef Wickr__Proto__HandshakeV1 HM;
typedef Wickr__Proto__HandshakeV1__Seed HS;
typedef Wickr__Proto__HandshakeV1__Response HR;
typedef Wickr__Proto__HandshakeV1ResponseData HD;
typedef Wickr__Proto__IdentityChain IM;
typedef wickr_transport_handshake_status st_t;

static struct {
    size_t k; bool failed;                             /* failed: some callee failed although its arguments were in order */
    wickr_transport_handshake_t *h; bool h_gone;
    /* packet list */
    wickr_array_t *list; const wickr_buffer_t *src[2]; bool set[2]; unsigned sets; wickr_buffer_t *item[2]; wickr_array_t *list_copy; bool list_deep; unsigned list_destroys;
    /* identity chains */
    const wickr_identity_chain_t *copy_of[4]; wickr_identity_chain_t *copy_is[4]; unsigned copies;
    const wickr_identity_chain_t *proto_of; IM *proto_is; unsigned protos; const IM *from_msg; wickr_identity_chain_t *from_is; unsigned froms;
    /* the four components of the key derivation context, in the order of the protocol */
    size_t len[4], at; uint8_t want; unsigned sers; bool sers_ok;
    unsigned digests; const wickr_buffer_t *digest_out; bool info_ok, digest_args; wickr_buffer_t *digest_is;
    /* packets */
    unsigned verifies; bool verify_ret; const void *verify_pkt, *verify_id; unsigned signs; bool sign_ret, sign_ok; const void *sign_id;
    HM *msg; bool msg_ok; unsigned case_in; HR *in_resp; HS *in_seed; bool in_eph, in_flag, in_enc, in_id, in_required; ProtobufCBinaryData in_eph_data, in_enc_data; const IM *in_chain; uint8_t in_eph_byte, in_enc_byte;
    /* keys */
    unsigned imports; bool import_ok; wickr_ec_key_t *imported; unsigned rand_keys; wickr_ec_key_t *rand_key; bool rand_ok;
    unsigned ctxs; wickr_ecdh_cipher_ctx_t *ctx; bool ctx_ok; size_t ctx_live; wickr_cipher_result_t *enc_obj; unsigned crs; bool cr_ok;
    unsigned metas; wickr_kdf_meta_t *meta; bool meta_ok;
    unsigned ciphers; bool cipher_ok; wickr_cipher_result_t *cipher_is; wickr_buffer_t *plain; size_t ser_len; uint8_t ser_byte, eph3_byte; unsigned crsers; bool crser_ok;
    unsigned roots; bool root_ok; wickr_transport_root_key_t *root; Wickr__Proto__TransportRootKey *rk_msg; const void *rk_msg_of, *root_from; bool rk_freed;
    unsigned skeys; bool skey_ok, skd[2]; wickr_stream_key_t *sk[2]; const wickr_buffer_t *salt;
    unsigned datas; HD *data_in; bool data_ok; Wickr__Proto__TransportRootKey *data_rk; const wickr_buffer_t *data_out;
    unsigned cbs; bool cb_ok; wickr_identity_chain_t *cb_id; bool cb_destroy; st_t cb_status; wickr_transport_packet_t *cb_pending; wickr_transport_root_key_t *cb_root;
    const wickr_identity_chain_t *exp_remote; bool had_remote;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB); }
static bool nd_ok(void) { if (nd_fail()) { U.failed = true; return false; } return true; }
static int v_user;

/* ---- opaque identity chains: one allocation ---- */
static wickr_identity_chain_t *mk_chain_obj(void) { wickr_identity_chain_t *c = mk_mem(sizeof *c); return c; }
wickr_identity_chain_t *wickr_identity_chain_copy(const wickr_identity_chain_t *c)
{
    if (!c || !nd_ok()) return NULL;
    wickr_identity_chain_t *n = mk_chain_obj();
    if (U.copies < 4) { U.copy_of[U.copies] = c; U.copy_is[U.copies] = n; U.copies++; }
    return n;
}
void wickr_identity_chain_destroy(wickr_identity_chain_t **c) { if (c && *c) { v_free(*c); *c = NULL; } }
/* the message of a chain holds its public parts only (units identity_*, C22) */
IM *wickr_identity_chain_to_proto(const wickr_identity_chain_t *c)
{
    U.protos++; U.proto_of = c;
    if (!c || !nd_ok()) return NULL;
    return U.proto_is = mk_mem(sizeof(IM));
}
void wickr_identity_chain_proto_free(IM *m) { if (m) v_free(m); }
wickr_identity_chain_t *wickr_identity_chain_create_from_proto(const IM *m, const wickr_crypto_engine_t *e)
{
    U.froms++; U.from_msg = m;
    if (!m || !e || !nd_ok()) return NULL;
    return U.from_is = mk_chain_obj();
}
/* byte of component c of the derivation context */
static void mark(wickr_buffer_t *b, unsigned c)
{
    size_t s = 0;
    for (unsigned i = 0; i < c; i++) s += U.len[i];
    if (U.at >= s && U.at - s < b->length) b->bytes[U.at - s] = U.want;
}
wickr_buffer_t *wickr_identity_chain_serialize(const wickr_identity_chain_t *c)
{
    bool local = c == U.h->local_identity;
    U.sers++;
    if (!c || (!local && c != U.h->remote_identity)) U.sers_ok = false;
    if (!c || !nd_ok()) return NULL;
    /* component 0 is the identity of the initiator, component 1 the one of the responder */
    unsigned i = local == U.h->is_initiator ? 0 : 1;
    wickr_buffer_t *b = mk_buffer_len(U.len[i]);
    mark(b, i);
    return b;
}
/* ---- packet list ---- */
wickr_array_t *wickr_array_new(uint32_t n, uint8_t type, wickr_array_copy_func c, wickr_array_destroy_func d)
{
    POST("C12: the packet list holds two packets", n == 2 && c && d);
    if (!nd_ok()) return NULL;
    return U.list = mk_mem(8);
}
bool wickr_array_set_item(wickr_array_t *a, uint32_t i, void *item, bool copy)
{
    POST("C12: packets are recorded as copies in one of the two slots of the list", a && a == U.list && i < 2 && copy);
    U.sets++;
    if (item && !nd_ok()) return false;
    U.src[i] = item; if (!U.set[i] && item) G.live += 2; if (U.set[i] && !item) G.live -= 2;
    U.set[i] = item != NULL;
    return true;
}
void *wickr_array_fetch_item(const wickr_array_t *a, uint32_t i, bool copy)
{
    if (!a || a != U.list || i >= 2 || copy) return NULL;
    return U.item[i];
}
wickr_array_t *wickr_array_copy(const wickr_array_t *a, bool deep)
{
    U.list_deep = deep;
    if (!a || !nd_ok()) return NULL;
    return U.list_copy = mk_mem(8);
}
void wickr_array_destroy(wickr_array_t **a, bool deep)
{
    if (!a || !*a) return;
    if (*a == U.list) for (int i = 0; i < 2; i++) if (U.set[i]) { U.set[i] = false; G.live -= 2; }
    POST("C25: the packets of a list are released with it", deep);
    U.list_destroys++;
    v_free(*a); *a = NULL;
}
/* ---- packets ---- */
bool wickr_transport_packet_sign(wickr_transport_packet_t *p, const wickr_crypto_engine_t *e, const wickr_identity_chain_t *id)
{
    U.signs++; U.sign_id = id;
    U.sign_ok = p && e == &U.h->engine && p->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE && p->meta.body_meta.handshake.protocol_version == 1 && p->meta.body_meta.handshake.flags == 0
        && p->body && PB_OUT_OK(p->body);
    U.sign_ret = p && e && id && nd_ok();
    if (U.sign_ret) { p->network_buffer = mk_buffer(); p->mac = mk_buffer_len(10); p->meta.mac_type = TRANSPORT_MAC_TYPE_EC_P521; }
    return U.sign_ret;
}
bool wickr_transport_packet_verify(const wickr_transport_packet_t *p, const wickr_crypto_engine_t *e, wickr_identity_chain_t *id)
{
    U.verifies++; U.verify_pkt = p; U.verify_id = id;
    return U.verify_ret = p && e == &U.h->engine && id && nd_ok();
}
static wickr_transport_packet_t *mk_packet(void)
{
    wickr_transport_packet_t *p = mk_mem(sizeof *p);
    p->meta.mac_type = (wickr_transport_packet_mac_type)nd_range(0, 2);
    p->meta.body_type = (nd_u64() & 7) != 1 ? TRANSPORT_PAYLOAD_TYPE_HANDSHAKE : TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT;
    p->meta.body_meta.handshake.flags = nd_u64(); p->meta.body_meta.handshake.protocol_version = (nd_u64() & 7) != 1 ? 1 : nd_u8();
    p->body = mk_buffer(); p->network_buffer = mk_buffer_opt(); p->mac = mk_buffer_opt();
    return p;
}
static int64_t n_packet(const wickr_transport_packet_t *p) { return p ? 1 + (p->body ? 2 : 0) + (p->mac ? 2 : 0) + (p->network_buffer ? 2 : 0) : 0; }
/* ---- engine ---- */
static wickr_ec_key_t *mk_eph(unsigned c, bool pair)
{
    wickr_ec_key_t *k = mk_mem(sizeof *k);
    k->curve = EC_CURVE_NIST_P521; k->pub_data = mk_buffer_len(U.len[c]); k->pri_data = pair ? mk_buffer() : NULL;
    mark(k->pub_data, c);
    return k;
}
static wickr_ec_key_t *e_rand_key(wickr_ec_curve_t c)
{
    U.rand_keys++; U.rand_ok = same_curve(&c, &U.h->engine.default_curve);
    if (!nd_ok()) return NULL;
    return U.rand_key = mk_eph(2, true);
}
static wickr_ec_key_t *e_import(const wickr_buffer_t *b, bool is_private)
{
    U.imports++;
    U.import_ok = b && !is_private && U.in_eph && b->length == U.in_eph_data.len && (U.k >= b->length || b->bytes[U.k] == U.in_eph_byte);
    if (!b || !nd_ok()) return NULL;
    return U.imported = mk_eph(U.h->is_initiator ? 3 : 2, false);
}
static wickr_buffer_t *e_digest(const wickr_buffer_t *b, const wickr_buffer_t *salt, wickr_digest_t d)
{
    U.digests++;
    U.digest_args = !salt && same_digest(&d, &DIGEST_SHA_512);
    size_t n = 0; for (unsigned i = 0; i < 4; i++) n += U.len[i];
    U.info_ok = b && b->length == n && (U.at >= n || b->bytes[U.at] == U.want);
    if (!b || !nd_ok()) return NULL;
    return U.digest_is = mk_buffer_len(64);
}
wickr_kdf_meta_t *wickr_kdf_meta_create(wickr_kdf_algo_t a, wickr_buffer_t *salt, wickr_buffer_t *info)
{
    U.metas++;
    U.meta_ok = !salt && info && info == U.digest_is && a.algo_id == KDF_HKDF_SHA512.algo_id && a.kdf_id == KDF_HKDF_SHA512.kdf_id && a.output_size == KDF_HKDF_SHA512.output_size;
    if (!info || !nd_ok()) return NULL;
    wickr_kdf_meta_t *m = mk_mem(sizeof *m);
    m->algo = a; m->salt = salt; m->info = info;
    return U.meta = m;
}
void wickr_kdf_meta_destroy(wickr_kdf_meta_t **m) { if (m && *m) { wickr_buffer_destroy(&(*m)->salt); wickr_buffer_destroy(&(*m)->info); v_free(*m); *m = NULL; } }
/* ---- key agreement ---- */
wickr_ecdh_cipher_ctx_t *wickr_ecdh_cipher_ctx_create(wickr_crypto_engine_t e, wickr_ec_curve_t curve, wickr_cipher_t c)
{
    U.ctxs++;
    U.ctx_ok = U.imported && same_curve(&curve, &U.imported->curve) && same_cipher(&c, &U.h->engine.default_cipher) && e.wickr_crypto_engine_digest == e_digest;
    if (!nd_ok()) return NULL;
    wickr_ecdh_cipher_ctx_t *x = mk_mem(sizeof *x);
    x->engine = e; x->cipher = c; x->local_key = mk_eph(3, true); if (U.k < U.len[3]) U.eph3_byte = x->local_key->pub_data->bytes[U.k];
    return U.ctx = x;
}
wickr_ecdh_cipher_ctx_t *wickr_ecdh_cipher_ctx_create_key(wickr_crypto_engine_t e, wickr_ec_key_t *key, wickr_cipher_t c)
{
    U.ctxs++;
    U.ctx_ok = key && key != U.h->local_ephemeral_key && same_ec_key(key, U.h->local_ephemeral_key, U.k) && U.enc_obj && same_cipher(&c, &U.enc_obj->cipher) && e.wickr_crypto_engine_digest == e_digest;
    if (!key || !nd_ok()) return NULL;
    wickr_ecdh_cipher_ctx_t *x = mk_mem(sizeof *x);
    x->engine = e; x->cipher = c; x->local_key = key;
    return U.ctx = x;
}
void wickr_ecdh_cipher_ctx_destroy(wickr_ecdh_cipher_ctx_t **x) { if (x && *x) { wickr_ec_key_destroy(&(*x)->local_key); v_free(*x); *x = NULL; } }
static void watch(const wickr_buffer_t *b) { G.watch = b->bytes; G.watch_len = b->length; G.watch_k = U.k; G.watch_freed = G.watch_dirty = false; }
#define WIPED (G.watch_freed && !G.watch_dirty)
wickr_cipher_result_t *wickr_ecdh_cipher_ctx_cipher(const wickr_ecdh_cipher_ctx_t *x, const wickr_buffer_t *p, const wickr_ec_key_t *remote, const wickr_kdf_meta_t *m)
{
    U.ciphers++;
    U.cipher_ok = x && x == U.ctx && p && PB_OUT_OK(p) && U.data_ok && remote == U.imported && m && m == U.meta;
    if (p) { watch(p); PB.packs = 0; PB.sized = false; }
    if (!x || !p || !remote || !m || !nd_ok()) return NULL;
    return U.cipher_is = mk_cipher_result_for(x->cipher);
}
wickr_buffer_t *wickr_ecdh_cipher_ctx_decipher(const wickr_ecdh_cipher_ctx_t *x, const wickr_cipher_result_t *c, const wickr_ec_key_t *remote, const wickr_kdf_meta_t *m)
{
    U.ciphers++;
    U.cipher_ok = x && x == U.ctx && c && c == U.enc_obj && remote && remote == U.imported && m && m == U.meta;
    if (!x || !c || !remote || !m || !nd_ok()) return NULL;
    U.plain = mk_buffer(); watch(U.plain);
    return U.plain;
}
wickr_cipher_result_t *wickr_cipher_result_from_buffer(const wickr_buffer_t *b)
{
    U.crs++;
    U.cr_ok = b && U.in_enc && b->length == U.in_enc_data.len && (U.k >= b->length || b->bytes[U.k] == U.in_enc_byte);
    if (!b || !nd_ok()) return NULL;
    return U.enc_obj = mk_cipher_result();
}
wickr_buffer_t *wickr_cipher_result_serialize(const wickr_cipher_result_t *c)
{
    U.crsers++; U.crser_ok = c && c == U.cipher_is;
    if (!c || !nd_ok()) return NULL;
    wickr_buffer_t *b = mk_buffer(); U.ser_len = b->length; if (U.k < b->length) U.ser_byte = b->bytes[U.k];
    return b;
}
/* ---- root keys ---- */
static wickr_transport_root_key_t *mk_root_key(void) { wickr_transport_root_key_t *r = mk_mem(sizeof *r); r->cipher = CIPHER_AES256_GCM; r->secret = mk_buffer_len(32); return r; }
wickr_transport_root_key_t *wickr_transport_root_key_create_random(const wickr_crypto_engine_t *e, wickr_cipher_t c, uint32_t s, uint32_t r)
{
    U.roots++;
    U.root_ok = e == &U.h->engine && same_cipher(&c, &U.h->engine.default_cipher) && s == U.h->evo_count && r == U.h->evo_count;
    if (!nd_ok()) return NULL;
    return U.root = mk_root_key();
}
wickr_transport_root_key_t *wickr_transport_root_key_copy(const wickr_transport_root_key_t *r) { if (!r || !nd_ok()) return NULL; U.root_from = r; return U.root = mk_root_key(); }
void wickr_transport_root_key_destroy(wickr_transport_root_key_t **r) { if (r && *r) { wickr_buffer_destroy_zero(&(*r)->secret); v_free(*r); *r = NULL; } }
static Wickr__Proto__TransportRootKey *mk_rk_msg(void)
{
    Wickr__Proto__TransportRootKey *m = mk_mem(sizeof *m);
    memset(m, 0, sizeof *m);
    int64_t l = G.live; PB_OPT(m, secret, 64); G.live = l;
    return m;
}
static void free_rk_msg(Wickr__Proto__TransportRootKey *m) { int64_t l = G.live; PB_FREE(m, secret); G.live = l; v_free(m); }
Wickr__Proto__TransportRootKey *wickr_transport_root_key_to_proto(const wickr_transport_root_key_t *r)
{
    U.rk_msg_of = r;
    if (!r || !nd_ok()) return NULL;
    return U.rk_msg = mk_rk_msg();
}
void wickr_transport_root_key_proto_free(Wickr__Proto__TransportRootKey *m) { if (m) free_rk_msg(m); }
wickr_transport_root_key_t *wickr_transport_root_key_from_proto(const Wickr__Proto__TransportRootKey *m)
{
    U.roots++; U.root_ok = m && m == U.data_rk;
    if (!m || !nd_ok()) return NULL;
    POST("C16: the plain response has been wiped", WIPED);
    if (m->secret.data) { wickr_buffer_t b = { m->secret.len, m->secret.data }; watch(&b); }
    return U.root = mk_root_key();
}
wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport_root_key_t *r, const wickr_crypto_engine_t *e, const wickr_buffer_t *salt, const wickr_buffer_t *id, wickr_stream_direction d)
{
    bool snd = d == STREAM_DIRECTION_ENCODE; U.skeys++;
    if (U.skd[!snd]) U.skey_ok = false; U.skd[!snd] = true;    /* one key for each direction */
    if (!(r && r == U.h->root_key && e == &U.h->engine && salt && salt == U.digest_is && id && id->length == (snd ? 6 : 8) && memcmp(id->bytes, snd ? "sender" : "receiver", snd ? 6 : 8) == 0
        && (snd || d == STREAM_DIRECTION_DECODE))) U.skey_ok = false;
    if (!r || !salt || !nd_ok()) return NULL;
    wickr_stream_key_t *k = mk_stream_key_for(CIPHER_AES256_GCM, NULL);
    if (snd) U.sk[0] = k; else U.sk[1] = k;
    return k;
}
/* ---- messages ---- */
#ifdef V_PAYLOAD_STRUCT
#define PAYLOAD(m, p) ((m)->seed = (void *)(p), (m)->response = (void *)(p))
#else
#define PAYLOAD(m, p) ((m)->seed = (void *)(p))
#endif
static HM *mk_pb_handshake_v1(void)
{
    HM *m = mk_mem(sizeof *m); memset(m, 0, sizeof *m);
    int64_t l = G.live;
    U.case_in = (unsigned)nd_range(0, 2);
    U.in_chain = nd_bool() ? NULL : mk_mem(sizeof(IM));
    U.in_id = U.in_chain != NULL;
    if (U.case_in == 1) {
        m->payload_case = WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED;
        HS *s = U.in_seed = mk_mem(sizeof *s); memset(s, 0, sizeof *s); PAYLOAD(m, s);
        s->id_chain = (IM *)U.in_chain;
        PB_OPT(s, ephemeral_pubkey, (size_t)INT32_MAX + 1);
        s->has_identity_required = nd_bool(); s->identity_required = nd_bool();
        U.in_eph = s->has_ephemeral_pubkey; U.in_eph_data = s->ephemeral_pubkey; U.in_flag = s->has_identity_required; U.in_required = s->identity_required;
    } else if (U.case_in == 2) {
        m->payload_case = WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE;
        HR *r = U.in_resp = mk_mem(sizeof *r); memset(r, 0, sizeof *r); PAYLOAD(m, r);
        r->id_chain = (IM *)U.in_chain;
        PB_OPT(r, ephemeral_pubkey, (size_t)INT32_MAX + 1);
        PB_OPT(r, encrypted_response_data, (size_t)INT32_MAX + 1);
        U.in_eph = r->has_ephemeral_pubkey; U.in_eph_data = r->ephemeral_pubkey; U.in_enc = r->has_encrypted_response_data; U.in_enc_data = r->encrypted_response_data;
        if (U.k < U.in_enc_data.len) U.in_enc_byte = U.in_enc_data.data[U.k];
    }
    if (U.k < U.in_eph_data.len) U.in_eph_byte = U.in_eph_data.data[U.k];
    G.live = l;
    return m;
}
static void free_pb_handshake_v1(HM *m)
{
    int64_t l = G.live;
    if (m->payload_case == WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED) { PB_FREE(m->seed, ephemeral_pubkey); v_free(m->seed); }
    if (m->payload_case == WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE) { HR *r = m->response; PB_FREE(r, ephemeral_pubkey); PB_FREE(r, encrypted_response_data); v_free(r); }
    v_free((void *)U.in_chain);
    v_free(m);
    G.live = l - 1;
}
static void on_pack_handshake_v1(const HM *m);
PB_MSG(HM, handshake_v1, WICKR__PROTO__HANDSHAKE_V1__INIT)
static HD *mk_pb_handshake_v1_response_data(void)
{
    HD *m = mk_mem(sizeof *m); memset(m, 0, sizeof *m);
    int64_t l = G.live;
    m->root_key = U.data_rk = nd_bool() ? NULL : mk_rk_msg();
    G.live = l;
    return m;
}
static void free_pb_handshake_v1_response_data(HD *m) { int64_t l = G.live; if (m->root_key) free_rk_msg(m->root_key); v_free(m); G.live = l - 1; }
static void on_pack_handshake_v1_response_data(const HD *m) { U.datas++; U.data_ok = m->root_key && m->root_key == U.rk_msg; }
PB_MSG(HD, handshake_v1_response_data, WICKR__PROTO__HANDSHAKE_V1_RESPONSE_DATA__INIT)
void wickr__proto__handshake_v1__seed__init(HS *m) { HS i = WICKR__PROTO__HANDSHAKE_V1__SEED__INIT; *m = i; }
void wickr__proto__handshake_v1__response__init(HR *m) { HR i = WICKR__PROTO__HANDSHAKE_V1__RESPONSE__INIT; *m = i; }

/* ---- a handshake ---- */
static void cb_identity(const wickr_transport_handshake_t *h, wickr_identity_chain_t *id, void *user)
{
    U.cbs++;
    U.cb_id = id; U.cb_status = h->status; U.cb_pending = h->pending_identity_verify_packet; U.cb_root = h->root_key;
    U.cb_ok = h == U.h && id && U.copies > 0 && id == U.copy_is[U.copies - 1] && U.copy_of[U.copies - 1] == h->remote_identity && user == &v_user;
    /* the identity belongs to the callback; the callback may also complete the handshake and destroy it */
    v_free(id);
    if (U.cb_destroy) { v_inject = false; wickr_transport_handshake_t *x = U.h; wickr_transport_handshake_destroy(&x); U.h_gone = true; }
}
static wickr_transport_handshake_t *mk_handshake(void)
{
    wickr_transport_handshake_t *h = mk_mem(sizeof *h);
    memset(h, 0, sizeof *h);
    h->engine.default_curve = EC_CURVE_NIST_P521; h->engine.default_cipher = CIPHER_AES256_GCM;
    h->engine.wickr_crypto_engine_ec_rand_key = e_rand_key; h->engine.wickr_crypto_engine_ec_key_import = e_import; h->engine.wickr_crypto_engine_digest = e_digest;
    h->local_identity = mk_chain_obj(); h->remote_identity = nd_bool() ? NULL : mk_chain_obj();
    h->packet_list = U.list = mk_mem(8);
    h->identity_callback = cb_identity; h->user = &v_user; h->protocol_version = 1; h->evo_count = (uint32_t)nd_range(1, UINT32_MAX);
    h->status = (st_t)nd_range(0, 5);
    U.h = h; U.had_remote = h->remote_identity != NULL; U.exp_remote = h->remote_identity;
    return h;
}
static void setup(void)
{
    v_unit_reset(); U.k = PB.k = nd_u64(); U.sers_ok = true; U.skey_ok = true;
    /* any context at which no component is longer than a buffer can be */
    for (int i = 0; i < 2; i++) U.len[i] = nd_len(1, MAX_BUFFER_SIZE);
    for (int i = 2; i < 4; i++) U.len[i] = nd_len(1, P521_PUB_KEY_MAX_SIZE);
    U.at = G.cat_k = nd_u64(); U.want = nd_u8();
}
#define FAILED TRANSPORT_HANDSHAKE_STATUS_FAILED
#define UNKNOWN TRANSPORT_HANDSHAKE_STATUS_UNKNOWN
#define IN_PROGRESS TRANSPORT_HANDSHAKE_STATUS_IN_PROGRESS
#define P_VERIFY TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION
#define P_FINAL TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION
#define COMPLETE TRANSPORT_HANDSHAKE_STATUS_COMPLETE

static void on_pack_handshake_v1(const HM *m)
{
#if defined(H_SEED) || defined(H_RESPONSE) || defined(H_PACKET)
    U.msg_ok = m == U.msg;
#elif defined(H_START)
    HS *s = m->seed;
    U.msg_ok = m->payload_case == WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED && s && s->id_chain && s->id_chain == U.proto_is && U.proto_of == U.h->local_identity
        && s->has_ephemeral_pubkey && pb_is_copy(s->ephemeral_pubkey, U.h->local_ephemeral_key->pub_data, U.k) && s->has_identity_required && !!s->identity_required == !U.had_remote;
#else
    HR *r = m->response;
    U.msg_ok = m->payload_case == WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE && r && (U.in_required ? r->id_chain && r->id_chain == U.proto_is && U.proto_of == U.h->local_identity : !r->id_chain)
        && r->has_ephemeral_pubkey && U.ctx && r->ephemeral_pubkey.len == U.len[3] && r->has_encrypted_response_data && U.crser_ok
        && r->encrypted_response_data.len == U.ser_len && (U.k >= U.ser_len || r->encrypted_response_data.data[U.k] == U.ser_byte) && (U.k >= U.len[3] || r->ephemeral_pubkey.data[U.k] == U.eph3_byte);
#endif
}

void harness(void)
{
    setup(); int64_t l0; (void)l0;
#ifdef H_SEED
    wickr_identity_chain_t *c = nd_bool() ? NULL : mk_chain_obj(); wickr_buffer_t *eph = mk_buffer_opt(); bool need = nd_bool();
    l0 = G.live; v_inject = true;
    HS *s = wickr_proto_handshake_seed_create(c, eph, need);
    v_inject = false;
    POST("C12: a seed names the identity, the ephemeral key and whether the identity of the other side is needed", !s || (c && eph && s->id_chain && s->id_chain == U.proto_is && U.proto_of == c && s->has_ephemeral_pubkey && pb_is_copy(s->ephemeral_pubkey, eph, U.k)
        && s->has_identity_required && !!s->identity_required == need));
    POST("C22: the identity in a seed is its public message", !s || (U.protos == 1 && s->id_chain == U.proto_is));
    POST("C25: proto_handshake_seed_create leaks nothing", G.live == l0 + (s ? 3 : 0));
    v_inject = true; HM *m = wickr_proto_handshake_create_with_seed(s); v_inject = false;
    POST("C12: a seed message holds the seed", !m || (s && m->payload_case == WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED && m->seed == s));
    POST("C25: proto_handshake_create_with_seed leaks nothing", G.live == l0 + (s ? 3 : 0) + (m ? 1 : 0));
    REACH("seed message", m);
    if (m) wickr_proto_handshake_free(m); else if (s) wickr_proto_handshake_seed_free(s);
    POST("C25: a seed message is released entirely", G.live == l0);
#endif
#ifdef H_RESPONSE
    wickr_identity_chain_t *c = nd_bool() ? NULL : mk_chain_obj(); wickr_buffer_t *eph = mk_buffer_opt(), *enc = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    HR *r = wickr_proto_handshake_response_create(eph, enc, c);
    v_inject = false;
    POST("C12: a response holds the ephemeral key, the encrypted root key and the identity asked for", !r || (eph && enc && r->has_ephemeral_pubkey && pb_is_copy(r->ephemeral_pubkey, eph, U.k) && r->has_encrypted_response_data && pb_is_copy(r->encrypted_response_data, enc, U.k)
        && (c ? r->id_chain && r->id_chain == U.proto_is && U.proto_of == c : !r->id_chain)));
    POST("C22: the identity in a response is its public message", !r || !r->id_chain || (U.protos == 1 && r->id_chain == U.proto_is));
    POST("C25: proto_handshake_response_create leaks nothing", G.live == l0 + (r ? 3 + (r->id_chain ? 1 : 0) : 0));
    int64_t nr = G.live - l0;
    v_inject = true; HM *m = wickr_proto_handshake_create_with_response(r); v_inject = false;
    POST("C12: a response message holds the response", !m || (r && m->payload_case == WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE && m->response == r));
    POST("C25: proto_handshake_create_with_response leaks nothing", G.live == l0 + nr + (m ? 1 : 0));
    REACH("response message", m);
    if (m) wickr_proto_handshake_free(m); else wickr_proto_handshake_response_free(r);
    POST("C25: a response message is released entirely", G.live == l0);
    wickr_proto_handshake_free(NULL);
#endif
#ifdef H_DATA
    wickr_transport_root_key_t *root = nd_bool() ? NULL : mk_root_key();
    l0 = G.live; v_inject = true;
    HD *d = wickr_proto_handshake_response_data_create(root);
    v_inject = false;
    POST("C12: the response data is the message of the root key", !d || (root && d->root_key && d->root_key == U.rk_msg && U.rk_msg_of == root));
    POST("C25: proto_handshake_response_data_create leaks nothing", G.live == l0 + (d ? 2 : 0));
    int64_t l1 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_proto_handshake_response_data_serialize(d);
    v_inject = false;
    POST("C12: the serialized response data is the packed message", !b || (d && PB_OUT_OK(b) && U.data_ok && PB.msg == d));
    POST("C25: proto_handshake_response_data_serialize leaks nothing", G.live == l1 + (b ? 2 : 0));
    REACH("serialized", b);
    wickr_buffer_destroy(&b); wickr_proto_handshake_response_data_free(d);
    POST("C25: proto_handshake_response_data_free releases everything", G.live == l0);
    wickr_buffer_t *in = mk_buffer_opt(); l0 = G.live; v_inject = true;
    HD *p = wickr_proto_handshake_response_data_from_buffer(in);
    v_inject = false;
    POST("C12: response data is unpacked from the buffer given", !p || (in && PB.unpacks == 1 && PB.in == in->bytes && PB.in_len == in->length));
    POST("C25: proto_handshake_response_data_from_buffer leaks nothing", G.live == l0 + (p ? 1 : 0));
    REACH("unpacked", p);
#endif
#ifdef H_PACKET
    HM *m = nd_bool() ? NULL : mk_mem(sizeof *m); if (m) memset(m, 0, sizeof *m); U.msg = m;
    l0 = G.live; v_inject = true;
    wickr_transport_packet_t *p = wickr_proto_handshake_to_packet(m);
    v_inject = false;
    POST("C12: a handshake packet holds the packed message, as a handshake of version 1 without a signature", !p || (m && U.msg_ok && PB_OUT_OK(p->body) && p->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE && p->meta.body_meta.handshake.protocol_version == 1
        && p->meta.body_meta.handshake.flags == 0 && p->meta.mac_type == TRANSPORT_MAC_TYPE_NONE && !p->mac && !p->network_buffer));
    POST("C25: proto_handshake_to_packet leaks nothing", G.live == l0 + (p ? 3 : 0));
    REACH("packet", p);
    wickr_transport_packet_t *q = nd_bool() ? NULL : mk_packet();
    l0 = G.live; v_inject = true;
    HM *x = wickr_proto_handshake_from_packet(q);
    v_inject = false;
    POST("C12: a handshake message is unpacked from the body of a handshake packet only", !x || (q && q->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE && PB.unpacks == 1 && PB.in == q->body->bytes && PB.in_len == q->body->length));
    POST("C25: proto_handshake_from_packet leaks nothing", G.live == l0 + (x ? 1 : 0));
    REACH("message", x);
#endif
#ifdef H_CREATE
    wickr_transport_handshake_t *t = mk_handshake(); wickr_crypto_engine_t e = t->engine;
    wickr_identity_chain_t *a = nd_bool() ? NULL : mk_chain_obj(), *b = nd_bool() ? NULL : mk_chain_obj(); uint32_t evo = nd_u32(); bool cb = nd_bool();
    U.list = NULL;
    l0 = G.live; v_inject = true;
    wickr_transport_handshake_t *h = wickr_transport_handshake_create(e, a, b, cb ? cb_identity : 0, evo, &v_user);
    v_inject = false;
    POST("C12: a new handshake has done nothing yet", !h || (a && cb && evo != 0 && h->local_identity == a && h->remote_identity == b && h->identity_callback == cb_identity && h->evo_count == evo && h->user == &v_user && h->status == UNKNOWN && !h->is_initiator
        && h->protocol_version == 1 && !h->root_key && !h->local_ephemeral_key && !h->pending_identity_verify_packet && h->packet_list && h->packet_list == U.list && h->engine.wickr_crypto_engine_digest == e_digest));
    POST("C12: a handshake is created for valid parts", h || !a || !cb || evo == 0 || U.failed || G.alloc_failed);
    POST("C25: transport_handshake_create leaks nothing", G.live == l0 + (h ? 2 : 0));
    REACH("created", h);
    if (h) { POST("C12: the state is reported", wickr_transport_handshake_get_status(h) == h->status && wickr_transport_handshake_get_local_identity(h) == a && wickr_transport_handshake_get_remote_identity(h) == b && wickr_transport_handshake_get_user_data(h) == &v_user); }
#endif
#ifdef H_START
    wickr_transport_handshake_t *h = mk_handshake(); st_t s0 = h->status; wickr_identity_chain_t *loc = h->local_identity;
    if (s0 != UNKNOWN) h->local_ephemeral_key = nd_bool() ? NULL : mk_eph(2, true);
    const wickr_ec_key_t *eph0 = h->local_ephemeral_key;
    l0 = G.live; v_inject = true;
    wickr_transport_packet_t *p = wickr_transport_handshake_start(h);
    v_inject = false;
    POST("C12: only a new handshake can be started", !p || s0 == UNKNOWN);
    POST("C12: a handshake starts with a fresh ephemeral key and a seed signed by the local identity", !p || (h->is_initiator && h->status == IN_PROGRESS && U.rand_keys == 1 && U.rand_ok && h->local_ephemeral_key == U.rand_key && U.msg_ok && U.signs == 1 && U.sign_ret && U.sign_ok && U.sign_id == loc
        && p->body && p->network_buffer));
    POST("C12: the seed is recorded as the first packet", !p || U.failed || (U.sets == 1 && U.set[0] && U.src[0] == p->network_buffer));
    POST("C12: a handshake that cannot be started has failed", p || h->status == FAILED);
    POST("C12: starting succeeds", p || s0 != UNKNOWN || U.failed || G.alloc_failed || PB.size > MAX_BUFFER_SIZE);
    POST("C12: starting yields no keys", !h->root_key && h->local_identity == loc && h->remote_identity == U.exp_remote);
    POST("C25: transport_handshake_start leaks nothing", G.live == l0 + n_packet(p) + (U.set[0] ? 2 : 0) + (h->local_ephemeral_key != eph0 ? n_ec_key(h->local_ephemeral_key) : 0));
    REACH("started", p);
#endif
#if defined(H_INIT) || defined(H_RESP) || defined(H_ORDER)
    wickr_transport_handshake_t *h = mk_handshake();
#ifdef H_INIT
    h->status = UNKNOWN; h->is_initiator = false;
#endif
#ifdef H_RESP
    h->status = IN_PROGRESS; h->is_initiator = true; h->local_ephemeral_key = mk_eph(2, true); U.set[0] = true; G.live += 2;
#endif
#ifdef H_ORDER
    h->is_initiator = nd_bool();
    if (nd_bool()) h->root_key = mk_root_key();
    if (h->is_initiator) h->local_ephemeral_key = mk_eph(2, true);
#endif
    st_t s0 = h->status; bool had_remote = U.had_remote; wickr_identity_chain_t *loc = h->local_identity; const wickr_identity_chain_t *rem0 = h->remote_identity; wickr_ec_key_t *eph0 = h->local_ephemeral_key;
    const wickr_transport_root_key_t *root0 = h->root_key; bool set00 = U.set[0];
    wickr_transport_packet_t *pkt = nd_bool() ? NULL : mk_packet();
#ifdef H_ORDER
    /* what is not expected: another version, or a state that expects no message */
    ASSUME(!pkt || pkt->meta.body_meta.handshake.protocol_version != 1 || (h->status != UNKNOWN && h->status != IN_PROGRESS));
#else
    U.cb_destroy = nd_bool();
#endif
    l0 = G.live; v_inject = true;
    wickr_transport_packet_t *r = wickr_transport_handshake_process(h, pkt);
    v_inject = false;
    /* the state after the call, or, when the callback has taken the handshake over, at the callback */
    st_t s1 = U.h_gone ? U.cb_status : h->status;
    wickr_transport_packet_t *pend = U.h_gone ? NULL : h->pending_identity_verify_packet;
#ifdef H_ORDER
    POST("C12: an unexpected message fails the handshake", !r && s1 == FAILED);
    POST("C12: an unexpected message has no effect", U.sets == 0 && U.verifies == 0 && U.signs == 0 && U.cbs == 0 && PB.unpacks == 0 && h->root_key == root0 && h->remote_identity == rem0 && h->local_identity == loc && h->local_ephemeral_key == eph0);
    POST("C25: an unexpected message leaks nothing", G.live == l0);
    REACH_OPT("refused", pkt);
    v_inject = true;
    wickr_transport_handshake_res_t *res = wickr_transport_handshake_finalize(h);
    v_inject = false;
    POST("C12: a failed handshake yields no keys", !res);
#else
    bool ok = s1 != FAILED;
    POST("C12: a handshake advances to the verification of an unknown identity, or to finalization", s1 == FAILED || s1 == (had_remote ? P_FINAL : P_VERIFY));
    POST("C12: only a handshake packet of version 1 is processed", !ok || (pkt && pkt->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE && pkt->meta.body_meta.handshake.protocol_version == 1 && PB.unpacks >= 1));
    POST("C12: the packet is verified with the identity of the other side", !ok || (U.verifies == 1 && U.verify_ret && U.verify_pkt == pkt && (had_remote ? U.verify_id == rem0 && U.froms == 0 : U.verify_id == U.from_is && U.froms == 1 && U.from_msg == U.in_chain)));
    POST("C12: the identities of a handshake do not change", U.h_gone || (h->local_identity == loc && (had_remote ? h->remote_identity == rem0 : !ok || h->remote_identity == U.from_is)));
    POST("C12: the other ephemeral key is the public key in the message", !ok || (U.imports == 1 && U.import_ok));
    POST("C12: the key is derived in the context of both identities and both ephemeral keys", !ok || (U.sers == 2 && U.sers_ok && U.digests == 1 && U.digest_args && U.info_ok && U.metas == 1 && U.meta_ok));
    POST("C12: an unknown identity is verified by the owner of the handshake exactly once", U.cbs == (ok && !had_remote ? 1 : 0) && (!U.cbs || (U.cb_ok && U.cb_status == P_VERIFY)));
    POST("C12: nothing is sent before the identity of the other side is verified", !r || had_remote);
    POST("C12: a failed handshake sends nothing", ok || !r);
#ifdef H_INIT
    wickr_transport_packet_t *out = r ? r : U.cb_pending;
    POST("C12: the responder accepts a complete seed only", !ok || (U.case_in == 1 && U.in_eph && U.in_flag));
    POST("C12: the responder chooses a random root key with the configured evolution rate", !ok || (U.roots == 1 && U.root_ok && (U.h_gone ? U.cb_root == U.root : h->root_key == U.root) && U.rk_msg_of == U.root));
    POST("C12: the root key is encrypted to the ephemeral key of the initiator", !ok || (U.ctxs == 1 && U.ctx_ok && U.ciphers == 1 && U.cipher_ok));
    POST("C12: the response holds the encrypted root key, the ephemeral key and the identity asked for, signed by the local identity", !ok || (U.msg_ok && U.signs == 1 && U.sign_ret && U.sign_ok && U.sign_id == loc));
    POST("C12: the response is returned, or kept until the identity is verified", !ok || (out && (had_remote ? r && !pend : !r && (U.h_gone || pend == U.cb_pending))));
    POST("C12: the transcript is the received packet, then the own packet", !ok || U.failed || (U.sets == 2 && U.src[0] == pkt->network_buffer && (U.h_gone || U.src[1] == out->network_buffer)));
    POST("C16: the plain response is wiped", !U.datas || !G.watch || WIPED);
    if (!U.h_gone) POST("C25: processing a seed leaks nothing", G.live == l0 + n_packet(r) + n_packet(pend) + (h->root_key ? 3 : 0) + (h->remote_identity && !had_remote ? 1 : 0) + (U.set[0] ? 2 : 0) + (U.set[1] ? 2 : 0));
    else POST("C25: processing a seed leaks nothing when the handshake is destroyed", G.live == l0 - 3 - (had_remote ? 1 : 0));
#else
    POST("C12: the initiator accepts a complete response only", !ok || (U.case_in == 2 && U.in_eph && U.in_enc && (had_remote || U.in_id)));
    POST("C12: the root key is decrypted with the own ephemeral key and the one of the responder", !ok || (U.crs == 1 && U.cr_ok && U.ctxs == 1 && U.ctx_ok && U.ciphers == 1 && U.cipher_ok));
    POST("C12: the root key is the one in the response", !ok || (U.roots == 1 && U.root_ok && (U.h_gone ? U.cb_root == U.root : h->root_key == U.root)));
    POST("C12: the initiator sends no second message", !r && !pend && U.signs == 0);
    POST("C12: the packets of both sides are recorded", !ok || U.failed || (U.sets == 1 && U.src[1] == pkt->network_buffer));
    POST("C16: the plain response and the root key in it are wiped", !G.watch || WIPED);
    if (!U.h_gone) POST("C25: processing a response leaks nothing", G.live == l0 + (h->root_key ? 3 : 0) + (h->remote_identity && !had_remote ? 1 : 0) + (U.set[1] ? 2 : 0));
    else POST("C25: processing a response leaks nothing when the handshake is destroyed", G.live == l0 - 3 - (had_remote ? 1 : 0) - 7);
    POST("C12: the ephemeral key is kept", U.h_gone || h->local_ephemeral_key == eph0);
#endif
    POST("C12: a well-formed message is not refused", ok || U.failed || G.alloc_failed || !pkt || pkt->meta.body_type != TRANSPORT_PAYLOAD_TYPE_HANDSHAKE || pkt->meta.body_meta.handshake.protocol_version != 1 || PB.frees < PB.unpacks || PB.unpacks == 0
        || !U.in_eph || U.in_eph_data.len == 0 || U.in_eph_data.len > MAX_BUFFER_SIZE || U.len[0] > MAX_BUFFER_SIZE / 4 || U.len[1] > MAX_BUFFER_SIZE / 4
#ifdef H_INIT
        || U.case_in != 1 || !U.in_flag || (!had_remote && !U.in_id) || PB.size > MAX_BUFFER_SIZE
#else
        || U.case_in != 2 || !U.in_enc || U.in_enc_data.len == 0 || U.in_enc_data.len > MAX_BUFFER_SIZE || (!had_remote && !U.in_id) || U.data_rk == NULL
#endif
        );
    REACH("known identity", ok && had_remote);
    REACH("unknown identity", ok && !had_remote && !U.h_gone);
    REACH("handshake taken over by the callback", U.h_gone);
    (void)set00; (void)root0;
#endif
#endif
#ifdef H_VERIFY
    wickr_transport_handshake_t *h = mk_handshake(); st_t s0 = h->status; bool valid = nd_bool();
    h->root_key = nd_bool() ? NULL : mk_root_key(); h->pending_identity_verify_packet = nd_bool() ? NULL : mk_packet();
    wickr_transport_packet_t *pend = h->pending_identity_verify_packet; const void *root = h->root_key;
    if (h->root_key) watch(h->root_key->secret);
    l0 = G.live; v_inject = true;
    wickr_transport_packet_t *r = wickr_transport_handshake_verify_identity(h, valid);
    v_inject = false;
    bool go = valid && s0 == P_VERIFY;
    POST("C12: an identity is accepted only while its verification is pending", go ? h->status == (root ? P_FINAL : IN_PROGRESS) && h->root_key == root : h->status == FAILED && !h->root_key);
    POST("C12: the packet kept is released for sending only after the identity is accepted", go ? r == pend && !h->pending_identity_verify_packet : !r && h->pending_identity_verify_packet == pend);
    POST("C16: the root key of a refused identity is wiped", go || !root || WIPED);
    POST("C25: transport_handshake_verify_identity leaks nothing", G.live == l0 - (root && !go ? 3 : 0));
    REACH("accepted", go);
    POST("C12: no handshake, no packet", !wickr_transport_handshake_verify_identity(NULL, valid));
#endif
#ifdef H_FINAL
    wickr_transport_handshake_t *h = mk_handshake(); st_t s0 = h->status;
    h->is_initiator = nd_bool(); h->root_key = nd_bool() ? NULL : mk_root_key(); const void *root = h->root_key;
    bool has0 = nd_bool(), has1 = nd_bool();
    /* packets in the list are buffers; the transcript is their concatenation in order */
    if (has0) U.item[0] = mk_buffer(); if (has1) U.item[1] = mk_buffer();
    U.len[0] = has0 ? U.item[0]->length : 0; U.len[1] = has1 ? U.item[1]->length : 0; U.len[2] = U.len[3] = 0;
    if (has0) mark(U.item[0], 0); if (has1) mark(U.item[1], 1);
    l0 = G.live; v_inject = true;
    wickr_transport_handshake_res_t *r = wickr_transport_handshake_finalize(h);
    v_inject = false;
    POST("C12: keys are produced only by a handshake that is ready, once", !r || (s0 == P_FINAL && root && h->status == COMPLETE));
    POST("C12: a handshake that yields no keys has failed", r || h->status == FAILED);
    POST("C12: the keys are derived from the root key and the hash of both packets, one for each direction", !r || (has0 && has1 && U.digests == 1 && U.digest_args && U.info_ok && U.skeys == 2 && U.skey_ok));
    POST("C12: the key the initiator sends with is the key the responder receives with", !r || (h->is_initiator ? wickr_transport_handshake_res_get_local_key(r) == U.sk[0] && wickr_transport_handshake_res_get_remote_key(r) == U.sk[1]
        : wickr_transport_handshake_res_get_local_key(r) == U.sk[1] && wickr_transport_handshake_res_get_remote_key(r) == U.sk[0]));
    POST("C12: a handshake that is ready is finalized", r || s0 != P_FINAL || !root || !has0 || !has1 || U.failed || G.alloc_failed || U.len[0] + U.len[1] > MAX_BUFFER_SIZE);
    POST("C25: transport_handshake_finalize leaks nothing", G.live == l0 + (r ? 1 + n_stream_key(U.sk[0]) + n_stream_key(U.sk[1]) : 0));
    REACH("finalized", r);
    if (r) { wickr_transport_handshake_res_destroy(&r); POST("C25: transport_handshake_res_destroy releases everything", !r && G.live == l0); }
#endif
#ifdef H_COPY
    wickr_transport_handshake_t *h = mk_handshake();
    h->is_initiator = nd_bool(); h->root_key = nd_bool() ? NULL : mk_root_key(); h->pending_identity_verify_packet = nd_bool() ? NULL : mk_packet(); h->local_ephemeral_key = nd_bool() ? NULL : mk_eph(2, true);
    U.root = NULL;
    l0 = G.live; v_inject = true;
    wickr_transport_handshake_t *c = wickr_transport_handshake_copy(nd_bool() ? NULL : h);
    v_inject = false;
    POST("C21: a copied handshake has copies of the identities and the packets", !c || (c != h && U.copies == (h->remote_identity ? 2 : 1) && c->local_identity == U.copy_is[0] && U.copy_of[0] == h->local_identity
        && (h->remote_identity ? c->remote_identity == U.copy_is[1] && U.copy_of[1] == h->remote_identity : !c->remote_identity) && c->packet_list && c->packet_list == U.list_copy && U.list_deep));
    POST("C21: a copied handshake has copies of the keys", !c || ((h->root_key ? c->root_key && c->root_key == U.root && U.root_from == h->root_key : !c->root_key) && (h->local_ephemeral_key ? c->local_ephemeral_key && same_ec_key(c->local_ephemeral_key, h->local_ephemeral_key, U.k) && apart_ec_key(c->local_ephemeral_key, h->local_ephemeral_key) : !c->local_ephemeral_key)));
    POST("C21: a copied handshake is in the same state", !c || (c->status == h->status && c->is_initiator == h->is_initiator && c->protocol_version == h->protocol_version && c->evo_count == h->evo_count && c->user == h->user && c->identity_callback == h->identity_callback && c->engine.wickr_crypto_engine_digest == e_digest));
    POST("C21: a copied handshake has a copy of the pending packet", !c || (h->pending_identity_verify_packet ? c->pending_identity_verify_packet && c->pending_identity_verify_packet != h->pending_identity_verify_packet && same_bytes_at(c->pending_identity_verify_packet->body, h->pending_identity_verify_packet->body, U.k)
        && apart_buf(c->pending_identity_verify_packet->body, h->pending_identity_verify_packet->body) && same_bytes_at(c->pending_identity_verify_packet->mac, h->pending_identity_verify_packet->mac, U.k) : !c->pending_identity_verify_packet));
    POST("C25: transport_handshake_copy leaks nothing", G.live == l0 + (c ? 3 + (c->remote_identity ? 1 : 0) + (c->root_key ? 3 : 0) + n_ec_key(c->local_ephemeral_key) + n_packet(c->pending_identity_verify_packet) : 0));
    REACH("copied", c);
    if (c) {
        if (c->local_ephemeral_key) watch(c->local_ephemeral_key->pri_data);
        wickr_transport_handshake_destroy(&c);
        POST("C25: transport_handshake_destroy releases everything", !c && G.live == l0);
        POST("C16: the ephemeral key of a handshake is wiped", !h->local_ephemeral_key || WIPED);
    }
#endif
#ifdef H_RES
    wickr_stream_key_t *a = nd_bool() ? NULL : mk_stream_key_for(CIPHER_AES256_GCM, mk_buffer_opt()), *b = nd_bool() ? NULL : mk_stream_key_for(CIPHER_AES256_GCM, mk_buffer_opt());
    l0 = G.live; v_inject = true;
    wickr_transport_handshake_res_t *r = wickr_transport_handshake_res_create(a, b);
    v_inject = false;
    POST("C12: a result holds both keys", !r || (a && b && wickr_transport_handshake_res_get_local_key(r) == a && wickr_transport_handshake_res_get_remote_key(r) == b));
    POST("C25: transport_handshake_res_create leaks nothing", G.live == l0 + (r ? 1 : 0));
    l0 = G.live; v_inject = true;
    wickr_transport_handshake_res_t *c = wickr_transport_handshake_res_copy(r);
    v_inject = false;
    const wickr_stream_key_t *ca = wickr_transport_handshake_res_get_local_key(c), *cb = wickr_transport_handshake_res_get_remote_key(c);
    POST("C21: a copied result has copies of both keys", !c || (r && c != r && ca && cb && ca != a && cb != b && same_bytes_at(ca->cipher_key->key_data, a->cipher_key->key_data, U.k) && same_bytes_at(ca->evolution_key, a->evolution_key, U.k) && same_bytes_at(ca->user_data, a->user_data, U.k)
        && same_bytes_at(cb->cipher_key->key_data, b->cipher_key->key_data, U.k) && same_bytes_at(cb->evolution_key, b->evolution_key, U.k) && ca->packets_per_evolution == a->packets_per_evolution && cb->packets_per_evolution == b->packets_per_evolution
        && apart_buf(ca->cipher_key->key_data, a->cipher_key->key_data) && apart_buf(ca->evolution_key, a->evolution_key) && apart_buf(cb->cipher_key->key_data, b->cipher_key->key_data) && apart_buf(cb->evolution_key, b->evolution_key)));
    POST("C21: copying succeeds", c || !r || G.alloc_failed);
    POST("C25: transport_handshake_res_copy leaks nothing", G.live == l0 + (c ? 1 + n_stream_key(ca) + n_stream_key(cb) : 0));
    REACH("copied", c);
    if (c) {
        watch(nd_bool() ? ca->evolution_key : cb->cipher_key->key_data);
        wickr_transport_handshake_res_destroy(&c);
        POST("C25: transport_handshake_res_destroy releases everything", !c && G.live == l0);
        POST("C16: the keys in a result are wiped", WIPED);
    }
#endif
}
