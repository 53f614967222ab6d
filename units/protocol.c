/* Contracts of protocol.c: key exchange with a recipient, message packets, parsing and decoding. */
#include "gen_node.h"
#include "gen_msg.h"
#include "pb.h"
#include "loopc.h"
#include "protocol.h"
#include "ecdh_cipher_ctx.h"
#include "message.pb-c.h"

#define NPLAIN 3
static struct {
    size_t k; bool engine_failed, failed;
    /* key exchange */
    wickr_ecdh_cipher_ctx_t *ctx; wickr_cipher_t ctx_cipher; const wickr_ec_key_t *local; const wickr_ec_key_t *want_local; bool ctx_private, engine_ok;
    wickr_kdf_meta_t *meta; unsigned ops; const void *op_in, *op_remote; bool params_ok; wickr_cipher_result_t *enc; wickr_buffer_t *dec;
    const wickr_identity_chain_t *sender; const wickr_node_t *receiver; const wickr_buffer_t *psk; uint8_t version;
    wickr_buffer_t *ser; const void *ser_in; wickr_cipher_key_t *parsed_key; const wickr_buffer_t *parse_in;
    /* packets */
    const uint8_t *sig_in; size_t sig_in_len; uint8_t sig_byte; wickr_ecdsa_result_t *sig; uint8_t sig_digest_id; wickr_buffer_t *sig_ser; bool sig_ser_is;
    const wickr_cipher_result_t *hdr_cr, *pay_cr; const uint8_t *hdr_b, *pay_b; size_t hdr_n, pay_n; unsigned sers;
    const void *sign_key; const wickr_buffer_t *signed_data; wickr_digest_t sign_digest; unsigned signs, verifies; const void *verify_key, *verify_sig, *verify_data; bool verify_ok;
    /* recipients */
    uint32_t n, kk; wickr_node_t *item[NPLAIN], *K, *O; wickr_array_t *nodes, *arr; bool K_ok; unsigned visits, visits2; uint32_t i0, sets, next, checked; int64_t live0; bool K_checked, K_wrapped, order_ok, args_ok;
    const void *x_last, *x_node; unsigned wraps, array_destroys; bool destroyed_deep;
    const wickr_cipher_key_t *header_key, *payload_key; wickr_ec_key_t *exchange_key; const wickr_payload_t *payload; const wickr_crypto_engine_t *eng;
    bool set_ok, pay_ok, comp_ok; wickr_cipher_result_t *set_enc, *pay_enc; wickr_packet_t *packet;
    /* parsing */
    const Wickr__Proto__Packet *pm; unsigned crs; const uint8_t *cr_in[2]; size_t cr_len[2]; wickr_cipher_result_t *cr[2]; wickr_cipher_key_t *hkey; bool hkey_ok, hdr_ok, find_ok; unsigned keygens, hdrs, finds;
    wickr_key_exchange_set_t *set; wickr_key_exchange_t *found; const wickr_buffer_t *want_id;
    bool derive_ok; wickr_payload_t *pl; bool pl_ok; unsigned derives, pls; wickr_cipher_key_t *dkey;
    const wickr_packet_t *pkt; const wickr_parse_result_t *pr; const wickr_buffer_t *dev; const wickr_ec_key_t *rkey; const wickr_identity_chain_t *rid;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB); }
#define N_SET 1
/* ---- contracts of ecdh_cipher_ctx.c (units/ecdh.c) and of the kdf parameters (kdf.c) ---- */
#ifdef S_ECDH
wickr_ecdh_cipher_ctx_t *wickr_ecdh_cipher_ctx_create_key(wickr_crypto_engine_t e, wickr_ec_key_t *key, wickr_cipher_t c)
{
    if (!key || nd_bool()) { U.failed = true; return NULL; }
    wickr_ecdh_cipher_ctx_t *x = mk_mem(sizeof *x);
    x->local_key = key; x->cipher = c; x->engine = e; U.ctx = x; U.ctx_cipher = c; U.local = key;
    return x;
}
void wickr_ecdh_cipher_ctx_destroy(wickr_ecdh_cipher_ctx_t **x)
{
    if (!x || !*x) return;
    wickr_ec_key_destroy(&(*x)->local_key); v_free(*x); *x = NULL;
}
wickr_kdf_meta_t *wickr_kdf_meta_create(wickr_kdf_algo_t algo, wickr_buffer_t *salt, wickr_buffer_t *info)
{
    if (nd_bool()) { U.failed = true; return NULL; }
    wickr_kdf_meta_t *m = mk_mem(sizeof *m);
    m->algo = algo; m->salt = salt; m->info = info;
    return U.meta = m;
}
void wickr_kdf_meta_destroy(wickr_kdf_meta_t **m)
{
    if (!m || !*m) return;
    wickr_buffer_destroy(&(*m)->salt); wickr_buffer_destroy(&(*m)->info); v_free(*m); *m = NULL;
}
static bool same_algo(const wickr_kdf_algo_t *a, const wickr_kdf_algo_t *b) { return a->algo_id == b->algo_id && a->kdf_id == b->kdf_id && a->salt_size == b->salt_size && a->output_size == b->output_size && a->cost == b->cost; }
/* the byte at k of the concatenation of up to three buffers */
static bool is_cat3(const wickr_buffer_t *r, const wickr_buffer_t *a, const wickr_buffer_t *b, const wickr_buffer_t *c)
{
    if (r->length != a->length + b->length + c->length) return false;
    for (int pass = 0; pass < 1; pass++) {
        size_t k = U.k;
        if (k < a->length) return r->bytes[k] == a->bytes[k];
        k -= a->length;
        if (k < b->length) return r->bytes[U.k] == b->bytes[k];
        k -= b->length;
        if (k < c->length) return r->bytes[U.k] == c->bytes[k];
    }
    return true;
}
/* the derivation parameters each protocol version prescribes */
static bool params_ok(const wickr_kdf_meta_t *m)
{
    const wickr_kdf_algo_t h256 = KDF_HKDF_SHA256, h512 = KDF_HKDF_SHA512;
    if (!m || !m->info || !same_bytes_at(m->salt, U.psk, U.k)) return false;
    switch (U.version) {
        case 2: return same_algo(&m->algo, &h256) && same_bytes_at(m->info, U.receiver->dev_id, U.k);
        case 3: return same_algo(&m->algo, &h256) && is_cat3(m->info, U.sender->root->sig_key->pub_data, U.receiver->id_chain->root->sig_key->pub_data, U.receiver->dev_id);
        case 4: return same_algo(&m->algo, &h512) && is_cat3(m->info, U.sender->root->sig_key->pub_data, U.receiver->id_chain->root->sig_key->pub_data, U.receiver->dev_id);
    }
    return false;
}
static void op(const wickr_ecdh_cipher_ctx_t *x, const void *in, const wickr_ec_key_t *remote, const wickr_kdf_meta_t *m)
{
    U.ops++; U.op_in = in; U.op_remote = remote; U.params_ok = params_ok(m);
    U.ctx_private = x == U.ctx && x->local_key == U.local && same_ec_key(x->local_key, U.want_local, U.k) && apart_ec_key(x->local_key, U.want_local);
}
wickr_cipher_result_t *wickr_ecdh_cipher_ctx_cipher(const wickr_ecdh_cipher_ctx_t *x, const wickr_buffer_t *p, const wickr_ec_key_t *remote, const wickr_kdf_meta_t *m)
{
    if (!x || !p || !remote || !m || nd_bool()) { U.failed = true; return NULL; }
    op(x, p, remote, m);
    return U.enc = mk_cipher_result_for(x->cipher);
}
wickr_buffer_t *wickr_ecdh_cipher_ctx_decipher(const wickr_ecdh_cipher_ctx_t *x, const wickr_cipher_result_t *c, const wickr_ec_key_t *remote, const wickr_kdf_meta_t *m)
{
    if (!x || !c || !remote || !m || nd_bool()) { U.failed = true; return NULL; }
    op(x, c, remote, m);
    U.dec = mk_buffer(); G.watch = U.dec->bytes; G.watch_len = U.dec->length; G.watch_k = U.k;
    return U.dec;
}
/* contracts of the cipher key codec (units/codec.c) */
wickr_buffer_t *wickr_cipher_key_serialize(const wickr_cipher_key_t *key)
{
    U.ser_in = key;
    if (!key || nd_bool()) { U.failed = true; return NULL; }
    U.ser = mk_buffer_len(key->key_data->length + 1); G.watch = U.ser->bytes; G.watch_len = U.ser->length; G.watch_k = U.k;
    return U.ser;
}
wickr_cipher_key_t *wickr_cipher_key_from_buffer(const wickr_buffer_t *b)
{
    U.parse_in = b;
    if (!b || nd_bool()) { U.failed = true; return NULL; }
    return U.parsed_key = mk_cipher_key();
}
#endif
/* ---- contracts of the codecs of signatures and cipher results (units/codec.c) ---- */
#ifdef S_SIG
wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *r)
{
    if (!r || nd_bool()) { U.failed = true; return NULL; }
    U.sig_ser_is = U.pkt && r == U.pkt->signature;
    U.sig_ser = mk_buffer_len(r->curve.signature_size); if (U.k < U.sig_ser->length) U.sig_byte = U.sig_ser->bytes[U.k];
    return U.sig_ser;
}
wickr_ecdsa_result_t *wickr_ecdsa_result_create_from_buffer(const wickr_buffer_t *b)
{
    POST("C09: the signature of a packet is read in bounds", b && R_OK(b->bytes, b->length));
    U.sig_in = b->bytes; U.sig_in_len = b->length;
    if (nd_bool()) { U.failed = true; return NULL; }
    U.sig = mk_ecdsa(); U.sig_digest_id = U.sig->digest_mode.digest_id; return U.sig;
}
#endif
wickr_packet_t *wickr_packet_create_with_components(const wickr_crypto_engine_t *, const wickr_cipher_result_t *, const wickr_cipher_result_t *, const wickr_ec_key_t *, uint8_t);
#ifdef S_CRSER
wickr_buffer_t *wickr_cipher_result_serialize(const wickr_cipher_result_t *r)
{
    if (!r || nd_bool()) { U.failed = true; return NULL; }
    wickr_buffer_t *b = mk_buffer(); U.sers++;
    if (r == U.hdr_cr) { U.hdr_b = b->bytes; U.hdr_n = b->length; } else if (r == U.pay_cr) { U.pay_b = b->bytes; U.pay_n = b->length; }
    return b;
}
#endif
#ifdef S_CRPARSE
wickr_cipher_result_t *wickr_cipher_result_from_buffer(const wickr_buffer_t *b)
{
    POST("C09: a cipher result is parsed in bounds", b && (b->length == 0 || R_OK(b->bytes, b->length)));
    unsigned i = U.crs++;
    POST("C09: a packet holds two cipher results", i < 2);
    if (i < 2) { U.cr_in[i] = b->bytes; U.cr_len[i] = b->length; }
    if (b->length == 0 || nd_bool()) { U.failed = true; return NULL; }
    return i < 2 ? U.cr[i] = mk_cipher_result() : NULL;
}
#endif
/* ---- messages ---- */
static void on_pack_packet(const Wickr__Proto__Packet *m)
{
    POST("C09: a packet holds the serialized header", U.hdr_b && m->enc_header.data == U.hdr_b && m->enc_header.len == U.hdr_n);
    POST("C09: a packet holds the serialized payload", U.pay_b && m->enc_payload.data == U.pay_b && m->enc_payload.len == U.pay_n);
}
static ProtobufCBinaryData raw_bytes(size_t max) { int64_t l = G.live; ProtobufCBinaryData d = pb_bytes(max); G.live = l; return d; }
static Wickr__Proto__Packet *mk_pb_packet(void)
{
    int64_t l = G.live; Wickr__Proto__Packet i = WICKR__PROTO__PACKET__INIT, *m = mk_mem(sizeof *m);
    *m = i; m->enc_header = raw_bytes((size_t)INT32_MAX + 1); m->enc_payload = raw_bytes((size_t)INT32_MAX + 1);
    U.pm = m; G.live = l + 1; return m;
}
static void free_pb_packet(Wickr__Proto__Packet *m)
{
    POST("C25: the packet message is released once", PB.frees == 1);
    v_free(m->enc_header.data); if (m->enc_header.data) G.live++;
    v_free(m->enc_payload.data); if (m->enc_payload.data) G.live++;
    v_free(m);
}
PB_MSG(Wickr__Proto__Packet, packet, WICKR__PROTO__PACKET__INIT)
/* ---- engine ---- */
static wickr_ecdsa_result_t *e_sign(const wickr_ec_key_t *key, const wickr_buffer_t *data, const wickr_digest_t d)
{
    U.signs++; U.sign_key = key; U.signed_data = data; U.sign_digest = d;
    POST("C09: a packet is signed after it is packed", PB.packs == 1 && data->bytes == PB.out && data->length == PB.size && (PB.k >= data->length || data->bytes[PB.k] == PB.byte));
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    return U.sig = mk_ecdsa();
}
static bool e_verify(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *key, const wickr_buffer_t *data)
{
    U.verifies++; U.verify_sig = s; U.verify_key = key; U.verify_data = data;
    return U.verify_ok = nd_bool();
}
static wickr_crypto_engine_t mk_engine(void)
{
    wickr_crypto_engine_t e; memset(&e, 0, sizeof e);
    e.default_curve = EC_CURVE_NIST_P521; e.wickr_crypto_engine_ec_sign = e_sign; e.wickr_crypto_engine_ec_verify = e_verify;
    return e;
}
/* ---- contracts of node and array functions (units/node.c, units/array.c) ---- */
static wickr_node_t *slot(uint32_t i)
{
#ifdef V_LOOPS
    return i == U.kk ? U.K : U.O;
#else
    return U.item[i];
#endif
}
#ifdef S_RCPT
static void mk_nodes(void)
{
    U.nodes = mk_mem(8);
#ifdef V_LOOPS
    U.n = (uint32_t)nd_range(0, INT_MAX); U.kk = nd_u32(); U.K = mk_mem(sizeof(wickr_node_t)); U.O = mk_mem(sizeof(wickr_node_t));
#else
    U.n = (uint32_t)nd_range(0, NPLAIN); U.kk = (uint32_t)nd_range(0, NPLAIN);
    for (uint32_t i = 0; i < NPLAIN; i++) U.item[i] = mk_mem(sizeof(wickr_node_t));
    if (U.kk < U.n) U.K = U.item[U.kk];
#endif
    U.K_ok = nd_bool();
}
uint32_t wickr_array_get_item_count(const wickr_array_t *a) { return a && (a == U.arr || a == U.nodes) ? U.n : 0; }
void *wickr_array_fetch_item(const wickr_array_t *a, uint32_t i, bool copy)
{
    POST("C11: recipients are not copied", !copy);
    if (!a || a != U.nodes || i >= U.n) return NULL;
    return slot(i);
}
bool wickr_node_verify_signature_chain(wickr_node_t *node, const wickr_crypto_engine_t *e)
{
    if (!node || !e) return false;
    bool r = nd_bool();
    if (node == U.K) r = U.K_ok, U.K_checked = true;
    U.x_node = node; U.checked++;
    return r;
}
wickr_array_t *wickr_array_new(uint32_t n, uint8_t type, wickr_array_copy_func c, wickr_array_destroy_func d)
{
    POST("C11: there is an exchange for each recipient", n == U.n);
    if (n == 0 || nd_bool()) { U.failed = true; return NULL; }
    return U.arr = mk_mem(8);
}
/* an exchange is one allocation here */
wickr_key_exchange_t *wickr_key_exchange_create_with_packet_key(const wickr_crypto_engine_t *e, const wickr_identity_chain_t *sender, const wickr_node_t *receiver, wickr_ec_key_t *xk,
                                                                const wickr_cipher_key_t *key, const wickr_buffer_t *psk, uint8_t version)
{
    U.wraps++; U.x_node = receiver;
    POST("C11: the packet key is wrapped for a recipient whose key was verified", receiver && (receiver != U.K || U.K_ok));
    POST("C10: the packet key is wrapped for the sender, recipient and version of the packet", e == U.eng && sender == U.sender && xk == U.exchange_key && key == U.payload_key && !psk && version == U.version);
    if (receiver == U.K) U.K_wrapped = true;
    if (nd_bool()) { U.failed = true; return NULL; }
    wickr_key_exchange_t *x = mk_exchange();
    U.x_last = x;
    return x;
}
bool wickr_array_set_item(wickr_array_t *a, uint32_t i, void *item, bool copy)
{
    if (!a || a != U.arr || i >= U.n || !item) return false;
    if (nd_bool()) { U.failed = true; return false; }
    POST("C11: the exchange of a recipient is stored once in its slot", i == U.next && !copy && item == U.x_last && U.x_node == slot(i));
    U.next++; U.sets++;
    G.live -= n_exchange(item);
    return true;
}
wickr_cipher_result_t *wickr_key_exchange_set_encrypt(const wickr_key_exchange_set_t *s, const wickr_crypto_engine_t *e, const wickr_cipher_key_t *key)
{
    U.set_ok = s && s->exchanges == U.arr && s->sender_pub == U.exchange_key && key == U.header_key && e == U.eng && U.sets == U.n;
    if (!s || nd_bool()) { U.failed = true; return NULL; }
    return U.set_enc = mk_cipher_result();
}
wickr_cipher_result_t *wickr_payload_encrypt(const wickr_payload_t *p, const wickr_crypto_engine_t *e, const wickr_cipher_key_t *key)
{
    U.pay_ok = p == U.payload && key == U.payload_key && e == U.eng;
    if (nd_bool()) { U.failed = true; return NULL; }
    return U.pay_enc = mk_cipher_result();
}
wickr_packet_t *wickr_packet_create_with_components(const wickr_crypto_engine_t *e, const wickr_cipher_result_t *h, const wickr_cipher_result_t *p, const wickr_ec_key_t *key, uint8_t version)
{
    U.comp_ok = e == U.eng && h == U.set_enc && p == U.pay_enc && key == U.sender->node->sig_key && version == U.version;
    if (nd_bool()) { U.failed = true; return NULL; }
    return U.packet = mk_mem(sizeof(wickr_packet_t));
}
#ifdef V_LOOPS
/* every recipient before i was verified */
void v_loop_validate(int *i, const wickr_array_t *a, uint32_t n)
{
    bool inv = *i >= 0 && (uint32_t)*i <= n && n == U.n && a == U.nodes && (U.kk >= (uint32_t)*i || (U.K_ok && U.K_checked));
    if (LOOP_STEP(U.visits)) {
        POST("C11: validation loop invariant on entry", inv && *i == 0);
        *i = (int)nd_range(0, n); U.i0 = (uint32_t)*i; U.K_checked = U.kk < U.i0; ASSUME(U.kk >= U.i0 || U.K_ok);
    } else { POST("C11: validation loop invariant preserved", inv && (uint32_t)*i == U.i0 + 1 && U.x_node == slot(U.i0)); LOOP_END(); }
}
/* the exchanges of the recipients before i are in their slots */
static bool wrap_inv(uint32_t i, const wickr_array_t *a, uint32_t n)
{
    return i <= n && n == U.n && a == U.arr && (U.next == i && U.sets == i) && G.live == U.live0 && (U.kk >= i || U.K_wrapped) && U.array_destroys == 0;
}
void v_loop_wrap(int *i, wickr_array_t **a, uint32_t n)
{
    if (LOOP_STEP(U.visits2)) {
        U.live0 = G.live;
        POST("C11: key exchange loop invariant on entry", *i == 0 && wrap_inv(0, *a, n));
        *i = (int)nd_range(0, n); U.i0 = U.next = U.sets = (uint32_t)*i; U.K_wrapped = U.kk < U.i0;
        ASSUME(*a == U.arr && (U.arr || U.i0 == 0));
    } else { POST("C11: key exchange loop invariant preserved", *i >= 0 && (uint32_t)*i == U.i0 + 1 && wrap_inv((uint32_t)*i, *a, n)); LOOP_END(); }
}
#endif
#endif
#if defined(S_RCPT) || defined(S_ARRD)
void wickr_array_destroy(wickr_array_t **a, bool deep)
{
    if (!a || !*a) return;
    POST("C25: the exchange array is released once, with its exchanges", *a != U.nodes && deep);
    U.array_destroys++; U.destroyed_deep = deep; v_free(*a); *a = NULL;
}
#endif
/* ---- contracts used in parsing and decoding ---- */
static wickr_key_exchange_set_t *mk_set(void)
{
    wickr_key_exchange_set_t *s = mk_mem(sizeof *s);
    s->sender_pub = mk_ec_key_pub(); s->exchanges = mk_mem(8);
    return s;
}
static int64_t n_set(const wickr_key_exchange_set_t *s) { return s ? 2 + n_ec_key(s->sender_pub) : 0; }
#ifdef S_PARSE
static wickr_cipher_key_t *keygen(const wickr_crypto_engine_t e, wickr_cipher_t c, const wickr_identity_chain_t *id)
{
    U.keygens++; U.hkey_ok = U.cr[0] && same_cipher(&c, &U.cr[0]->cipher) && id == U.sender && e.wickr_crypto_engine_ec_verify == e_verify;
    if (nd_bool()) { U.failed = true; return NULL; }
    return U.hkey = mk_cipher_key();
}
wickr_key_exchange_set_t *wickr_key_exchange_set_create_from_cipher(const wickr_crypto_engine_t *e, const wickr_cipher_result_t *c, const wickr_cipher_key_t *key)
{
    U.hdrs++;
    if (!e || !c || !key || nd_bool()) { U.failed = true; return NULL; }
    U.hdr_ok = e == U.eng && c == U.cr[0] && key == U.hkey;
    return U.set = mk_set();
}
wickr_key_exchange_t *wickr_key_exchange_set_find(const wickr_key_exchange_set_t *s, const wickr_buffer_t *id)
{
    U.finds++; U.find_ok = s == U.set && id == U.want_id;
    if (!s || !id || nd_bool()) return NULL;
    return U.found = mk_exchange();
}
#endif
#ifdef S_DEC
wickr_cipher_key_t *wickr_key_exchange_derive_packet_key(const wickr_crypto_engine_t *e, const wickr_identity_chain_t *sender, const wickr_node_t *receiver, wickr_ec_key_t *xk,
                                                         const wickr_key_exchange_t *x, const wickr_buffer_t *psk, uint8_t version)
{
    U.derives++;
    U.derive_ok = e == U.eng && sender == U.sender && receiver && receiver->dev_id == U.dev && receiver->ephemeral_keypair && receiver->ephemeral_keypair->ec_key == U.rkey && receiver->id_chain == U.rid
        && xk == U.pr->key_exchange_set->sender_pub && x == U.pr->key_exchange && !psk && version == U.pkt->version;
    if (!x || nd_bool()) { U.failed = true; return NULL; }
    U.dkey = mk_cipher_key(); G.watch = U.dkey->key_data->bytes; G.watch_len = U.dkey->key_data->length; G.watch_k = U.k;
    return U.dkey;
}
wickr_payload_t *wickr_payload_create_from_cipher(const wickr_crypto_engine_t *e, const wickr_cipher_result_t *c, const wickr_cipher_key_t *key)
{
    U.pls++; U.pl_ok = e == U.eng && c == U.pr->enc_payload && key == U.dkey;
    if (nd_bool()) { U.failed = true; return NULL; }
    return U.pl = mk_payload();
}
#endif
static wickr_packet_t *mk_packet(void)
{
    wickr_packet_t *p = mk_mem(sizeof *p);
    p->version = nd_u8(); p->content = mk_buffer(); p->signature = mk_ecdsa();
    return p;
}
static int64_t n_packet(const wickr_packet_t *p) { return p ? 6 : 0; }
static int64_t n_key(const wickr_cipher_key_t *k) { return k ? 3 : 0; }
static int64_t n_pr(const wickr_parse_result_t *r) { return r ? 1 + n_set(r->key_exchange_set) + n_exchange(r->key_exchange) + n_cipher_result(r->enc_payload) : 0; }

void harness(void)
{
    memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB);
    U.k = nd_u64(); PB.k = nd_u64(); G.cat_k = U.k;
    wickr_crypto_engine_t eng = mk_engine(); int64_t l0; U.eng = &eng;
#ifdef H_KEX_CREATE
    wickr_identity_chain_t *sender = nd_bool() ? NULL : mk_chain(); wickr_node_t *receiver = nd_bool() ? NULL : mk_node(); wickr_ec_key_t *xk = nd_bool() ? NULL : mk_ec_key_pair();
    wickr_cipher_t c = mk_cipher(); U.sender = sender; U.receiver = receiver; U.psk = mk_buffer_opt(); U.version = nd_u8(); U.want_local = xk;
 #ifdef H_DATA
    wickr_buffer_t *data = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_key_exchange_t *x = wickr_key_exchange_create_with_data(nd_bool() ? NULL : &eng, sender, receiver, xk, data, c, U.psk, U.version);
    v_inject = false;
    POST("C10: data is wrapped with the cipher asked for", !x || (U.op_in == data && same_cipher(&U.ctx_cipher, &c)));
 #else
    wickr_cipher_key_t *key = nd_bool() ? NULL : mk_cipher_key();
    const wickr_cipher_t ctr = CIPHER_AES256_CTR;
    l0 = G.live; v_inject = true;
    wickr_key_exchange_t *x = wickr_key_exchange_create_with_packet_key(nd_bool() ? NULL : &eng, sender, receiver, xk, key, U.psk, U.version);
    v_inject = false;
    POST("C10: the packet key is wrapped whole, with the exchange cipher", !x || (key && U.ser_in == key && U.op_in == U.ser && same_cipher(&U.ctx_cipher, &ctr)));
    POST("C16: the serialized packet key is wiped", !G.watch || (G.watch_freed && !G.watch_dirty));
 #endif
    POST("C10: the exchange key is agreed between the packet exchange key and the ephemeral key of the receiver", !x || (U.ops == 1 && U.ctx_private && xk && receiver && receiver->ephemeral_keypair && U.op_remote == receiver->ephemeral_keypair->ec_key));
    POST("C10: the exchange key is derived with the parameters of the protocol version", U.ops == 0 || U.params_ok);
    POST("C10: only supported versions are used", U.ops == 0 || (U.version >= 2 && U.version <= 4));
    POST("C10: an exchange names its receiver and the key used", !x || (x->exchange_ciphertext == U.enc && x->key_id == receiver->ephemeral_keypair->identifier && same_bytes_at(x->exchange_id, receiver->id_chain->node->identifier, U.k)
        && apart_buf(x->exchange_id, receiver->id_chain->node->identifier)));
    POST("C25: key exchange creation leaks nothing", G.live == l0 + n_exchange(x));
    REACH("created v2", x && U.version == 2); REACH("created v3", x && U.version == 3); REACH("created v4", x && U.version == 4 && U.psk); REACH_OPT("failed late", !x && U.enc);
#endif
#ifdef H_DERIVE
    wickr_identity_chain_t *sender = nd_bool() ? NULL : mk_chain(); wickr_node_t *receiver = nd_bool() ? NULL : mk_node(); wickr_ec_key_t *xk = nd_bool() ? NULL : mk_ec_key_pub();
    U.sender = sender; U.receiver = receiver; U.psk = mk_buffer_opt(); U.version = nd_u8(); U.want_local = receiver && receiver->ephemeral_keypair ? receiver->ephemeral_keypair->ec_key : NULL;
    wickr_key_exchange_t *x = nd_bool() ? NULL : mk_exchange();
    l0 = G.live; v_inject = true;
 #ifdef H_DATA
    wickr_buffer_t *d = wickr_key_exchange_derive_data(nd_bool() ? NULL : &eng, sender, receiver, xk, x, U.psk, U.version);
    v_inject = false;
    POST("C10: what an exchange holds is its decryption", !d || d == U.dec);
    POST("C25: key_exchange_derive_data leaks nothing", G.live == l0 + (d ? 2 : 0));
 #else
    wickr_cipher_key_t *d = wickr_key_exchange_derive_packet_key(nd_bool() ? NULL : &eng, sender, receiver, xk, x, U.psk, U.version);
    v_inject = false;
    POST("C10: the packet key is parsed from the decrypted exchange", !d || (d == U.parsed_key && U.parse_in == U.dec));
    POST("C16: the serialized packet key is wiped", !G.watch || (G.watch_freed && !G.watch_dirty));
    POST("C25: key_exchange_derive_packet_key leaks nothing", G.live == l0 + n_key(d));
 #endif
    POST("C10: the receiver derives with its own ephemeral key and the key of the sender", !d || (x && U.ops == 1 && U.ctx_private && xk && U.op_remote == xk && U.op_in == x->exchange_ciphertext && same_cipher(&U.ctx_cipher, &x->exchange_ciphertext->cipher)));
    POST("C10: the receiver derives with the parameters of the protocol version", U.ops == 0 || U.params_ok);
    POST("C10: only supported versions are used", U.ops == 0 || (U.version >= 2 && U.version <= 4));
    REACH("derived v2", d && U.version == 2); REACH("derived v3", d && U.version == 3); REACH("derived v4", d && U.version == 4);
#endif
#ifdef H_PKT_SER
    wickr_packet_t *p = nd_bool() ? NULL : mk_packet(); U.pkt = p; if (p) { G.cat_k = nd_bool() ? (U.k < UINT64_MAX - 2 ? U.k + 2 : 0) : U.k < UINT64_MAX / 2 && p->content->length < UINT64_MAX / 2 ? 2 + p->content->length + U.k : 0; }
    l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_packet_serialize(p);
    v_inject = false;
    size_t n = p ? p->content->length : 0;
    POST("C09: a serialized packet starts with version and curve", !b || (p && b->bytes[0] == p->version && b->bytes[1] == p->signature->curve.identifier));
    POST("C09: a serialized packet has all parts", !b || (ok_buffer(b) && b->length == 2 + n + P521_SIGNATURE_MAX_SIZE && U.sig_ser_is));
    POST("C09: the content of a packet follows", !b || U.k >= n || G.cat_k != 2 + U.k || b->bytes[2 + U.k] == p->content->bytes[U.k]);
    POST("C09: the signature of a packet follows", !b || U.k >= P521_SIGNATURE_MAX_SIZE || G.cat_k != 2 + n + U.k || b->bytes[2 + n + U.k] == U.sig_byte);
    POST("C25: packet_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    REACH("serialized", b);
#endif
#ifdef H_PKT_PARSE
    wickr_buffer_t *b = mk_buffer_opt(); const wickr_digest_t h512 = DIGEST_SHA_512; const size_t sn = P521_SIGNATURE_MAX_SIZE;
    l0 = G.live; v_inject = true;
    wickr_packet_t *p = wickr_packet_create_from_buffer(b);
    v_inject = false;
    POST("C09: only supported versions are parsed", !p || (b && p->version == b->bytes[0] && p->version >= 2 && p->version <= 4));
    POST("C09: only supported curves are parsed", !p || (p->version == 2 ? (b->bytes[1] & 15) : b->bytes[1]) == EC_CURVE_ID_NIST_P521);
    POST("C09: a packet is not empty", !p || (b->length > 2 + sn && p->content->length == b->length - 2 - sn));
    POST("C09: the content of a packet is what precedes its signature", !p || (ok_buffer(p->content) && (U.k >= p->content->length || p->content->bytes[U.k] == b->bytes[2 + U.k])));
    POST("C09: the signature of a packet is its end", !p || (U.sig_in == b->bytes + (b->length - sn) && U.sig_in_len == sn && p->signature == U.sig));
    POST("C09: only signatures with the digest of the curve are accepted", !p || same_digest(&p->signature->digest_mode, &h512));
    POST("C25: packet_create_from_buffer leaks nothing", G.live == l0 + n_packet(p));
    REACH("parsed v2", p && p->version == 2 && b->bytes[1] > 15); REACH("parsed v4", p && p->version == 4); REACH_OPT("bad digest", !p && U.sig && !G.alloc_failed);
#endif
#ifdef H_PKT_RT
    /* what was serialized parses, to the same content and the same signature bytes */
    wickr_packet_t *p = mk_packet(); ASSUME(p->version >= 2 && p->version <= 4); U.pkt = p; G.cat_k = U.k < UINT64_MAX - 2 ? U.k + 2 : 0;
    size_t n = p->content->length;
    bool sg = nd_bool(); if (sg) G.cat_k = U.k < UINT64_MAX / 2 ? 2 + n + U.k : 0;
    wickr_buffer_t *b = wickr_packet_serialize(p);
    wickr_packet_t *q = b ? wickr_packet_create_from_buffer(b) : NULL;
    POST("C09: a parsed packet has the version and content of the packet serialized", !q || (q->version == p->version && q->content->length == n && (sg || U.k >= n || q->content->bytes[U.k] == p->content->bytes[U.k])));
    POST("C09: a parsed packet has the signature of the packet serialized", !q || (U.sig_in_len == P521_SIGNATURE_MAX_SIZE && (!sg || U.k >= U.sig_in_len || U.sig_in[U.k] == U.sig_byte)));
    POST("C09: a serialized packet parses", q || !b || U.failed || U.sig_digest_id != DIGEST_ID_SHA512);
    REACH("round trip", q);
#endif
#ifdef H_PKT_COPY
    wickr_packet_t *s = nd_bool() ? NULL : mk_packet();
    l0 = G.live; v_inject = true;
    wickr_packet_t *c = wickr_packet_copy(s);
    v_inject = false;
    POST("C21: a packet copy is complete", !c || (s && c->version == s->version && same_bytes_at(c->content, s->content, U.k) && same_ecdsa(c->signature, s->signature, U.k)));
    POST("C21: a packet copy is separate", !c || (c != s && apart_buf(c->content, s->content) && apart_ecdsa(c->signature, s->signature)));
    POST("C21: copying succeeds", c || !s || G.alloc_failed);
    POST("C25: packet_copy leaks nothing", G.live == l0 + n_packet(c));
    REACH("copied", c);
    if (c) { wickr_packet_destroy(&c); POST("C25: packet_destroy releases everything", !c && G.live == l0); }
    wickr_buffer_t *ct = mk_buffer_opt(); wickr_ecdsa_result_t *sg = nd_bool() ? NULL : mk_ecdsa(); uint8_t v = nd_u8();
    l0 = G.live; v_inject = true;
    wickr_packet_t *p = wickr_packet_create(v, ct, sg);
    v_inject = false;
    POST("C09: a packet consists of the parts given", !p || (p->version == v && p->content == ct && p->signature == sg && ct && sg));
    POST("C25: packet_create leaks nothing", G.live == l0 + (p ? 1 : 0));
#endif
#ifdef H_PKT_CREATE
    wickr_cipher_result_t *h = nd_bool() ? NULL : mk_cipher_result(), *pl = nd_bool() ? NULL : mk_cipher_result(); wickr_ec_key_t *key = nd_bool() ? NULL : mk_ec_key_pair(); uint8_t v = nd_u8();
    const wickr_digest_t h512 = DIGEST_SHA_512; U.hdr_cr = h; U.pay_cr = pl;
    l0 = G.live; v_inject = true;
    wickr_packet_t *p = wickr_packet_create_with_components(nd_bool() ? NULL : &eng, h, pl, key, v);
    v_inject = false;
    POST("C09: a packet consists of its version, the packed parts and the signature over them", !p || (p->version == v && PB_OUT_OK(p->content) && p->signature == U.sig && U.signed_data == p->content && U.signs == 1));
    POST("C09: a packet is signed with the key of the sender", !p || (U.sign_key == key && same_digest(&U.sign_digest, &h512)));
    POST("C25: packet_create_with_components leaks nothing", G.live == l0 + n_packet(p));
    REACH("created", p); REACH_OPT("payload fails", !p && h && pl && key && U.hdr_b && !U.pay_b);
#endif
#ifdef H_COMPONENTS
    mk_nodes(); U.sender = nd_bool() ? NULL : mk_chain(); U.header_key = nd_bool() ? NULL : mk_cipher_key(); U.payload_key = nd_bool() ? NULL : mk_cipher_key(); U.exchange_key = nd_bool() ? NULL : mk_ec_key_pair(); U.payload = nd_bool() ? NULL : mk_payload(); U.version = nd_u8();
    l0 = G.live; v_inject = true;
    wickr_packet_t *p = wickr_packet_create_from_components(nd_bool() ? NULL : &eng, U.header_key, U.payload_key, U.exchange_key, U.payload, nd_bool() ? NULL : U.nodes, U.sender, U.version);
    v_inject = false;
    POST("C11: every recipient is verified before anything is encrypted for it", !p || U.kk >= U.n || (U.K_checked && U.K_ok));
    POST("C11: a packet has an exchange for every recipient", !p || (U.n > 0 && U.sets == U.n && (U.kk >= U.n || U.K_wrapped)));
    POST("C09: a packet consists of the encrypted exchanges and payload, signed by the sender", !p || (p == U.packet && U.set_ok && U.pay_ok && U.comp_ok));
    POST("C25: packet_create_from_components leaks nothing", G.live == l0 + (p ? 1 : 0));
    REACH("created", p && U.n > 1); REACH_OPT("failed late", !p && U.pay_enc);
#endif
#ifdef H_PARSE
    wickr_packet_t *p = nd_bool() ? NULL : mk_packet(); wickr_identity_chain_t *sender = nd_bool() ? NULL : mk_chain(); U.sender = sender; wickr_buffer_t *id = mk_buffer_opt(); U.want_id = id; bool kg = nd_bool(), en = nd_bool();
    l0 = G.live; v_inject = true;
    wickr_parse_result_t *r = wickr_parse_result_from_packet(en ? &eng : NULL, p, id, kg ? keygen : NULL, sender);
    v_inject = false;
    bool sig = U.verifies == 1 && U.verify_ok && p && sender && U.verify_sig == p->signature && U.verify_key == sender->node->sig_key && U.verify_data == p->content;
    POST("C11: a packet is not looked into unless its signature verifies over its content under the key of the sender", sig || (PB.unpacks == 0 && U.keygens == 0 && U.crs == 0));
    POST("C11: a failure carries no content", !r || r->err == E_SUCCESS || (!r->key_exchange_set && !r->key_exchange && !r->enc_payload));
    POST("C11: the signature status tells whether the signature verified", !r || (r->signature_status == PACKET_SIGNATURE_VALID ? sig : !sig));
    POST("C11: bad input is told", !r || (en && p && kg && sender) || (r->err == ERROR_INVALID_INPUT && r->signature_status == PACKET_SIGNATURE_UNKNOWN));
    POST("C11: a bad signature is told", !r || U.verifies == 0 || U.verify_ok || (r->err == ERROR_MAC_INVALID && r->signature_status == PACKET_SIGNATURE_INVALID));
    POST("C11: a missing exchange is told", !r || r->err != ERROR_NODE_NOT_FOUND || (U.finds == 1 && U.find_ok && !U.found));
    POST("C11: success means everything was parsed and authenticated", !r || r->err != E_SUCCESS || (sig && PB.in == p->content->bytes && PB.in_len == p->content->length && U.hkey_ok && U.hdr_ok && r->key_exchange_set == U.set
        && U.cr_len[0] && r->enc_payload == U.cr[1] && r->key_exchange == (id ? U.found : NULL) && (!id || (U.found && U.find_ok))));
    POST("C11: a packet that can be parsed is parsed", !r || r->err == E_SUCCESS || !sig || U.failed || !U.set || !U.cr[1] || (id && !U.found));
    if (r && sig && !U.cr[0]) POST("C11: a corrupt packet is told", r->err == ERROR_CORRUPT_PACKET);
    if (r && sig && U.cr[0] && !U.set) POST("C11: a header that does not authenticate is told", r->err == ERROR_CORRUPT_PACKET);
    if (r && sig && U.set && id && !U.found) POST("C11: a packet without exchange for the receiver is told", r->err == ERROR_NODE_NOT_FOUND);
    if (r && sig && U.set && (!id || U.found) && !U.cr[1]) POST("C11: a corrupt payload is told", r->err == ERROR_CORRUPT_PACKET);
    /* the two parts handed to the parser are the fields of the message: compared while it was alive (cr_in), by address */
    POST("C25: parse_result_from_packet leaks nothing", G.live == l0 + n_pr(r));
    REACH("parsed", r && r->err == E_SUCCESS && id); REACH("parsed without receiver", r && r->err == E_SUCCESS && !id); REACH("corrupt", r && r->err == ERROR_CORRUPT_PACKET && U.cr[0]); REACH("no node", r && r->err == ERROR_NODE_NOT_FOUND);
#endif
#ifdef H_DECODE
    wickr_packet_t *p = mk_packet(); wickr_identity_chain_t *sender = mk_chain(), *rid = mk_chain(); wickr_ec_key_t *rk = nd_bool() ? NULL : mk_ec_key_pair(); wickr_buffer_t *dev = mk_buffer();
    wickr_parse_result_t *pr = nd_bool() ? NULL : mk_mem(sizeof *pr);
    if (pr) { pr->err = (wickr_decode_error)nd_range(0, 5); pr->signature_status = (wickr_packet_signature_status)nd_range(0, 2); bool ok = pr->err == E_SUCCESS; pr->key_exchange_set = ok ? mk_set() : NULL; pr->key_exchange = ok && nd_bool() ? mk_exchange() : NULL; pr->enc_payload = ok ? mk_cipher_result() : NULL; }
    U.pkt = p; U.sender = sender; U.rid = rid; U.rkey = rk; U.dev = dev; U.pr = pr;
    l0 = G.live; v_inject = true;
    wickr_decode_result_t *r = wickr_decode_result_from_parse_result(p, &eng, pr, dev, rk, rid, sender);
    v_inject = false;
    POST("C11: only successfully parsed packets with a valid signature are decoded", (pr && pr->err == E_SUCCESS && pr->signature_status == PACKET_SIGNATURE_VALID && rk) || (!r && U.derives == 0 && U.pls == 0));
    POST("C11: a failure carries no plaintext and no key", !r || r->err == E_SUCCESS || (!r->decrypted_payload && !r->payload_key && r->err == ERROR_KEY_EXCHANGE_FAILED));
    POST("C11: the packet key is recovered from the exchange of the receiver", U.derives == 0 || U.derive_ok);
    POST("C11: success means the key was recovered and the payload authenticated under it", !r || r->err != E_SUCCESS || (r->decrypted_payload == U.pl && U.pl && r->payload_key == U.dkey && U.dkey && U.pl_ok));
    POST("C11: a payload that can be decoded is decoded", !r || r->err == E_SUCCESS || !U.pl);
    POST("C16: a packet key that is not handed out is wiped", !G.watch || (r && r->err == E_SUCCESS) || (G.watch_freed && !G.watch_dirty));
    POST("C25: decode_result_from_parse_result leaks nothing", G.live == l0 + (r ? 1 + n_payload(r->decrypted_payload) + n_key(r->payload_key) : 0));
    REACH("decoded", r && r->err == E_SUCCESS); REACH_OPT("failed", r && r->err == ERROR_KEY_EXCHANGE_FAILED && U.dkey);
#endif
#ifdef H_RESULT
 #ifndef H_DECRES
    wickr_parse_result_t *s = nd_bool() ? NULL : mk_mem(sizeof *s);
    if (s) { s->err = (wickr_decode_error)nd_range(0, 5); s->signature_status = (wickr_packet_signature_status)nd_range(0, 2); bool ok = nd_bool(); s->key_exchange_set = ok ? mk_set() : NULL; s->key_exchange = ok && nd_bool() ? mk_exchange() : NULL; s->enc_payload = ok ? mk_cipher_result() : NULL; }
    l0 = G.live; v_inject = true;
    wickr_parse_result_t *c = wickr_parse_result_copy(s);
    v_inject = false;
    POST("C21: a parse result copy is complete", !c || (s && c->err == s->err && c->signature_status == s->signature_status && !c->key_exchange_set == !s->key_exchange_set && !c->key_exchange == !s->key_exchange && !c->enc_payload == !s->enc_payload
        && (!c->enc_payload || same_cipher_result(c->enc_payload, s->enc_payload, U.k)) && (!c->key_exchange || same_exchange(c->key_exchange, s->key_exchange, U.k))));
    POST("C21: a parse result copy is separate", !c || (c != s && (!c->enc_payload || apart_cipher_result(c->enc_payload, s->enc_payload)) && (!c->key_exchange || apart_exchange(c->key_exchange, s->key_exchange)) && (!c->key_exchange_set || c->key_exchange_set == U.set)));
    POST("C21: copying succeeds", c || !s || G.alloc_failed || U.failed);
    POST("C25: parse_result_copy leaks nothing", G.live == l0 + n_pr(c));
    REACH("copied", c && c->key_exchange);
    if (c) { wickr_parse_result_destroy(&c); POST("C25: parse_result_destroy releases everything", !c && G.live == l0); }
 #else
    wickr_decode_result_t *s = nd_bool() ? NULL : mk_mem(sizeof *s);
    if (s) { s->err = (wickr_decode_error)nd_range(0, 5); bool ok = nd_bool(); s->decrypted_payload = ok ? mk_payload() : NULL; s->payload_key = ok ? mk_cipher_key() : NULL; }
    l0 = G.live; v_inject = true;
    wickr_decode_result_t *c = wickr_decode_result_copy(s);
    v_inject = false;
    POST("C21: a decode result copy is complete", !c || (s && c->err == s->err && !c->decrypted_payload == !s->decrypted_payload && !c->payload_key == !s->payload_key && (!c->decrypted_payload || same_payload(c->decrypted_payload, s->decrypted_payload, U.k))
        && (!c->payload_key || (same_cipher(&c->payload_key->cipher, &s->payload_key->cipher) && same_bytes_at(c->payload_key->key_data, s->payload_key->key_data, U.k)))));
    POST("C21: a decode result copy is separate", !c || (c != s && (!c->decrypted_payload || apart_payload(c->decrypted_payload, s->decrypted_payload)) && (!c->payload_key || (c->payload_key != s->payload_key && apart_buf(c->payload_key->key_data, s->payload_key->key_data)))));
    POST("C21: copying succeeds", c || !s || G.alloc_failed);
    POST("C25: decode_result_copy leaks nothing", G.live == l0 + (c ? 1 + n_payload(c->decrypted_payload) + n_key(c->payload_key) : 0));
    REACH("copied", c && c->payload_key);
    if (c) {
        bool w = c->payload_key; if (w) { G.watch = c->payload_key->key_data->bytes; G.watch_len = c->payload_key->key_data->length; G.watch_k = U.k; }
        wickr_decode_result_destroy(&c);
        POST("C25: decode_result_destroy releases everything", !c && G.live == l0);
        POST("C16: the payload key of a decode result is wiped", !w || (G.watch_freed && !G.watch_dirty));
    }
 #endif
#endif
}
#ifdef S_SETCOPY
wickr_key_exchange_set_t *wickr_key_exchange_set_copy(const wickr_key_exchange_set_t *s)
{
    if (!s || nd_bool()) { U.failed = true; return NULL; }
    return U.set = mk_set();
}
#endif
