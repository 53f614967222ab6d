/* Contracts of wickr_ctx.c: generation, export and import of device contexts, storage ciphers, and the use of the message protocol.
   Everything it calls is used through its contract; key chains, storage keys and device information are opaque here. */
#include "gen_node.h"
#include "gen_msg.h"
#include "pb.h"
#include "memory.h"
#include "wickr_ctx.h"
#include "private/storage_priv.h"
#include "private/identity_priv.h"

#define NC 4
static struct {
    size_t k; bool failed; wickr_crypto_engine_t *eng; uint64_t eng_tag;
    /* copies made, by original */
    struct { const void *of, *copy; } c[NC]; unsigned n;
    /* header key */
    const wickr_buffer_t *d_in, *d_salt; wickr_digest_t d_mode; wickr_buffer_t *d_out; unsigned digs;
    /* generation */
    wickr_identity_t *root, *node; bool root_ok, node_ok; wickr_identity_chain_t *chain; bool chain_ok, valid; const void *validated; unsigned validates;
    wickr_storage_keys_t *storage; bool local_args; const wickr_root_keys_t *rk; const wickr_dev_info_t *dev; const wickr_buffer_t *ident; wickr_ec_key_t *src_sig;
    wickr_cipher_key_t *rnd; wickr_cipher_t rnd_cipher; wickr_ec_key_t *rnd_ec; wickr_root_keys_t *gen_rk; wickr_ec_key_t *gen_sig;
    unsigned gens; bool gen_args; const wickr_ec_key_t *gen_sig_seen; const void *gen_sig_copy; wickr_ctx_gen_result_t *gen;
    /* sealing under a passphrase, or a key */
    const wickr_buffer_t *pass, *sealed_in, *want_plain; bool seal_args, seal_plain; wickr_buffer_t *sealed, *opened; unsigned seals, opens; bool sealing; bool open_args; const wickr_buffer_t *open_in;
    wickr_buffer_t *ser; bool ser_of, parse_in; wickr_cipher_key_t *parsed_key; wickr_root_keys_t *parsed_rk; wickr_storage_keys_t *parsed_sk; const void *parse_from; wickr_cipher_result_t *cr; const void *cr_from; bool dec_args; const wickr_cipher_key_t *rec_key;
    wickr_cipher_result_t *exported; bool export_args; const wickr_cipher_key_t *exp_key; const wickr_cipher_result_t *ser_cr;
    /* message */
    Wickr__Proto__IdentityChain *pchain; Wickr__Proto__StorageKeys *pstorage; bool pchain_of, pstorage_of, packed_ok; const wickr_ctx_t *ctx;
    const void *in_chain, *in_storage; wickr_identity_chain_t *got_chain; wickr_storage_keys_t *got_storage; bool got_engine; bool m_chain, m_storage;
    /* storage ciphers, packets */
    const void *ck, *cin, *ciphered; bool c_args; void *cout; unsigned cs;
    wickr_packet_t *packet; bool packet_args; const wickr_payload_t *payload; const wickr_node_array_t *nodes; wickr_parse_result_t *pr; bool pr_args; const wickr_buffer_t *pbuf, *want_id; const wickr_identity_chain_t *sender; wickr_decode_result_t *dr; bool dr_args; const wickr_ctx_packet_t *cp; wickr_ec_key_t *dkey; wickr_ephemeral_keypair_t *ek; bool ek_args; uint64_t key_id;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB); }
static void watch(const wickr_buffer_t *b) { G.watch = b->bytes; G.watch_len = b->length; G.watch_k = U.k; G.watch_freed = G.watch_dirty = false; }
#define WIPED (G.watch_freed && !G.watch_dirty)
static void copied(const void *of, const void *copy) { POST("C21: parts are copied once", U.n < NC); U.c[U.n & (NC - 1)].of = of; U.c[U.n & (NC - 1)].copy = copy; U.n++; }
static bool is_copy(const void *copy, const void *of)
{
    if (!copy || !of || copy == of) return false;
    for (unsigned i = 0; i < NC; i++) if (i < U.n && U.c[i].of == of && U.c[i].copy == copy) return true;
    return false;
}
static bool is_engine(const wickr_crypto_engine_t *e) { return e && e->default_cipher.cipher_id == U.eng->default_cipher.cipher_id && e->wickr_crypto_engine_digest == U.eng->wickr_crypto_engine_digest && e->wickr_crypto_engine_cipher_encrypt == U.eng->wickr_crypto_engine_cipher_encrypt; }
#define ND_OK() do { if (nd_fail()) { U.failed = true; return NULL; } } while (0)
#define TOKEN(T, t, extra) \
T *t##_copy(const T *s) { if (!s) return NULL; ND_OK(); T *c = mk_mem(sizeof *c); *c = *s; copied(s, c); extra; return c; } \
void t##_destroy(T **s) { if (!s || !*s) return; v_free(*s); *s = NULL; }
TOKEN(wickr_dev_info_t, wickr_dev_info, )
TOKEN(wickr_storage_keys_t, wickr_storage_keys, )
TOKEN(wickr_identity_chain_t, wickr_identity_chain, )
static wickr_root_keys_t *mk_rk(void) { wickr_root_keys_t *r = mk_mem(sizeof *r); r->node_signature_root = mk_ec_key_pair(); r->node_storage_root = r->remote_storage_root = NULL; return r; }
#define N_RK 6
wickr_root_keys_t *wickr_root_keys_copy(const wickr_root_keys_t *s) { if (!s) return NULL; ND_OK(); wickr_root_keys_t *c = mk_rk(); copied(s, c); return c; }
void wickr_root_keys_destroy(wickr_root_keys_t **r) { if (!r || !*r) return; wickr_ec_key_destroy(&(*r)->node_signature_root); v_free(*r); *r = NULL; }
void wickr_ec_key_destroy(wickr_ec_key_t **k) { if (!k || !*k) return; wickr_buffer_destroy(&(*k)->pub_data); wickr_buffer_destroy_zero(&(*k)->pri_data); v_free(*k); *k = NULL; }
wickr_ec_key_t *wickr_ec_key_copy(const wickr_ec_key_t *s) { if (!s) return NULL; ND_OK(); wickr_ec_key_t *c = s->pri_data ? mk_ec_key_pair() : mk_ec_key_pub(); copied(s, c); return c; }
/* identities of this unit own their identifier and key */
void wickr_identity_destroy(wickr_identity_t **i) { if (!i || !*i) return; wickr_buffer_destroy(&(*i)->identifier); wickr_ec_key_destroy(&(*i)->sig_key); v_free(*i); *i = NULL; }

static wickr_identity_t *mk_ident(void) { wickr_identity_t *i = mk_mem(sizeof *i); i->identifier = mk_buffer(); i->sig_key = NULL; i->signature = NULL; i->type = IDENTITY_TYPE_ROOT; return i; }
static wickr_identity_chain_t *mk_ch(void) { wickr_identity_chain_t *c = mk_mem(sizeof *c); c->root = mk_ident(); c->node = mk_ident(); c->_status_cache = NULL; return c; }
static wickr_storage_keys_t *mk_sk(void) { wickr_storage_keys_t *s = mk_mem(sizeof *s); s->local = mk_cipher_key(); s->remote = mk_cipher_key(); return s; }
static wickr_dev_info_t *mk_dev(void) { wickr_dev_info_t *d = mk_mem(sizeof *d); d->dev_salt = d->system_salt = NULL; d->msg_proto_id = mk_buffer(); d->srv_comm_id = NULL; return d; }
static wickr_ctx_t *mk_ctx(void)
{
    wickr_ctx_t *c = mk_mem(sizeof *c);
    c->engine = *U.eng; c->dev_info = mk_dev(); c->id_chain = mk_ch(); c->storage_keys = mk_sk(); c->packet_header_key = mk_cipher_key(); c->pkt_enc_version = nd_u8();
    return c;
}
/* what the contracts of the parts count: one each, and a cipher key is three */
#define N_CTX 7
static wickr_ctx_gen_result_t *mk_gen(void) { wickr_ctx_gen_result_t *g = mk_mem(sizeof *g); g->ctx = mk_ctx(); g->recovery_key = mk_cipher_key(); g->root_keys = mk_rk(); return g; }
#define N_GEN (1 + N_CTX + 3 + N_RK)

/* ---- engine ---- */
static wickr_buffer_t *e_digest(const wickr_buffer_t *in, const wickr_buffer_t *salt, wickr_digest_t mode)
{
    U.digs++; U.d_in = in; U.d_salt = salt; U.d_mode = mode;
    ND_OK();
    return U.d_out = mk_buffer_len(mode.size);
}
static wickr_cipher_key_t *e_rand_key(wickr_cipher_t c) { U.rnd_cipher = c; ND_OK(); return U.rnd = mk_cipher_key_for(c); }
static wickr_ec_key_t *e_rand_ec(wickr_ec_curve_t c) { (void)c; ND_OK(); return U.rnd_ec = mk_ec_key_pair(); }
static wickr_cipher_result_t *e_encrypt(const wickr_buffer_t *plain, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, const wickr_buffer_t *iv)
{
    U.cs++; U.ck = key; U.cin = plain; U.c_args = !aad && !iv;
    ND_OK();
    wickr_cipher_result_t *r = mk_cipher_result_for(key->cipher); U.cout = r;
    return r;
}
static wickr_buffer_t *e_decrypt(const wickr_cipher_result_t *in, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, bool only_auth)
{
    U.cs++; U.ck = key; U.cin = in; U.c_args = !aad && only_auth;
    ND_OK();
    wickr_buffer_t *b = mk_buffer(); U.cout = b; U.opened = b; watch(b);
    return b;
}
static void mk_engine(wickr_crypto_engine_t *e)
{
    memset(e, 0, sizeof *e);
    e->default_cipher = mk_cipher(); e->default_curve = EC_CURVE_NIST_P521; e->wickr_crypto_engine_digest = e_digest; e->wickr_crypto_engine_cipher_key_random = e_rand_key; e->wickr_crypto_engine_ec_rand_key = e_rand_ec;
    e->wickr_crypto_engine_cipher_encrypt = e_encrypt; e->wickr_crypto_engine_cipher_decrypt = e_decrypt;
    U.eng = e;
}

/* ---- contracts: identities, root keys, storage keys ---- */
wickr_identity_t *wickr_identity_create(wickr_identity_type type, wickr_buffer_t *identifier, wickr_ec_key_t *key, wickr_ecdsa_result_t *sig)
{
    U.root_ok = type == IDENTITY_TYPE_ROOT && identifier && identifier != U.ident && same_bytes_at(identifier, U.ident, U.k) && is_copy(key, U.src_sig) && !sig;
    ND_OK();
    wickr_identity_t *i = mk_mem(sizeof *i);
    i->type = type; i->identifier = identifier; i->sig_key = key; i->signature = sig;
    return U.root = i;
}
wickr_identity_t *wickr_node_identity_gen(const wickr_crypto_engine_t *e, const wickr_identity_t *root, const wickr_buffer_t *identifier)
{
    U.node_ok = is_engine(e) && root && root == U.root && !identifier;
    ND_OK();
    return U.node = mk_ident();
}
wickr_identity_chain_t *wickr_identity_chain_create(wickr_identity_t *root, wickr_identity_t *node)
{
    U.chain_ok = root && node && root == U.root && node == U.node;
    ND_OK();
    wickr_identity_chain_t *c = mk_mem(sizeof *c);
    c->root = root; c->node = node; c->_status_cache = NULL;
    /* the chain takes its identities over: from here on they are part of it */
    G.live -= 3 + 8;
    return U.chain = c;
}
bool wickr_identity_chain_validate(wickr_identity_chain_t *c, const wickr_crypto_engine_t *e)
{
    U.validates++; U.validated = c; U.valid = is_engine(e) && nd_bool();
    if (!U.valid) U.failed = true;
    return U.valid;
}
wickr_storage_keys_t *wickr_root_keys_localize(const wickr_root_keys_t *r, const wickr_crypto_engine_t *e, const wickr_dev_info_t *d)
{
    U.local_args = r == U.rk && is_engine(e) && d == U.dev;
    ND_OK();
    wickr_storage_keys_t *s = mk_sk(); G.live -= 6;
    return U.storage = s;
}
wickr_root_keys_t *wickr_root_keys_generate(const wickr_crypto_engine_t *e)
{
    POST("C24: root keys are generated with the engine given", is_engine(e));
    ND_OK();
    U.gen_rk = mk_rk(); U.gen_sig = U.gen_rk->node_signature_root;
    return U.gen_rk;
}
wickr_cipher_result_t *wickr_root_keys_export(const wickr_root_keys_t *r, const wickr_crypto_engine_t *e, const wickr_cipher_key_t *key)
{
    U.export_args = r == U.rk && is_engine(e) && key == U.exp_key;
    ND_OK();
    return U.exported = mk_cipher_result();
}
wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_t *e, const wickr_buffer_t *b)
{
    U.parse_in = is_engine(e) && b && b == U.opened;
    ND_OK();
    return U.parsed_rk = mk_rk();
}
wickr_buffer_t *wickr_storage_keys_serialize(const wickr_storage_keys_t *s)
{
    U.ser_of = s && s == U.ctx->storage_keys;
    ND_OK();
    U.ser = mk_buffer(); watch(U.ser);
    return U.ser;
}
wickr_storage_keys_t *wickr_storage_keys_create_from_buffer(const wickr_buffer_t *b)
{
    U.parse_in = b && b == U.opened;
    ND_OK();
    wickr_storage_keys_t *s = mk_sk(); G.live -= 6;
    return U.parsed_sk = s;
}
/* ---- contracts: cipher keys and results as bytes ---- */
wickr_buffer_t *wickr_cipher_key_serialize(const wickr_cipher_key_t *key)
{
    U.ser_of = key && key == U.exp_key;
    ND_OK();
    U.ser = mk_buffer_len(33); watch(U.ser);
    return U.ser;
}
wickr_cipher_key_t *wickr_cipher_key_from_buffer(const wickr_buffer_t *b)
{
    U.parse_in = b && b == U.opened;
    ND_OK();
    return U.parsed_key = mk_cipher_key();
}
wickr_buffer_t *wickr_cipher_result_serialize(const wickr_cipher_result_t *r) { U.ser_cr = r; ND_OK(); return U.ser = mk_buffer(); }
wickr_cipher_result_t *wickr_cipher_result_from_buffer(const wickr_buffer_t *b) { U.cr_from = b; ND_OK(); return U.cr = mk_cipher_result(); }
/* ---- contracts: sealing under a passphrase (units kdf_engine_*) ---- */
wickr_buffer_t *wickr_crypto_engine_kdf_cipher(const wickr_crypto_engine_t *e, wickr_kdf_algo_t algo, wickr_cipher_t cipher, const wickr_buffer_t *value, const wickr_buffer_t *pass)
{
    U.seals++; U.seal_args = is_engine(e) && algo.algo_id == KDF_SCRYPT_2_17.algo_id && algo.kdf_id == KDF_SCRYPT_2_17.kdf_id && algo.cost == KDF_SCRYPT_2_17.cost && algo.salt_size == KDF_SCRYPT_2_17.salt_size && algo.output_size == KDF_SCRYPT_2_17.output_size
        && same_cipher(&cipher, &U.eng->default_cipher) && pass == U.pass;
    U.seal_plain = value && (value == U.ser || (PB.packs == 1 && PB_OUT_OK(value)));
    if (value) { watch(value); U.sealing = true; }
    ND_OK();
    return U.sealed = mk_buffer();
}
wickr_buffer_t *wickr_crypto_engine_kdf_decipher(const wickr_crypto_engine_t *e, const wickr_buffer_t *in, const wickr_buffer_t *pass)
{
    U.opens++; U.open_args = is_engine(e) && in == U.open_in && pass == U.pass;
    ND_OK();
    U.opened = mk_buffer(); watch(U.opened);
    return U.opened;
}

/* ---- the context message: its parts are messages of their own (contracts: units identity_*, account_sk_proto) ---- */
Wickr__Proto__IdentityChain *wickr_identity_chain_to_private_proto(const wickr_identity_chain_t *c)
{
    U.pchain_of = U.ctx && c == U.ctx->id_chain;
    ND_OK();
    return U.pchain = mk_mem(sizeof *U.pchain);
}
void wickr_identity_chain_proto_free(Wickr__Proto__IdentityChain *m) { if (m) v_free(m); }
Wickr__Proto__StorageKeys *wickr_storage_keys_to_proto(const wickr_storage_keys_t *s)
{
    U.pstorage_of = U.ctx && s == U.ctx->storage_keys;
    ND_OK();
    return U.pstorage = mk_mem(sizeof *U.pstorage);
}
void wickr_storage_keys_proto_free(Wickr__Proto__StorageKeys *m) { if (m) v_free(m); }
wickr_identity_chain_t *wickr_identity_chain_create_from_proto(const Wickr__Proto__IdentityChain *m, const wickr_crypto_engine_t *e)
{
    U.in_chain = m; U.got_engine = is_engine(e);
    ND_OK();
    wickr_identity_chain_t *c = mk_ch(); G.live -= 6;
    return U.got_chain = c;
}
wickr_storage_keys_t *wickr_storage_keys_create_from_proto(const Wickr__Proto__StorageKeys *m)
{
    U.in_storage = m;
    ND_OK();
    wickr_storage_keys_t *s = mk_sk(); G.live -= 6;
    return U.got_storage = s;
}
static Wickr__Proto__Ctx *mk_pb_ctx(void)
{
    Wickr__Proto__Ctx *m = malloc(sizeof *m);
    ASSUME(m != NULL);
    memset(m, 0, sizeof *m);
    int64_t l = G.live;
    m->id_chain = nd_bool() ? NULL : mk_mem(sizeof *m->id_chain); m->storage = nd_bool() ? NULL : mk_mem(sizeof *m->storage);
    U.pchain = m->id_chain; U.pstorage = m->storage; U.m_chain = m->id_chain; U.m_storage = m->storage;
    G.live = l + 1;
    return m;
}
static void free_pb_ctx(Wickr__Proto__Ctx *m) { int64_t l = G.live; if (m->id_chain) v_free(m->id_chain); if (m->storage) v_free(m->storage); v_free(m); G.live = l - 1; }
static void on_pack_ctx(const Wickr__Proto__Ctx *m) { U.packed_ok = m->id_chain && m->id_chain == U.pchain && m->storage && m->storage == U.pstorage; }
PB_MSG(Wickr__Proto__Ctx, ctx, WICKR__PROTO__CTX__INIT)

/* ---- contracts: messages (units protocol_*, kex_*) ---- */
wickr_packet_t *wickr_packet_create_from_components(const wickr_crypto_engine_t *e, const wickr_cipher_key_t *header_key, const wickr_cipher_key_t *payload_key, wickr_ec_key_t *exchange_key, const wickr_payload_t *payload,
    const wickr_node_array_t *recipients, const wickr_identity_chain_t *sender, uint8_t version)
{
    U.packet_args = e == &U.ctx->engine && header_key == U.ctx->packet_header_key && payload_key == U.rnd && exchange_key == U.rnd_ec && payload == U.payload && recipients == U.nodes && sender == U.ctx->id_chain && version == U.ctx->pkt_enc_version;
    ND_OK();
    return U.packet = mk_mem(sizeof *U.packet);
}
void wickr_packet_destroy(wickr_packet_t **p) { if (!p || !*p) return; v_free(*p); *p = NULL; }
wickr_packet_t *wickr_packet_create_from_buffer(const wickr_buffer_t *b) { U.pbuf = b; ND_OK(); return U.packet = mk_mem(sizeof *U.packet); }
wickr_parse_result_t *wickr_parse_result_from_packet(const wickr_crypto_engine_t *e, const wickr_packet_t *p, const wickr_buffer_t *node_id, wickr_header_keygen_func keygen, const wickr_identity_chain_t *sender)
{
    U.pr_args = is_engine(e) && p && p == U.packet && node_id == U.want_id && sender == U.sender && keygen != NULL;
    if (sender && keygen) {
        /* the header key of the receiver is the one of the sender */
        wickr_cipher_t c = mk_cipher();
        bool inj = v_inject; v_inject = false;
        wickr_cipher_key_t *hk = keygen(*e, c, sender);
        v_inject = inj;
        wickr_digest_t s = wickr_digest_matching_cipher(c);
        if (hk && !(U.d_in == sender->root->identifier && U.d_salt == sender->node->identifier && same_digest(&U.d_mode, &s) && hk->key_data == U.d_out && same_cipher(&hk->cipher, &c))) U.pr_args = false;
        wickr_cipher_key_destroy(&hk);
    }
    ND_OK();
    return U.pr = mk_mem(sizeof *U.pr);
}
void wickr_parse_result_destroy(wickr_parse_result_t **p) { if (!p || !*p) return; v_free(*p); *p = NULL; }
wickr_decode_result_t *wickr_decode_result_from_parse_result(const wickr_packet_t *p, const wickr_crypto_engine_t *e, const wickr_parse_result_t *r, wickr_buffer_t *dev, wickr_ec_key_t *key, wickr_identity_chain_t *receiver, const wickr_identity_chain_t *sender)
{
    U.dr_args = p == U.cp->packet && e == &U.ctx->engine && r == U.cp->parse_result && dev == U.ctx->dev_info->msg_proto_id && key == U.dkey && receiver == U.ctx->id_chain && sender == U.cp->sender;
    ND_OK();
    return U.dr = mk_mem(sizeof *U.dr);
}
wickr_ephemeral_keypair_t *wickr_ephemeral_keypair_generate_identity(const wickr_crypto_engine_t *e, uint64_t id, const wickr_identity_t *identity)
{
    U.ek_args = is_engine(e) && id == U.key_id && identity == U.ctx->id_chain->node;
    ND_OK();
    return U.ek = mk_mem(sizeof *U.ek);
}
#ifdef S_GEN
/* contract of wickr_ctx_gen_with_root_keys (unit ctx_gen_root) */
wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t engine, wickr_dev_info_t *d, wickr_root_keys_t *r, wickr_buffer_t *identifier)
{
    U.gens++; U.gen_args = is_engine(&engine) && d == U.dev && r && (r == U.gen_rk || r == U.parsed_rk) && identifier == U.ident;
    U.gen_sig_seen = r ? r->node_signature_root : NULL;
    ND_OK();
    wickr_ctx_gen_result_t *g = mk_gen();
    G.live -= 14;    /* the parts of the parts, which the contracts of this unit do not count */
    return U.gen = g;
}
#endif
/* inputs that belong to the caller, of which the contracts of this unit count one each */
#define OPT(x) (nd_bool() && nd_bool() ? NULL : (x))

void harness(void)
{
    v_unit_reset(); U.k = PB.k = G.cat_k = nd_u64(); int64_t l0; (void)l0;
    wickr_crypto_engine_t eng; mk_engine(&eng);
#ifdef H_CREATE
    wickr_dev_info_t *d = OPT(mk_dev()); wickr_identity_chain_t *c = OPT(mk_ch()); wickr_storage_keys_t *s = OPT(mk_sk());
    l0 = G.live; v_inject = true;
    wickr_ctx_t *x = wickr_ctx_create(eng, d, c, s);
    v_inject = false;
    wickr_digest_t m = wickr_digest_matching_cipher(eng.default_cipher);
    POST("C24: a context holds its parts", !x || (d && c && s && x->dev_info == d && x->id_chain == c && x->storage_keys == s && is_engine(&x->engine) && x->pkt_enc_version == DEFAULT_PKT_ENC_VERSION));
    POST("C10: the header key of a context is the hash of its root identifier and node identifier", !x || (U.digs == 1 && U.d_in == c->root->identifier && U.d_salt == c->node->identifier && same_digest(&U.d_mode, &m)
        && x->packet_header_key->key_data == U.d_out && same_cipher(&x->packet_header_key->cipher, &eng.default_cipher)));
    POST("C24: a context is created", x || !d || !c || !s || U.failed || G.alloc_failed);
    POST("C25: ctx_create takes nothing over when it fails", G.live == l0 + (x ? 4 : 0));
    REACH("created", x);
    if (x) {
        watch(x->packet_header_key->key_data); l0 = G.live;
        wickr_ctx_destroy(&x);
        POST("C16: the header key is wiped", WIPED);
        POST("C25: ctx_destroy releases everything", !x && G.live == l0 - N_CTX);
    }
    wickr_ctx_destroy(&x); wickr_ctx_destroy(NULL);
#endif
#ifdef H_COPY
    wickr_ctx_t *c = OPT(mk_ctx());
    l0 = G.live; v_inject = true;
    wickr_ctx_t *x = wickr_ctx_copy(c);
    v_inject = false;
    POST("C21: a copied context consists of copies of all parts", !x || (c && x != c && is_copy(x->dev_info, c->dev_info) && is_copy(x->id_chain, c->id_chain) && is_copy(x->storage_keys, c->storage_keys) && is_engine(&x->engine) && x->pkt_enc_version == c->pkt_enc_version
        && x->packet_header_key != c->packet_header_key && U.d_in == c->id_chain->root->identifier && U.d_salt == c->id_chain->node->identifier && same_cipher(&x->packet_header_key->cipher, &c->engine.default_cipher)));
    POST("C21: copying a context succeeds", x || !c || U.failed || G.alloc_failed);
    POST("C25: ctx_copy leaks nothing", G.live == l0 + (x ? N_CTX : 0));
    REACH("copied", x);
#endif
#ifdef H_GEN_ROOT
    wickr_dev_info_t *d = OPT(mk_dev()); wickr_root_keys_t *r = OPT(mk_rk()); wickr_buffer_t *id = OPT(mk_buffer());
    U.dev = d; U.rk = r; U.ident = id; U.src_sig = r ? r->node_signature_root : NULL;
    l0 = G.live; v_inject = true;
    wickr_ctx_gen_result_t *g = wickr_ctx_gen_with_root_keys(eng, d, r, id);
    v_inject = false;
    POST("C24: the root identity of a new context has the identifier given and the signature root key", !g || (d && r && id && U.root_ok));
    POST("C07: a new context has a node identity signed by its root, in a chain that validates", !g || (U.node_ok && U.chain_ok && g->ctx->id_chain == U.chain && U.validates == 1 && U.validated == U.chain && U.valid));
    POST("C24: the storage keys of a new context are derived from the root keys for the device", !g || (U.local_args && g->ctx->storage_keys == U.storage));
    POST("C24: a new context has its own copy of the device information", !g || is_copy(g->ctx->dev_info, d));
    POST("C24: the result has copies of the root keys and a random recovery key", !g || (is_copy(g->root_keys, r) && g->recovery_key == U.rnd && same_cipher(&U.rnd_cipher, &eng.default_cipher)));
    POST("C24: a context is generated", g || !d || !r || !id || U.failed || G.alloc_failed);
    REACH("generated", g);
    /* the chain counts as one when it has been created; before, its parts are released one by one */
    POST("C25: ctx_gen_with_root_keys leaks nothing", G.live == l0 + (g ? N_GEN : 0));
#endif
#ifdef H_GEN_NEW
    wickr_dev_info_t *d = OPT(mk_dev()); wickr_ec_key_t *sig = OPT(mk_ec_key()); wickr_buffer_t *id = OPT(mk_buffer());
    U.dev = d; U.ident = id;
    bool with_sig = nd_bool();
    l0 = G.live; v_inject = true;
    wickr_ctx_gen_result_t *g = with_sig ? wickr_ctx_gen_new_with_sig_key(eng, d, sig, id) : wickr_ctx_gen_new(eng, d, id);
    v_inject = false;
    POST("C24: a new context is generated with new root keys", !g || (d && id && U.gens == 1 && U.gen_args && U.gen_rk && g == U.gen));
    POST("C24: the signature root is the one given, or the generated one", !g || (with_sig ? sig && is_copy(U.gen_sig_seen, sig) : U.gen_sig_seen == U.gen_sig));
    POST("C24: a context is generated", g || !d || !id || (with_sig && !sig) || U.failed || G.alloc_failed);
    POST("C25: ctx_gen_new leaks nothing", G.live == l0 + (g ? N_GEN : 0));
    REACH("new", g && !with_sig); REACH("with signature key", g && with_sig);
#endif
#ifdef H_RECOVERY
    wickr_dev_info_t *d = OPT(mk_dev()); wickr_buffer_t *data = OPT(mk_buffer()), *id = OPT(mk_buffer()), *ex = OPT(mk_buffer()), *pass = OPT(mk_buffer()); wickr_cipher_key_t *key = OPT(mk_cipher_key());
    U.dev = d; U.ident = id; U.pass = pass; U.open_in = ex;
    bool by_pass = nd_bool();
    l0 = G.live; v_inject = true;
    wickr_ctx_gen_result_t *g = by_pass ? wickr_ctx_gen_with_passphrase(eng, d, ex, pass, data, id) : wickr_ctx_gen_with_recovery(eng, d, data, key, id);
    v_inject = false;
    POST("C24: a recovery key is recovered with the passphrase from what was exported", !g || !by_pass || (ex && pass && U.opens == 1 && U.open_args && U.parsed_key));
    POST("C24: root keys are recovered by opening the recovery data with the recovery key, authenticated", !g || (d && data && id && U.cr_from == data && U.cs == 1 && U.c_args && U.cin == U.cr && U.ck == (by_pass ? U.parsed_key : key) && U.parse_in && U.parsed_rk));
    POST("C24: the context is generated of the recovered root keys", !g || (U.gens == 1 && U.gen_args && g == U.gen));
    POST("C24: the result keeps the recovery key that was used", !g || (by_pass ? g->recovery_key->key_data != NULL : key && g->recovery_key != key && same_cipher(&g->recovery_key->cipher, &key->cipher) && same_bytes_at(g->recovery_key->key_data, key->key_data, U.k)));
    POST("C16: the opened root keys are wiped", !U.opened || WIPED);
    POST("C24: a context is recovered", g || !d || !data || !id || (by_pass ? !ex || !pass : !key) || U.failed || G.alloc_failed);
    POST("C25: ctx_gen_with_recovery leaks nothing", G.live == l0 + (g ? N_GEN : 0));
    REACH("by passphrase", g && by_pass); REACH("by key", g && !by_pass);
#endif
#ifdef H_IMPORT
    wickr_buffer_t *ex = OPT(mk_buffer()), *pass = OPT(mk_buffer()), *data = OPT(mk_buffer()); wickr_cipher_key_t *key = OPT(mk_cipher_key());
    U.pass = pass; U.open_in = ex;
    l0 = G.live; v_inject = true;
    if (nd_bool()) {
        wickr_cipher_key_t *r = wickr_ctx_gen_import_recovery_key_passphrase(eng, ex, pass);
        POST("C24: an imported recovery key is what the passphrase opens", !r || (ex && pass && U.opens == 1 && U.open_args && U.parse_in && r == U.parsed_key));
        POST("C24: a recovery key is imported", r || !ex || !pass || U.failed || G.alloc_failed);
        POST("C16: the opened recovery key is wiped", !U.opened || WIPED);
        POST("C25: ctx_gen_import_recovery_key_passphrase leaks nothing", G.live == l0 + (r ? 3 : 0));
        REACH("recovery key", r);
    } else if (nd_bool()) {
        wickr_root_keys_t *r = wickr_ctx_gen_import_recovery(eng, data, key);
        POST("C24: recovered root keys are what the recovery key opens, authenticated", !r || (data && key && U.cr_from == data && U.cs == 1 && U.c_args && U.cin == U.cr && U.ck == key && U.parse_in && r == U.parsed_rk));
        POST("C24: root keys are recovered", r || !data || !key || U.failed || G.alloc_failed);
        POST("C16: the opened root keys are wiped", !U.opened || WIPED);
        POST("C25: ctx_gen_import_recovery leaks nothing", G.live == l0 + (r ? N_RK : 0));
        REACH("root keys", r);
    } else {
        wickr_storage_keys_t *r = wickr_ctx_import_storage_keys(eng, ex, pass);
        POST("C24: imported storage keys are what the passphrase opens", !r || (ex && pass && U.opens == 1 && U.open_args && U.parse_in && r == U.parsed_sk));
        POST("C24: storage keys are imported", r || !ex || !pass || U.failed || G.alloc_failed);
        POST("C16: the opened storage keys are wiped", !U.opened || WIPED);
        POST("C25: ctx_import_storage_keys leaks nothing", G.live == l0 + (r ? 1 : 0));
        REACH("storage keys", r);
    }
    v_inject = false;
#endif
#ifdef H_EXPORT
    wickr_ctx_gen_result_t *g = OPT(mk_gen()); wickr_buffer_t *pass = OPT(mk_buffer());
    U.pass = pass; U.ctx = g ? g->ctx : NULL; U.exp_key = g ? g->recovery_key : NULL; U.rk = g ? g->root_keys : NULL;
    l0 = G.live; v_inject = true;
    if (nd_bool()) {
        wickr_buffer_t *b = wickr_ctx_gen_export_recovery_key_passphrase(g, pass);
        POST("C24: the exported recovery key is the recovery key, sealed under the passphrase", !b || (g && pass && U.ser_of && U.seals == 1 && U.seal_args && U.seal_plain && b == U.sealed));
        POST("C16: the serialized recovery key is wiped", !U.ser || WIPED);
        POST("C25: ctx_gen_export_recovery_key_passphrase leaks nothing", G.live == l0 + (b ? 2 : 0));
        REACH("recovery key", b);
    } else if (nd_bool()) {
        wickr_buffer_t *b = wickr_ctx_gen_result_make_recovery(g);
        POST("C24: recovery data is the root keys sealed with the recovery key", !b || (g && U.export_args && U.ser_cr == U.exported && b == U.ser));
        POST("C25: ctx_gen_result_make_recovery leaks nothing", G.live == l0 + (b ? 2 : 0));
        REACH("recovery data", b);
    } else {
        wickr_buffer_t *b = wickr_ctx_export_storage_keys(U.ctx, pass);
        POST("C24: the exported storage keys are the storage keys, sealed under the passphrase", !b || (g && pass && U.ser_of && U.seals == 1 && U.seal_args && U.seal_plain && b == U.sealed));
        POST("C16: the serialized storage keys are wiped", !U.ser || WIPED);
        POST("C25: ctx_export_storage_keys leaks nothing", G.live == l0 + (b ? 2 : 0));
        REACH("storage keys", b);
    }
    v_inject = false;
#endif
#ifdef H_RESULT
    wickr_ctx_gen_result_t *g = OPT(mk_gen());
    l0 = G.live; v_inject = true;
    wickr_ctx_gen_result_t *x = wickr_ctx_gen_result_copy(g);
    v_inject = false;
    POST("C21: a copied generation result consists of copies of all parts", !x || (g && x != g && x->ctx != g->ctx && is_copy(x->ctx->id_chain, g->ctx->id_chain) && is_copy(x->ctx->storage_keys, g->ctx->storage_keys) && is_copy(x->ctx->dev_info, g->ctx->dev_info) && x->ctx->pkt_enc_version == g->ctx->pkt_enc_version
        && is_copy(x->root_keys, g->root_keys) && x->recovery_key != g->recovery_key && same_cipher(&x->recovery_key->cipher, &g->recovery_key->cipher) && same_bytes_at(x->recovery_key->key_data, g->recovery_key->key_data, U.k) && apart_buf(x->recovery_key->key_data, g->recovery_key->key_data)));
    POST("C21: copying a generation result succeeds", x || !g || U.failed || G.alloc_failed);
    POST("C25: ctx_gen_result_copy leaks nothing", G.live == l0 + (x ? N_GEN : 0));
    REACH("copied", x);
    if (x) {
        watch(x->recovery_key->key_data); l0 = G.live;
        wickr_ctx_gen_result_destroy(&x);
        POST("C16: the recovery key is wiped", WIPED);
        POST("C25: ctx_gen_result_destroy releases everything", !x && G.live == l0 - N_GEN);
    }
    wickr_ctx_gen_result_destroy(&x); wickr_ctx_gen_result_destroy(NULL);
#endif
#ifdef H_SER
    wickr_ctx_t *c = OPT(mk_ctx()); wickr_buffer_t *pass = OPT(mk_buffer());
    U.ctx = c; U.pass = pass;
    bool export = nd_bool();
    l0 = G.live; v_inject = true;
    if (!export) {
        wickr_buffer_t *b = wickr_ctx_serialize(c);
        POST("C24: a serialized context holds its private identity chain and its storage keys", !b || (c && U.pchain_of && U.pstorage_of && U.packed_ok && PB_OUT_OK(b)));
        POST("C24: a context is serialized", b || !c || U.failed || G.alloc_failed || PB.size > MAX_BUFFER_SIZE);
        POST("C25: ctx_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
        REACH("serialized", b);
    } else {
        wickr_buffer_t *b = wickr_ctx_export(c, pass);
        POST("C24: an exported context is the serialized context, sealed under the passphrase", !b || (c && pass && U.packed_ok && U.pchain_of && U.pstorage_of && U.seals == 1 && U.seal_args && U.seal_plain && b == U.sealed));
        POST("C16: the serialized context is wiped", !U.sealing || WIPED);
        POST("C25: ctx_export leaks nothing", G.live == l0 + (b ? 2 : 0));
        REACH("exported", b);
    }
    v_inject = false;
#endif
#ifdef H_PARSE
    wickr_dev_info_t *d = OPT(mk_dev()); wickr_buffer_t *b = OPT(mk_buffer()), *pass = OPT(mk_buffer());
    U.pass = pass; U.open_in = b;
    bool import = nd_bool();
    l0 = G.live; v_inject = true;
    wickr_ctx_t *x = import ? wickr_ctx_import(eng, d, b, pass) : wickr_ctx_create_from_buffer(eng, d, b);
    v_inject = false;
    POST("C24: an imported context is what the passphrase opens", !x || !import || (b && pass && U.opens == 1 && U.open_args));
    POST("C24: a parsed context consists of the identity chain and the storage keys of the message, and the device given", !x || (d && b && U.m_chain && U.m_storage && U.in_chain == U.pchain && U.got_engine && U.in_storage == U.pstorage
        && x->id_chain == U.got_chain && x->storage_keys == U.got_storage && x->dev_info == d && is_engine(&x->engine)));
    POST("C24: a context is parsed from the bytes given", !x || (PB.unpacks == 1 && PB.frees == 1 && PB.in_len > 0 && (import || (PB.in == b->bytes && PB.in_len == b->length))));
    POST("C16: the opened context is wiped", !U.opened || WIPED);
    POST("C25: ctx_create_from_buffer, ctx_import leak nothing", G.live == l0 + (x ? 6 : 0));
    REACH("parsed", x && !import); REACH("imported", x && import);
#endif
#ifdef H_STORE
    wickr_ctx_t *c = OPT(mk_ctx()); wickr_buffer_t *p = OPT(mk_buffer()); wickr_cipher_result_t *r = OPT(mk_cipher_result());
    const wickr_cipher_key_t *lk = c ? c->storage_keys->local : NULL, *rk = c ? c->storage_keys->remote : NULL;
    U.ctx = c; U.key_id = nd_u64();
    bool remote = nd_bool();
    l0 = G.live; v_inject = true;
    if (nd_bool()) {
        wickr_cipher_result_t *o = remote ? wickr_ctx_cipher_remote(c, p) : wickr_ctx_cipher_local(c, p);
        POST("C24: local data is sealed with the local storage key, remote data with the remote one", !o || (c && p && U.cs == 1 && U.c_args && U.cin == p && U.ck == (remote ? rk : lk) && o == U.cout));
        POST("C24: data is sealed", o || !c || !p || U.failed);
        REACH("sealed remote", o && remote); REACH("sealed local", o && !remote);
    } else if (nd_bool()) {
        wickr_buffer_t *o = remote ? wickr_ctx_decipher_remote(c, r) : wickr_ctx_decipher_local(c, r);
        POST("C24: local data is opened with the local storage key, remote data with the remote one, authenticated", !o || (c && r && U.cs == 1 && U.c_args && U.cin == r && U.ck == (remote ? rk : lk) && o == U.cout));
        POST("C24: data is opened", o || !c || !r || U.failed);
        REACH("opened remote", o && remote); REACH("opened local", o && !remote);
    } else {
        wickr_ephemeral_keypair_t *e = wickr_ctx_ephemeral_keypair_gen(c, U.key_id);
        POST("C08: the ephemeral key of a context is signed by its node identity", !e || (c && U.ek_args && e == U.ek));
        REACH("ephemeral key", e);
    }
    v_inject = false;
#endif
#ifdef H_ENCODE
    wickr_ctx_t *c = OPT(mk_ctx()); wickr_payload_t *pl = OPT(mk_payload()); wickr_node_array_t *nodes = OPT((wickr_node_array_t *)mk_mem(1));
    U.ctx = c; U.payload = pl; U.nodes = nodes;
    l0 = G.live; v_inject = true;
    wickr_encoder_result_t *e = wickr_ctx_encode_packet(c, pl, nodes);
    v_inject = false;
    POST("C10: a packet is made of a new random packet key and exchange key, with the header key, identity and protocol version of the context", !e || (c && pl && nodes && U.packet_args && e->packet == U.packet && e->packet_key == U.rnd && same_cipher(&U.rnd_cipher, &eng.default_cipher)));
    POST("C09: a packet is made", e || !c || !pl || !nodes || U.failed || G.alloc_failed);
    POST("C25: ctx_encode_packet leaks nothing", G.live == l0 + (e ? 5 : 0));
    REACH("encoded", e);
#endif
#ifdef H_READ
    wickr_ctx_t *c = mk_ctx(); wickr_buffer_t *b = OPT(mk_buffer()), *nid = OPT(mk_buffer()); wickr_identity_chain_t *s = OPT(mk_ch());
    unsigned how = nd_range(0, 2);
    U.ctx = c; U.sender = s; U.want_id = how == 0 ? nid : how == 1 ? c->id_chain->node->identifier : NULL;
    l0 = G.live; v_inject = true;
    wickr_ctx_packet_t *p = how == 0 ? wickr_ctx_stateless_parse_packet(&c->engine, nid, b, s) : how == 1 ? wickr_ctx_parse_packet(c, b, s) : wickr_ctx_parse_packet_no_decode(c, b, s);
    v_inject = false;
    POST("C09: a packet is read from the bytes given and checked against the sender given", !p || (b && s && U.pbuf == b && U.pr_args && p->packet == U.packet && p->parse_result == U.pr));
    POST("C10: the receiver looks for its own exchange, and uses the header key of the sender", !p || U.pr_args);
    POST("C09: a packet that was read names its sender", !p || is_copy(p->sender, s));
    POST("C25: reading packets leaks nothing", G.live == l0 + (p ? 4 : 0));
    REACH("read", p && how == 1);
    if (p) {
        l0 = G.live;
        wickr_ctx_packet_destroy(&p);
        POST("C25: ctx_packet_destroy releases everything", !p && G.live == l0 - 4);
    }
    wickr_ctx_packet_destroy(&p); wickr_ctx_packet_destroy(NULL);
#endif
#ifdef H_DECODE
    wickr_ctx_t *c = OPT(mk_ctx()); wickr_ctx_packet_t *p = OPT(mk_mem(sizeof *p)); wickr_ec_key_t *key = OPT(mk_ec_key());
    if (p) { p->packet = mk_mem(sizeof *p->packet); p->sender = mk_ch(); p->parse_result = OPT(mk_mem(sizeof *p->parse_result)); }
    U.ctx = c; U.cp = p; U.dkey = key;
    l0 = G.live; v_inject = true;
    wickr_decode_result_t *r = wickr_ctx_decode_packet(c, p, key);
    v_inject = false;
    POST("C10: a packet is decoded with the key given, for the device and identity of the context and the sender of the packet", !r || (c && p && p->parse_result && U.dr_args && r == U.dr));
    POST("C25: ctx_decode_packet leaks nothing", G.live == l0 + (r ? 1 : 0));
    REACH("decoded", r);
#endif
}
