/* Contracts of the account keys and the device information: root_keys.c, storage.c, storage_priv.c, devinfo.c */
#include "gen_id.h"
#include "root_keys.h"
#include "storage.h"
#include "devinfo.h"
#include "private/storage_priv.h"
#include "pb.h"
#include "memory.h"

static struct {
    size_t k; bool engine_failed;
    wickr_cipher_key_t *rnd[2]; unsigned rnds; bool rnd_args; wickr_ec_key_t *sig;
    /* the message that was packed, or that unpack yields (recorded: the code under proof releases it) */
    const wickr_root_keys_t *rk; const wickr_storage_keys_t *sk; bool packed_ok, replay; uint32_t version;
    struct f { bool has; size_t len; uint8_t b0, bk, bk1; NATIVE_ONLY(uint8_t all[64];) } n, r, s;
    unsigned imports; bool import_private, import_args; const uint8_t *sig_bytes; size_t sig_len; wickr_ec_key_t *imported;
    const wickr_buffer_t *enc_plain; unsigned encs; bool enc_args; const wickr_cipher_key_t *enc_key; wickr_cipher_result_t *enc_res; uint8_t enc_in;
    unsigned digs; bool dig_args; const wickr_buffer_t *d_in, *d_salt; wickr_buffer_t *d_out; uint8_t d_byte;
    const wickr_buffer_t *sys_id, *dev_salt; wickr_buffer_t *sys_salt, *ids, *rand; size_t rand_len; unsigned n256, n512; bool d256, d512; uint8_t id_lo, id_hi, salt_k;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB); }

static wickr_root_keys_t *mk_root_keys(void)
{
    wickr_root_keys_t *r = mk_mem(sizeof *r);
    r->node_signature_root = mk_ec_key(); r->node_storage_root = mk_cipher_key(); r->remote_storage_root = mk_cipher_key();
    return r;
}
static int64_t n_root_keys(const wickr_root_keys_t *r) { return r ? 1 + n_ec_key(r->node_signature_root) + 6 : 0; }
static wickr_storage_keys_t *mk_storage_keys(void)
{
    wickr_storage_keys_t *s = mk_mem(sizeof *s);
    s->local = mk_cipher_key(); s->remote = mk_cipher_key();
    return s;
}
#define n_storage_keys(s) ((s) ? 7 : 0)
static bool same_ck(const wickr_cipher_key_t *a, const wickr_cipher_key_t *b, size_t k) { return same_cipher(&a->cipher, &b->cipher) && same_bytes_at(a->key_data, b->key_data, k); }
static bool apart_ck(const wickr_cipher_key_t *a, const wickr_cipher_key_t *b) { return a != b && apart_buf(a->key_data, b->key_data); }
static void watch(const uint8_t *p, size_t n) { G.watch = p; G.watch_len = n; G.watch_k = U.k; G.watch_freed = G.watch_dirty = false; }
#define WATCH_BUF(b) watch((b)->bytes, (b)->length)
#define WIPED (G.watch_freed && !G.watch_dirty)

/* ---- engine ---- */
static wickr_cipher_key_t *e_rand_key(wickr_cipher_t c)
{
    if (nd_fail()) { U.engine_failed = true; return NULL; }
    wickr_cipher_key_t *key = mk_cipher_key_for(c);
    POST("C24: root keys take no more than two random storage keys", U.rnds < 2);
    U.rnd[U.rnds & 1] = key; U.rnds++;
    return key;
}
static wickr_ec_key_t *e_rand_ec(wickr_ec_curve_t c)
{
    POST("C24: the signature root is a key of the default curve", same_curve(&c, &EC_CURVE_NIST_P521));
    if (nd_fail()) { U.engine_failed = true; return NULL; }
    return U.sig = mk_ec_key_pair();
}
static wickr_ec_key_t *e_import(const wickr_buffer_t *b, bool is_private)
{
    U.imports++; U.import_private = is_private;
    U.import_args = b->length == U.s.len && (U.s.len == 0 || (b->bytes[0] == U.s.b0 && (U.k >= U.s.len || b->bytes[U.k] == U.s.bk)));
    if (b->length == 0 || nd_fail()) { U.engine_failed = true; return NULL; }
    return U.imported = mk_ec_key_pair();
}
static wickr_cipher_result_t *e_encrypt(const wickr_buffer_t *plain, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, const wickr_buffer_t *iv)
{
    U.encs++; U.enc_args = key == U.enc_key && !iv && !aad && PB_OUT_OK(plain);
    watch(plain->bytes, plain->length);
    if (nd_fail()) { U.engine_failed = true; return NULL; }
    return U.enc_res = mk_cipher_result_for(key->cipher);
}

/* ---- messages ---- */
static struct f rec(bool has, ProtobufCBinaryData d)
{
    struct f f; memset(&f, 0, sizeof f);
    f.has = has; f.len = d.len;
    NATIVE_ONLY(if (d.len) memcpy(f.all, d.data, d.len < 64 ? d.len : 64);)
    if (d.len) f.b0 = d.data[0];
    if (U.k < d.len) f.bk = d.data[U.k];
    if (U.k < SIZE_MAX - 1 && U.k + 1 < d.len) f.bk1 = d.data[U.k + 1];
    return f;
}
/* a field as it was recorded when it was packed */
static ProtobufCBinaryData again(struct f f)
{
    ProtobufCBinaryData d = { f.len, mk_mem(f.len) };
    NATIVE_ONLY(memcpy(d.data, f.all, d.len < 64 ? d.len : 64);)
    d.data[0] = f.b0;
    if (U.k < f.len) d.data[U.k] = f.bk;
    if (U.k < SIZE_MAX - 1 && U.k + 1 < f.len) d.data[U.k + 1] = f.bk1;
    return d;
}
/* does the field hold the serialized cipher key: its identifier, then its bytes? */
static bool is_ck(bool has, ProtobufCBinaryData d, const wickr_cipher_key_t *key)
{
    return has && d.len == 1 + key->key_data->length && d.data[0] == key->cipher.cipher_id && (U.k >= key->key_data->length || d.data[1 + U.k] == key->key_data->bytes[U.k]);
}
/* is the cipher key what the field says? */
static bool ck_is(const wickr_cipher_key_t *key, struct f f)
{
    return f.has && f.len >= 1 + key->cipher.key_len && (uint8_t)key->cipher.cipher_id == f.b0 && ok_cipher_key(key) && (U.k >= key->key_data->length || key->key_data->bytes[U.k] == f.bk1);
}
static Wickr__Proto__RootKeys *mk_pb_root_keys(void)
{
    Wickr__Proto__RootKeys *m = malloc(sizeof *m);
    ASSUME(m != NULL); G.live++;
    memset(m, 0, sizeof *m);
    int64_t l = G.live;
    if (U.replay) {
        m->version = U.version; m->has_node_storage_root = m->has_remote_storage_root = m->has_node_signature_root = true;
        m->node_storage_root = again(U.n); m->remote_storage_root = again(U.r); m->node_signature_root = again(U.s);
    } else {
        PB_OPT(m, node_storage_root, 64); PB_OPT(m, remote_storage_root, 64); PB_OPT(m, node_signature_root, (size_t)INT32_MAX + 1); m->version = nd_bool() ? 1 : nd_u32();
        U.n = rec(m->has_node_storage_root, m->node_storage_root); U.r = rec(m->has_remote_storage_root, m->remote_storage_root); U.s = rec(m->has_node_signature_root, m->node_signature_root); U.version = m->version;
    }
    G.live = l;
    return m;
}
static void free_pb_root_keys(Wickr__Proto__RootKeys *m) { int64_t l = G.live; PB_FREE(m, node_storage_root); PB_FREE(m, remote_storage_root); PB_FREE(m, node_signature_root); v_free(m); G.live = l - 1; }
static void on_pack_root_keys(const Wickr__Proto__RootKeys *m)
{
    const wickr_root_keys_t *r = U.rk;
    U.packed_ok = is_ck(m->has_node_storage_root, m->node_storage_root, r->node_storage_root) && is_ck(m->has_remote_storage_root, m->remote_storage_root, r->remote_storage_root)
        && r->node_signature_root->pri_data && m->has_node_signature_root && pb_is_copy(m->node_signature_root, r->node_signature_root->pri_data, U.k);
    U.n = rec(true, m->node_storage_root); U.r = rec(true, m->remote_storage_root); U.s = rec(true, m->node_signature_root); U.version = m->version;
    if (nd_bool()) watch(m->node_storage_root.data, m->node_storage_root.len); else watch(m->remote_storage_root.data, m->remote_storage_root.len);
}
static Wickr__Proto__StorageKeys *mk_pb_storage_keys(void)
{
    Wickr__Proto__StorageKeys *m = malloc(sizeof *m);
    ASSUME(m != NULL); G.live++;
    memset(m, 0, sizeof *m);
    int64_t l = G.live;
    if (U.replay) {
        m->version = U.version; m->has_local_storage = m->has_remote_storage = true; m->local_storage = again(U.n); m->remote_storage = again(U.r);
    } else {
        PB_OPT(m, local_storage, 64); PB_OPT(m, remote_storage, 64); m->version = nd_bool() ? 1 : nd_u32();
        U.n = rec(m->has_local_storage, m->local_storage); U.r = rec(m->has_remote_storage, m->remote_storage); U.version = m->version;
    }
    G.live = l;
    return m;
}
static void free_pb_storage_keys(Wickr__Proto__StorageKeys *m) { int64_t l = G.live; PB_FREE(m, local_storage); PB_FREE(m, remote_storage); v_free(m); G.live = l - 1; }
static void on_pack_storage_keys(const Wickr__Proto__StorageKeys *m)
{
    U.packed_ok = is_ck(m->has_local_storage, m->local_storage, U.sk->local) && is_ck(m->has_remote_storage, m->remote_storage, U.sk->remote);
    U.n = rec(true, m->local_storage); U.r = rec(true, m->remote_storage); U.version = m->version;
    if (nd_bool()) watch(m->local_storage.data, m->local_storage.len); else watch(m->remote_storage.data, m->remote_storage.len);
}
PB_MSG(Wickr__Proto__RootKeys, root_keys, WICKR__PROTO__ROOT_KEYS__INIT)
PB_MSG(Wickr__Proto__StorageKeys, storage_keys, WICKR__PROTO__STORAGE_KEYS__INIT)

/* ---- device information ---- */
static wickr_dev_info_t *mk_dev_info(void)
{
    wickr_dev_info_t *d = mk_mem(sizeof *d);
    d->dev_salt = mk_buffer(); d->system_salt = mk_buffer_opt(); d->msg_proto_id = mk_buffer(); d->srv_comm_id = mk_buffer();
    return d;
}
static wickr_buffer_t *e_digest(const wickr_buffer_t *in, const wickr_buffer_t *salt, wickr_digest_t mode)
{
    wickr_digest_t s2 = DIGEST_SHA_256, s5 = DIGEST_SHA_512;
    U.digs++;
#if defined(H_RK_LOCAL)
    U.dig_args = in == U.d_in && salt == U.d_salt && same_digest(&mode, &s2);
    if (nd_fail()) { U.engine_failed = true; return NULL; }
    U.d_out = mk_buffer_len(32); if (U.k < 32) U.d_byte = U.d_out->bytes[U.k]; WATCH_BUF(U.d_out);
    return U.d_out;
#else
    if (nd_fail()) { U.engine_failed = true; return NULL; }
    if (same_digest(&mode, &s2)) { U.n256++; U.d256 = in == U.sys_id && !salt; U.sys_salt = mk_buffer_len(32); return U.sys_salt; }
    POST("C24: device identifiers are SHA-512 digests", same_digest(&mode, &s5));
    U.n512++; U.d512 = in == U.sys_id && salt == U.dev_salt; U.ids = mk_buffer_len(64);
    if (U.k < 32) { U.id_lo = U.ids->bytes[U.k]; U.id_hi = U.ids->bytes[32 + U.k]; }
    return U.ids;
#endif
}
static wickr_buffer_t *e_rand(size_t n)
{
    U.rand_len = n;
    if (nd_fail()) { U.engine_failed = true; return NULL; }
    U.rand = mk_buffer_len(n); U.dev_salt = U.rand;
    return U.rand;
}

void harness(void)
{
    v_unit_reset(); U.k = PB.k = G.cat_k = nd_u64(); int64_t l0; (void)l0;
    wickr_crypto_engine_t eng; memset(&eng, 0, sizeof eng);
    eng.default_cipher = mk_cipher(); eng.default_curve = EC_CURVE_NIST_P521;
    eng.wickr_crypto_engine_cipher_key_random = e_rand_key; eng.wickr_crypto_engine_ec_rand_key = e_rand_ec; eng.wickr_crypto_engine_ec_key_import = e_import;
    eng.wickr_crypto_engine_cipher_encrypt = e_encrypt; eng.wickr_crypto_engine_digest = e_digest; eng.wickr_crypto_engine_crypto_random = e_rand;
    const wickr_crypto_engine_t *e = nd_bool() && nd_bool() ? NULL : &eng; (void)e;
#ifdef H_RK_GEN
    l0 = G.live; v_inject = true;
    wickr_root_keys_t *r = wickr_root_keys_generate(e);
    v_inject = false;
    POST("C24: new root keys are a random signature key and two different random storage keys", !r || (e && U.rnds == 2 && r->node_signature_root == U.sig && U.sig && r->node_storage_root != r->remote_storage_root
        && (r->node_storage_root == U.rnd[0] || r->node_storage_root == U.rnd[1]) && (r->remote_storage_root == U.rnd[0] || r->remote_storage_root == U.rnd[1]) && same_cipher(&r->node_storage_root->cipher, &eng.default_cipher)));
    POST("C24: root keys are generated", r || !e || U.engine_failed || G.alloc_failed);
    POST("C25: root_keys_generate leaks nothing", G.live == l0 + n_root_keys(r));
    REACH("generated", r);
    wickr_ec_key_t *s = nd_bool() ? NULL : mk_ec_key(); wickr_cipher_key_t *a = nd_bool() ? NULL : mk_cipher_key(), *b = nd_bool() ? NULL : mk_cipher_key();
    l0 = G.live; v_inject = true;
    wickr_root_keys_t *q = wickr_root_keys_create(s, a, b);
    wickr_storage_keys_t *t = wickr_storage_keys_create(a, b);
    v_inject = false;
    POST("C24: root keys hold each key in its own place", q ? s && a && b && q->node_signature_root == s && q->node_storage_root == a && q->remote_storage_root == b : !s || !a || !b || G.alloc_failed);
    POST("C24: storage keys hold the local and the remote key in their places", t ? a && b && t->local == a && t->remote == b : !a || !b || G.alloc_failed);
    POST("C25: root_keys_create, storage_keys_create take nothing over when they fail", G.live == l0 + (q ? 1 : 0) + (t ? 1 : 0));
    REACH("created", q); REACH("storage keys", t);
#endif
#if defined(H_RK_SER) || defined(H_RK_RT)
    wickr_root_keys_t *r = nd_bool() && nd_bool() ? NULL : mk_root_keys();
    U.rk = r;
    l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_root_keys_serialize(r);
    v_inject = false;
    POST("C24: serialized root keys hold each key in its own field", !b || (r && PB_OUT_OK(b) && U.packed_ok));
    POST("C24: root keys with a private signature key are serialized", b || !r || !r->node_signature_root->pri_data || G.alloc_failed || PB.size > MAX_BUFFER_SIZE);
    POST("C16: the keys in a root key message are wiped", !PB.packs || WIPED);
    POST("C25: root_keys_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    REACH("serialized", b);
#endif
#ifdef H_RK_RT
    if (b) {
        U.replay = true;
        l0 = G.live; v_inject = true;
        wickr_root_keys_t *q = wickr_root_keys_create_from_buffer(&eng, b);
        v_inject = false;
        POST("C24: root keys come back from their serialized form", q ? same_ck(q->node_storage_root, r->node_storage_root, U.k) && same_ck(q->remote_storage_root, r->remote_storage_root, U.k)
            && U.imports == 1 && U.import_private && U.import_args && q->node_signature_root == U.imported && PB.in == b->bytes && PB.in_len == b->length : U.engine_failed || G.alloc_failed || PB.got == NULL);
        POST("C25: root_keys_create_from_buffer leaks nothing", G.live == l0 + n_root_keys(q));
        REACH("round trip", q);
    }
#endif
#ifdef H_RK_PARSE
    wickr_buffer_t *b = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_root_keys_t *r = wickr_root_keys_create_from_buffer(e, b);
    v_inject = false;
    POST("C24: root keys are parsed from the buffer given", !r || (e && b && PB.unpacks == 1 && PB.in == b->bytes && PB.in_len == b->length && PB.frees == 1));
    POST("C24: root keys are accepted only if all parts are present and well formed", !r || (U.version <= 1 && U.n.has && U.r.has && U.s.has));
    POST("C24: each parsed root key is the one of its field", !r || (ck_is(r->node_storage_root, U.n) && ck_is(r->remote_storage_root, U.r) && U.imports == 1 && U.import_private && U.import_args && r->node_signature_root == U.imported));
    POST("C25: root_keys_create_from_buffer leaks nothing", G.live == l0 + n_root_keys(r));
    REACH("parsed", r);
#endif
#ifdef H_RK_EXPORT
    wickr_root_keys_t *r = nd_bool() && nd_bool() ? NULL : mk_root_keys();
    wickr_cipher_key_t *key = nd_bool() && nd_bool() ? NULL : mk_cipher_key();
    U.rk = r; U.enc_key = key;
    l0 = G.live; v_inject = true;
    wickr_cipher_result_t *c = wickr_root_keys_export(r, e, key);
    v_inject = false;
    POST("C24: exported root keys are the serialized keys, sealed once with the export key", !c || (r && e && key && U.packed_ok && U.encs == 1 && U.enc_args && c == U.enc_res));
    POST("C16: the serialized keys are wiped", !U.encs || WIPED);
    POST("C25: root_keys_export leaks nothing", G.live == l0 + (c ? 3 + (c->auth_tag ? 2 : 0) + (c->cipher_text ? 2 : 0) : 0));
    REACH("exported", c);
#endif
#ifdef H_RK_LOCAL
    wickr_root_keys_t *r = nd_bool() && nd_bool() ? NULL : mk_root_keys();
    wickr_dev_info_t *d = nd_bool() && nd_bool() ? NULL : mk_dev_info();
    if (r) U.d_in = r->node_storage_root->key_data;
    if (d) U.d_salt = d->system_salt;
    l0 = G.live; v_inject = true;
    wickr_storage_keys_t *s = wickr_root_keys_localize(r, e, d);
    v_inject = false;
    POST("C24: the remote storage key is the same on every device", !s || (r && same_ck(s->remote, r->remote_storage_root, U.k) && apart_ck(s->remote, r->remote_storage_root)));
    POST("C24: the local storage key is the node storage root salted with the system", !s || (d && U.digs == 1 && U.dig_args && same_cipher(&s->local->cipher, &r->node_storage_root->cipher) && s->local->key_data->length == 32
        && (U.k >= 32 || s->local->key_data->bytes[U.k] == U.d_byte)));
    POST("C24: storage keys are derived", s || !r || !d || !e || U.engine_failed || G.alloc_failed);
    POST("C16: key material that becomes no storage key is wiped", s || !U.d_out || WIPED);
    POST("C25: root_keys_localize leaks nothing", G.live == l0 + n_storage_keys(s));
    REACH("localized", s);
#endif
#ifdef H_RK_COPY
    wickr_root_keys_t *r = nd_bool() && nd_bool() ? NULL : mk_root_keys();
    l0 = G.live; v_inject = true;
    wickr_root_keys_t *q = wickr_root_keys_copy(r);
    v_inject = false;
    POST("C21: copied root keys are complete and separate", !q || (r && q != r && same_ec_key(q->node_signature_root, r->node_signature_root, U.k) && same_ck(q->node_storage_root, r->node_storage_root, U.k) && same_ck(q->remote_storage_root, r->remote_storage_root, U.k)
        && apart_ec_key(q->node_signature_root, r->node_signature_root) && apart_ck(q->node_storage_root, r->node_storage_root) && apart_ck(q->remote_storage_root, r->remote_storage_root)));
    POST("C21: copying root keys succeeds", q || !r || G.alloc_failed);
    POST("C25: root_keys_copy leaks nothing", G.live == l0 + n_root_keys(q));
    REACH("copied", q);
    if (r) {
        int64_t n = n_root_keys(r); unsigned c = nd_range(0, 2);
        if (c == 0) WATCH_BUF(r->node_storage_root->key_data); else if (c == 1) WATCH_BUF(r->remote_storage_root->key_data); else if (r->node_signature_root->pri_data) WATCH_BUF(r->node_signature_root->pri_data);
        bool w = c < 2 || r->node_signature_root->pri_data; l0 = G.live;
        wickr_root_keys_destroy(&r);
        POST("C16: every secret of root keys is wiped", !w || WIPED);
        POST("C25: root_keys_destroy releases everything", !r && G.live == l0 - n);
    }
    wickr_root_keys_t *nil = NULL; wickr_root_keys_destroy(&nil); wickr_root_keys_destroy(NULL);
#endif
#ifdef H_SK_COPY
    wickr_storage_keys_t *s = nd_bool() && nd_bool() ? NULL : mk_storage_keys();
    l0 = G.live; v_inject = true;
    wickr_storage_keys_t *q = wickr_storage_keys_copy(s);
    v_inject = false;
    POST("C21: copied storage keys are complete and separate", !q || (s && q != s && same_ck(q->local, s->local, U.k) && same_ck(q->remote, s->remote, U.k) && apart_ck(q->local, s->local) && apart_ck(q->remote, s->remote)));
    POST("C21: copying storage keys succeeds", q || !s || G.alloc_failed);
    POST("C25: storage_keys_copy leaks nothing", G.live == l0 + n_storage_keys(q));
    REACH("copied", q);
    if (s) {
        if (nd_bool()) WATCH_BUF(s->local->key_data); else WATCH_BUF(s->remote->key_data);
        l0 = G.live;
        wickr_storage_keys_destroy(&s);
        POST("C16: every storage key is wiped", WIPED);
        POST("C25: storage_keys_destroy releases everything", !s && G.live == l0 - 7);
    }
    wickr_storage_keys_t *nil = NULL; wickr_storage_keys_destroy(&nil); wickr_storage_keys_destroy(NULL);
#endif
#if defined(H_SK_SER) || defined(H_SK_RT)
    wickr_storage_keys_t *s = nd_bool() && nd_bool() ? NULL : mk_storage_keys();
    U.sk = s;
    l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_storage_keys_serialize(s);
    v_inject = false;
    POST("C24: serialized storage keys hold each key in its own field", !b || (s && PB_OUT_OK(b) && U.packed_ok));
    POST("C24: storage keys are serialized", b || !s || G.alloc_failed || PB.size > MAX_BUFFER_SIZE);
    POST("C16: the keys in a storage key message are wiped", !PB.packs || WIPED);
    POST("C25: storage_keys_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    REACH("serialized", b);
#endif
#ifdef H_SK_RT
    if (b) {
        U.replay = true;
        l0 = G.live; v_inject = true;
        wickr_storage_keys_t *q = wickr_storage_keys_create_from_buffer(b);
        v_inject = false;
        POST("C24: storage keys come back from their serialized form, each in its place", q ? same_ck(q->local, s->local, U.k) && same_ck(q->remote, s->remote, U.k) && PB.in == b->bytes && PB.in_len == b->length : G.alloc_failed || PB.got == NULL);
        POST("C25: storage_keys_create_from_buffer leaks nothing", G.live == l0 + n_storage_keys(q));
        REACH("round trip", q);
    }
#endif
#ifdef H_SK_PARSE
    wickr_buffer_t *b = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_storage_keys_t *s = wickr_storage_keys_create_from_buffer(b);
    v_inject = false;
    POST("C24: storage keys are parsed from the buffer given", !s || (b && PB.unpacks == 1 && PB.in == b->bytes && PB.in_len == b->length && PB.frees == 1));
    POST("C24: storage keys are accepted only in the current version and with both keys, each from its field", !s || (U.version == 1 && ck_is(s->local, U.n) && ck_is(s->remote, U.r)));
    POST("C25: storage_keys_create_from_buffer leaks nothing", G.live == l0 + n_storage_keys(s));
    REACH("parsed", s);
#endif
#ifdef H_SK_PROTO
    wickr_storage_keys_t *s = nd_bool() && nd_bool() ? NULL : mk_storage_keys();
    l0 = G.live; v_inject = true;
    Wickr__Proto__StorageKeys *m = wickr_storage_keys_to_proto(s);
    v_inject = false;
    POST("C24: the storage key message holds each key in its own field", !m || (s && m->version == 1 && is_ck(m->has_local_storage, m->local_storage, s->local) && is_ck(m->has_remote_storage, m->remote_storage, s->remote)));
    POST("C24: storage keys have a message", m || !s || G.alloc_failed);
    POST("C25: storage_keys_to_proto leaks nothing", G.live == l0 + (m ? 3 : 0));
    REACH("message", m);
    if (m) {
        v_inject = true;
        wickr_storage_keys_t *q = wickr_storage_keys_create_from_proto(m);
        v_inject = false;
        POST("C24: storage keys come back from their message", q ? same_ck(q->local, s->local, U.k) && same_ck(q->remote, s->remote, U.k) : G.alloc_failed);
        REACH("back", q);
        POST("C25: storage_keys_create_from_proto leaks nothing", G.live == l0 + 3 + n_storage_keys(q));
        if (nd_bool()) watch(m->local_storage.data, m->local_storage.len); else watch(m->remote_storage.data, m->remote_storage.len);
        int64_t l1 = G.live;
        wickr_storage_keys_proto_free(m);
        POST("C16: the keys of a storage key message are wiped", WIPED);
        POST("C25: storage_keys_proto_free releases everything", G.live == l1 - 3);
    }
    wickr_storage_keys_proto_free(NULL);
    POST("C24: no storage keys of no message", wickr_storage_keys_create_from_proto(NULL) == NULL);
#endif
#ifdef H_DEV
    wickr_buffer_t *salt = mk_buffer_opt(), *sys = mk_buffer_opt();
    U.sys_id = sys; U.dev_salt = salt;
    bool fresh = nd_bool();
    l0 = G.live; v_inject = true;
    wickr_dev_info_t *d = fresh ? wickr_dev_info_create_new(e, sys) : wickr_dev_info_derive(e, salt, sys);
    v_inject = false;
    POST("C24: a device has the salt given, or a new random one of 64 bytes", !d || (e && sys && d->dev_salt == U.dev_salt && d->dev_salt && (!fresh || (U.rand_len == 64 && d->dev_salt == U.rand))));
    POST("C24: the system salt is the SHA-256 of the system id", !d || (U.n256 == 1 && U.d256 && d->system_salt == U.sys_salt));
    POST("C24: the device identifiers are the halves of the SHA-512 of the system id salted with the device salt", !d || (U.n512 == 1 && U.d512 && d->msg_proto_id->length == 32 && d->srv_comm_id->length == 32
        && (U.k >= 32 || (d->msg_proto_id->bytes[U.k] == U.id_lo && d->srv_comm_id->bytes[U.k] == U.id_hi))));
    POST("C24: device information is derived", d || !e || !sys || (!fresh && !salt) || U.engine_failed || G.alloc_failed);
    POST("C25: dev_info_derive, dev_info_create_new leak nothing", G.live == l0 + (d ? 7 + (fresh ? 2 : 0) : 0));
    REACH("new", d && fresh); REACH("derived", d && !fresh);
#endif
#ifdef H_DEV_COPY
    wickr_dev_info_t *s = nd_bool() && nd_bool() ? NULL : mk_dev_info();
    l0 = G.live; v_inject = true;
    wickr_dev_info_t *q = wickr_dev_info_copy(s);
    v_inject = false;
    POST("C21: copied device information is complete and separate", !q || (s && q != s && same_bytes_at(q->dev_salt, s->dev_salt, U.k) && same_bytes_at(q->system_salt, s->system_salt, U.k) && same_bytes_at(q->msg_proto_id, s->msg_proto_id, U.k) && same_bytes_at(q->srv_comm_id, s->srv_comm_id, U.k)
        && apart_buf(q->dev_salt, s->dev_salt) && apart_buf(q->system_salt, s->system_salt) && apart_buf(q->msg_proto_id, s->msg_proto_id) && apart_buf(q->srv_comm_id, s->srv_comm_id)));
    POST("C21: copying device information succeeds", q || !s || !s->system_salt || G.alloc_failed);
    POST("C25: dev_info_copy leaks nothing", G.live == l0 + (q ? 7 + (q->system_salt ? 2 : 0) : 0));
    REACH("copied", q);
    if (s) {
        int64_t n = 7 + (s->system_salt ? 2 : 0); l0 = G.live;
        if (s->system_salt) WATCH_BUF(s->system_salt); else WATCH_BUF(s->dev_salt);
        wickr_dev_info_destroy(&s);
        POST("C16: the salts of a device are wiped", WIPED);
        POST("C25: dev_info_destroy releases everything", !s && G.live == l0 - n);
    }
    wickr_buffer_t *a = mk_buffer_opt(), *b = mk_buffer_opt(), *c = mk_buffer_opt(), *f = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_dev_info_t *d = wickr_dev_info_create(a, b, c, f);
    v_inject = false;
    POST("C24: device information holds each part in its place", d ? a && c && f && d->dev_salt == a && d->system_salt == b && d->msg_proto_id == c && d->srv_comm_id == f : !a || !c || !f || G.alloc_failed);
    POST("C25: dev_info_create takes nothing over when it fails", G.live == l0 + (d ? 1 : 0));
    REACH("created", d);
#endif
}
