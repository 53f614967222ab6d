/* Contracts of transport_root_key.c, transport_root_key_priv.c and the serialization of stream keys (stream_key.c, stream_key_priv.c) */
#include "gen_id.h"
#include "gen_stream.h"
#include "transport_root_key.h"
#include "private/transport_root_key_priv.h"
#include "private/stream_key_priv.h"
#include "kdf.h"
#include "pb.h"
#include "memory.h"

static struct {
    size_t k; bool engine_failed; size_t rand_len; wickr_buffer_t *rand; wickr_cipher_key_t *rand_key; wickr_cipher_t rand_key_cipher;
    unsigned kdfs; bool kdf_args; const wickr_buffer_t *secret, *salt, *info; wickr_buffer_t *hash; size_t hash_len; uint8_t ck, ek;
    const wickr_stream_key_t *sk; bool packed_ok; const Wickr__Proto__StreamKey *packed;
    uint8_t pk_cipher, pk_key, pk_evo, pk_user; size_t pk_evo_len, pk_user_len; uint32_t pk_ppe; bool pk_has_user;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB); }

static wickr_transport_root_key_t *mk_root_key(void)
{
    wickr_transport_root_key_t *r = mk_mem(sizeof *r);
    r->cipher = mk_cipher(); r->secret = mk_buffer_len(r->cipher.key_len); r->packets_per_evo_send = nd_u32(); r->packets_per_evo_recv = nd_u32();
    return r;
}
#define n_root(r) ((r) ? 3 : 0)
static bool ok_root(const wickr_transport_root_key_t *r) { return R_OK(r, sizeof *r) && ok_cipher(&r->cipher) && ok_buffer_len(r->secret, r->cipher.key_len); }
static void watch(const wickr_buffer_t *b) { G.watch = b->bytes; G.watch_len = b->length; G.watch_k = U.k; G.watch_freed = G.watch_dirty = false; }
#define WIPED (G.watch_freed && !G.watch_dirty)

static wickr_buffer_t *e_rand(size_t n)
{
    U.rand_len = n;
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    U.rand = mk_buffer_len(n); watch(U.rand);
    return U.rand;
}
static wickr_cipher_key_t *e_rand_key(wickr_cipher_t c)
{
    U.rand_key_cipher = c;
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    return U.rand_key = mk_cipher_key_for(c);
}
static wickr_kdf_result_t *e_kdf(const wickr_kdf_meta_t *m, const wickr_buffer_t *pass)
{
    U.kdfs++;
    U.kdf_args = pass == U.secret && m->salt == U.salt && m->info == U.info && m->algo.algo_id == KDF_HKDF_SHA512.algo_id && m->algo.kdf_id == KDF_HKDF_SHA512.kdf_id && m->algo.output_size == KDF_HKDF_SHA512.output_size;
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    wickr_kdf_result_t *r = mk_mem(sizeof *r);
    r->meta = NULL;
    r->hash = U.hash = nd_bool() ? mk_buffer_len(64) : mk_buffer_range(1, 200); U.hash_len = r->hash->length;
    if (U.hash_len == 64) { U.ck = r->hash->bytes[U.k]; U.ek = r->hash->bytes[32 + U.k]; }
    watch(U.hash);
    return r;
}
void wickr_kdf_result_destroy(wickr_kdf_result_t **r)
{
    if (!r || !*r) return;
    wickr_buffer_destroy_zero(&(*r)->hash); v_free(*r); *r = NULL;
}

/* ---- the protobuf message of stream keys ---- */
static Wickr__Proto__StreamKey *mk_pb_stream_key(void)
{
    Wickr__Proto__StreamKey *m = malloc(sizeof *m);
    ASSUME(m != NULL); G.live++;
    memset(m, 0, sizeof *m);
    int64_t l = G.live;
    PB_OPT(m, cipher_key, 64); PB_OPT(m, evolution_key, (size_t)INT32_MAX + 1); PB_OPT(m, user_data, (size_t)INT32_MAX + 1);
    m->has_packets_per_evo = nd_bool(); m->packets_per_evo = nd_u32();
    G.live = l;
    /* what the message says, for the postcondition: the code under proof releases the message before it returns */
    U.pk_ppe = m->packets_per_evo; U.pk_has_user = m->has_user_data; U.pk_user_len = m->user_data.len; U.pk_evo_len = m->evolution_key.len;
    if (m->cipher_key.len) U.pk_cipher = m->cipher_key.data[0];
    if (U.k < 63 && U.k + 1 < m->cipher_key.len) U.pk_key = m->cipher_key.data[U.k + 1];
    if (U.k < m->evolution_key.len) U.pk_evo = m->evolution_key.data[U.k];
    if (U.k < m->user_data.len) U.pk_user = m->user_data.data[U.k];
    return m;
}
static void free_pb_stream_key(Wickr__Proto__StreamKey *m) { int64_t l = G.live; PB_FREE(m, cipher_key); PB_FREE(m, evolution_key); PB_FREE(m, user_data); v_free(m); G.live = l - 1; }
static void on_pack_stream_key(const Wickr__Proto__StreamKey *m)
{
    const wickr_stream_key_t *k = U.sk;
    U.packed = m;
    /* cipher id, then the key itself; evolution key, user data and rate as they are */
    U.packed_ok = m->has_cipher_key && m->cipher_key.len == 1 + k->cipher_key->key_data->length && m->cipher_key.data[0] == k->cipher_key->cipher.cipher_id
        && (U.k >= k->cipher_key->key_data->length || m->cipher_key.data[1 + U.k] == k->cipher_key->key_data->bytes[U.k])
        && m->has_evolution_key && pb_is_copy(m->evolution_key, k->evolution_key, U.k)
        && (k->user_data ? m->has_user_data && pb_is_copy(m->user_data, k->user_data, U.k) : !m->has_user_data)
        && m->has_packets_per_evo && m->packets_per_evo == k->packets_per_evolution;
    wickr_buffer_t b = { m->cipher_key.len, m->cipher_key.data };
    watch(&b);
}
PB_MSG(Wickr__Proto__StreamKey, stream_key, WICKR__PROTO__STREAM_KEY__INIT)
void wickr__proto__transport_root_key__init(Wickr__Proto__TransportRootKey *m) { Wickr__Proto__TransportRootKey i = WICKR__PROTO__TRANSPORT_ROOT_KEY__INIT; *m = i; }

void harness(void)
{
    v_unit_reset(); U.k = PB.k = G.cat_k = nd_u64(); int64_t l0; (void)l0;
    wickr_crypto_engine_t eng; memset(&eng, 0, sizeof eng);
    eng.wickr_crypto_engine_crypto_random = e_rand; eng.wickr_crypto_kdf_meta = e_kdf;
#ifdef H_CREATE
    wickr_cipher_t c = mk_cipher(); uint32_t snd = nd_u32(), rcv = nd_u32();
    l0 = G.live; v_inject = true;
    wickr_transport_root_key_t *r = wickr_transport_root_key_create_random(nd_bool() ? NULL : &eng, c, snd, rcv);
    v_inject = false;
    POST("C12: a new root key is a fresh random secret of the size of the cipher key", !r || (r->secret == U.rand && U.rand_len == c.key_len && same_cipher(&r->cipher, &c)));
    POST("C12: a new root key carries the key evolution rates given", !r || (r->packets_per_evo_send == snd && r->packets_per_evo_recv == rcv));
    POST("C25: transport_root_key_create_random leaks nothing", G.live == l0 + n_root(r));
    POST("C16: a secret that does not become a root key is wiped", r || !U.rand || WIPED);
    REACH("random root key", r);
    wickr_buffer_t *s = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_transport_root_key_t *q = wickr_transport_root_key_create(s, c, snd, rcv);
    v_inject = false;
    POST("C12: a root key is created exactly of a secret of the right size", q ? q->secret == s && s && s->length == c.key_len && same_cipher(&q->cipher, &c) && q->packets_per_evo_send == snd && q->packets_per_evo_recv == rcv
        : !s || s->length != c.key_len || G.alloc_failed);
    POST("C25: transport_root_key_create leaks nothing", G.live == l0 + (q ? 1 : 0));
    REACH("root key", q);
    eng.wickr_crypto_engine_cipher_key_random = e_rand_key; G.watch = NULL;
    l0 = G.live; v_inject = true;
    wickr_stream_key_t *k = wickr_stream_key_create_rand(eng, c, snd);
    v_inject = false;
    POST("C04: a random stream key has a random cipher key and a random evolution key", !k || (k->cipher_key == U.rand_key && same_cipher(&U.rand_key_cipher, &c) && k->evolution_key == U.rand && U.rand_len == c.key_len && k->packets_per_evolution == snd && !k->user_data));
    POST("C25: stream_key_create_rand leaks nothing", G.live == l0 + (k ? n_stream_key(k) : 0));
    REACH("random stream key", k);
#endif
#ifdef H_COPY
    wickr_transport_root_key_t *r = nd_bool() ? NULL : mk_root_key();
    l0 = G.live; v_inject = true;
    wickr_transport_root_key_t *q = wickr_transport_root_key_copy(r);
    v_inject = false;
    POST("C21: a copied root key is complete and separate", !q || (r && q != r && same_bytes_at(q->secret, r->secret, U.k) && apart_buf(q->secret, r->secret) && same_cipher(&q->cipher, &r->cipher)
        && q->packets_per_evo_send == r->packets_per_evo_send && q->packets_per_evo_recv == r->packets_per_evo_recv));
    POST("C21: copying succeeds", q || !r || G.alloc_failed);
    POST("C25: transport_root_key_copy leaks nothing", G.live == l0 + n_root(q));
    REACH("copied", q);
    if (r) {
        watch(r->secret); l0 = G.live;
        wickr_transport_root_key_destroy(&r);
        POST("C16: the secret of a root key is wiped", WIPED);
        POST("C25: transport_root_key_destroy releases everything", !r && G.live == l0 - 3);
    }
#endif
#ifdef H_STREAM
    U.k = nd_range(0, 31);
    wickr_transport_root_key_t *r = nd_bool() ? NULL : mk_root_key();
    wickr_buffer_t *salt = mk_buffer_opt(), *id = mk_buffer_opt();
    if (r) U.secret = r->secret;
    U.salt = salt; U.info = id;
    wickr_stream_direction dir = nd_bool() ? STREAM_DIRECTION_ENCODE : STREAM_DIRECTION_DECODE;
    uint32_t rate = !r ? 0 : dir == STREAM_DIRECTION_ENCODE ? r->packets_per_evo_send : r->packets_per_evo_recv;
    l0 = G.live; v_inject = true;
    wickr_stream_key_t *sk = wickr_transport_root_key_to_stream_key(r, &eng, salt, id, dir);
    v_inject = false;
    POST("C12: a stream key is derived once, by HKDF of the root key with the salt and the name of the stream", !sk || (r && salt && id && U.kdfs == 1 && U.kdf_args));
    POST("C12: the first half of the derived bytes is the cipher key, the second the evolution key", !sk || (U.hash_len == 64 && same_cipher(&sk->cipher_key->cipher, &r->cipher)
        && sk->cipher_key->key_data->length == 32 && sk->cipher_key->key_data->bytes[U.k] == U.ck && sk->evolution_key->length == 32 && sk->evolution_key->bytes[U.k] == U.ek && !sk->user_data));
    POST("C12: the evolution rate is the one of the direction of the stream", !sk || sk->packets_per_evolution == rate);
    POST("C25: transport_root_key_to_stream_key leaks nothing", G.live == l0 + (sk ? n_stream_key(sk) : 0));
    POST("C16: the derived bytes are wiped", !U.hash || WIPED);
    REACH("stream key", sk);
#endif
#ifdef H_PROTO
    wickr_transport_root_key_t *r = nd_bool() ? NULL : mk_root_key();
    l0 = G.live; v_inject = true;
    Wickr__Proto__TransportRootKey *m = wickr_transport_root_key_to_proto(r);
    v_inject = false;
    POST("C12: the root key message holds exactly the root key", !m || (r && m->has_secret && pb_is_copy(m->secret, r->secret, U.k) && m->has_cipher_id && m->cipher_id == (uint32_t)r->cipher.cipher_id
        && m->has_packets_per_evo_send && m->packets_per_evo_send == r->packets_per_evo_send && m->has_packets_per_evo_recv && m->packets_per_evo_recv == r->packets_per_evo_recv));
    POST("C12: a root key has a message", m || !r || G.alloc_failed);
    POST("C25: transport_root_key_to_proto leaks nothing", G.live == l0 + (m ? 2 : 0));
    REACH("message", m);
    if (m) {
        v_inject = true;
        wickr_transport_root_key_t *q = wickr_transport_root_key_from_proto(m);
        v_inject = false;
        POST("C12: both sides hold the same root key", q ? same_bytes_at(q->secret, r->secret, U.k) && same_cipher(&q->cipher, &r->cipher) && q->packets_per_evo_send == r->packets_per_evo_send && q->packets_per_evo_recv == r->packets_per_evo_recv : G.alloc_failed);
        REACH("round trip", q);
        wickr_transport_root_key_destroy(&q);
        wickr_buffer_t b = { m->secret.len, m->secret.data }; watch(&b);
        wickr_transport_root_key_proto_free(m);
        POST("C16: the secret in a root key message is wiped", WIPED);
        POST("C25: transport_root_key_proto_free releases everything", G.live == l0);
    }
    wickr_transport_root_key_proto_free(NULL);
#endif
#ifdef H_PARSE
    Wickr__Proto__TransportRootKey *m = nd_bool() ? NULL : mk_mem(sizeof *m);
    if (m) { memset(m, 0, sizeof *m); PB_OPT(m, secret, 64); m->has_cipher_id = nd_bool(); m->cipher_id = nd_u32(); m->has_packets_per_evo_send = nd_bool(); m->packets_per_evo_send = nd_u32(); m->has_packets_per_evo_recv = nd_bool(); m->packets_per_evo_recv = nd_u32(); }
    l0 = G.live; v_inject = true;
    wickr_transport_root_key_t *r = wickr_transport_root_key_from_proto(m);
    v_inject = false;
    POST("C12: a root key message is accepted only if it is complete and names a cipher with a key of that size", !r || (m && ok_root(r) && m->has_secret && pb_is_copy(m->secret, r->secret, U.k) && m->has_cipher_id && m->cipher_id == (uint32_t)r->cipher.cipher_id
        && m->has_packets_per_evo_send && m->packets_per_evo_send == r->packets_per_evo_send && m->has_packets_per_evo_recv && m->packets_per_evo_recv == r->packets_per_evo_recv));
    POST("C25: transport_root_key_from_proto leaks nothing", G.live == l0 + n_root(r));
    REACH("parsed", r);
#endif
#ifdef H_SK_SER
    wickr_stream_key_t *k = nd_bool() ? NULL : mk_stream_key_for(mk_cipher(), mk_buffer_opt());
    U.sk = k;
    l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_stream_key_serialize(k);
    v_inject = false;
    POST("C02: a serialized stream key holds exactly its parts", !b || (k && PB_OUT_OK(b) && U.packed_ok));
    POST("C16: the cipher key in a stream key message is wiped", !U.packed || WIPED);
    POST("C25: stream_key_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    REACH("serialized", b);
#endif
#ifdef H_SK_PARSE
    wickr_buffer_t *b = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_stream_key_t *k = wickr_stream_key_create_from_buffer(b);
    const Wickr__Proto__StreamKey *m = PB.got; (void)m;
    v_inject = false;
    POST("C02: a stream key is parsed from the buffer given", !k || (b && PB.unpacks == 1 && PB.in == b->bytes && PB.in_len == b->length && PB.frees == 1));
    POST("C02: a parsed stream key is well formed", !k || (R_OK(k, sizeof *k) && ok_cipher_key(k->cipher_key) && ok_buffer(k->evolution_key) && ok_buffer_opt(k->user_data) && k->packets_per_evolution >= PACKET_PER_EVO_MIN && k->packets_per_evolution <= PACKET_PER_EVO_MAX));
    POST("C02: a parsed stream key is what the message says", !k || (same_bytes_at(k->evolution_key, k->evolution_key, 0) && k->packets_per_evolution == U.pk_ppe && k->cipher_key->cipher.cipher_id == U.pk_cipher && k->evolution_key->length == U.pk_evo_len
        && (U.k >= 32 || k->cipher_key->key_data->bytes[U.k] == U.pk_key) && (U.k >= U.pk_evo_len || k->evolution_key->bytes[U.k] == U.pk_evo)
        && (k->user_data != NULL) == U.pk_has_user && (!k->user_data || (k->user_data->length == U.pk_user_len && (U.k >= U.pk_user_len || k->user_data->bytes[U.k] == U.pk_user)))));
    POST("C25: stream_key_create_from_buffer leaks nothing", G.live == l0 + (k ? n_stream_key(k) : 0));
    REACH("parsed", k);
#endif
}
