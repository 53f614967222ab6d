/* Contracts of wickr_stream_ctx_encode / _decode / _create / _copy / _destroy (stream_ctx.c) and, through them, of the
   key ratchet (loop contract), the IV factory (stream_iv.c) and the stream key constructors (stream_key.c).
   Engine functions are assumed contracts with ghost records. */
#include "gen_stream.h"
#include "loopc.h"
#include "udiv.h"

#ifndef V_INJ
#define V_INJ true
#endif
static struct {
    size_t k;                           /* ghost byte index, for key bytes */
    uint64_t evo; uint8_t ck, ek;       /* ghost key chain: links derived so far, byte k of cipher and evolution key of the last link */
    bool bad_link;                      /* hmac was called with anything but SHA-512 of (key, evolution key) of the last link */
    unsigned decs, encs, ivs; bool args_ok, iv_args_ok;
    const wickr_cipher_result_t *in; const wickr_buffer_t *aad, *data; const void *out;
    uint64_t last0, seq, count0; uint32_t ppe; uint8_t iv_b; size_t ki; const wickr_buffer_t *seed; uint8_t seed_b; size_t ks;
    unsigned visits; int64_t live0; uint64_t evo0;
    wickr_stream_ctx_t *ctx; bool aad_is_null; bool fail_engine;
} U;

/* hmac: used for the ratchet (64 bytes out of two 32 byte inputs) and for the IV factory (8 byte counter, 64 byte seed) */
static wickr_buffer_t *e_hmac(const wickr_buffer_t *data, const wickr_buffer_t *key, wickr_digest_t d)
{
    bool iv_call = U.ctx && U.ctx->iv_factory && key == U.ctx->iv_factory->seed;
    if (iv_call) {
        U.ivs++;
        /* the IV is the keyed hash of the counter, whose value never repeats under this seed */
        uint64_t v = 0; bool ok = data && data->length == sizeof(uint64_t);
        if (ok) memcpy(&v, data->bytes, sizeof v);
        U.iv_args_ok = ok && d.digest_id == DIGEST_ID_SHA512 && v == U.count0 && key->length == 64 && key->bytes[U.ks] == U.seed_b;
    } else if (d.digest_id != DIGEST_ID_SHA512 || !data || !key || data->length != 32 || key->length != 32 || data->bytes[U.k] != U.ck || key->bytes[U.k] != U.ek)
        U.bad_link = true;
    if (nd_bool()) { U.fail_engine = true; return NULL; }
    wickr_buffer_t *o = mk_buffer_len(64);
    if (iv_call) { o->bytes[U.ki] = nd_u8(); U.iv_b = o->bytes[U.ki]; return o; }
    o->bytes[U.k] = nd_u8(); o->bytes[32 + U.k] = nd_u8();
    U.ck = o->bytes[U.k]; U.ek = o->bytes[32 + U.k]; U.evo++;
    return o;
}
static wickr_buffer_t *e_dec(const wickr_cipher_result_t *r, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, bool auth)
{
    U.decs++;
    U.args_ok = auth && r == U.in && aad == U.aad && key && key->cipher.cipher_id == CIPHER_ID_AES256_GCM && key->key_data->length == 32 && key->key_data->bytes[U.k] == U.ck;
    if (nd_bool()) { U.fail_engine = true; return NULL; }
    wickr_buffer_t *b = mk_buffer(); U.out = b; return b;
}
static wickr_cipher_result_t *e_enc(const wickr_buffer_t *pt, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, const wickr_buffer_t *iv)
{
    U.encs++;
    U.args_ok = pt == U.data && aad == U.aad && key && key->cipher.cipher_id == CIPHER_ID_AES256_GCM && key->key_data->length == 32 && key->key_data->bytes[U.k] == U.ck
        && iv && iv->length == 12 && iv->bytes[U.ki] == U.iv_b;
    if (nd_bool()) { U.fail_engine = true; return NULL; }
    wickr_cipher_result_t *r = mk_cipher_result_for(CIPHER_AES256_GCM); U.out = r; return r;
}
static wickr_buffer_t *e_rand(size_t n)
{
    if (nd_bool()) { U.fail_engine = true; return NULL; }
    POST("C06: the IV seed has 64 random bytes", n == 64);
    return mk_buffer_len(n);
}
static bool link_is(const wickr_stream_key_t *k) { return k->cipher_key->key_data->bytes[U.k] == U.ck && k->evolution_key->bytes[U.k] == U.ek; }

#ifdef V_LOOPS
/* loop contract of __wickr_stream_ctx_evolove_key_material: curr_key is link (curr_evo - evo0) of the chain of the context key */
void v_loop_evolve(wickr_stream_key_t **pk, uint64_t *pe, uint64_t seq_evo)
{
    wickr_stream_key_t *k = *pk;
    bool inv = ok_stream_key(k) && link_is(k) && !U.bad_link && *pe >= U.evo0 && U.evo == *pe - U.evo0 && k->packets_per_evolution == U.ppe
        && (U.visits == 0 || G.live == U.live0 + n_stream_key(k));
    if (LOOP_STEP(U.visits)) {
        POST("C05: ratchet loop invariant on entry", inv && *pe <= seq_evo);
        /* arbitrary state satisfying the invariant */
        int64_t l = G.live - n_stream_key(k); U.live0 = l;
        wickr_stream_key_t *n = mk_stream_key_for(CIPHER_AES256_GCM, mk_buffer_opt());
        n->packets_per_evolution = U.ppe;
        G.live = l + n_stream_key(n);
        U.ck = n->cipher_key->key_data->bytes[U.k] = nd_u8(); U.ek = n->evolution_key->bytes[U.k] = nd_u8();
        *pk = n; *pe = nd_range(U.evo0, seq_evo); U.evo = *pe - U.evo0;
    } else {
        POST("C05: ratchet loop invariant preserved", inv && *pe <= seq_evo);
        LOOP_END();
    }
}
#endif

static wickr_stream_ctx_t *mk_ctx(void)
{
    wickr_stream_ctx_t *ctx = mk_mem(sizeof *ctx);
    memset(&ctx->engine, 0, sizeof ctx->engine);
    ctx->engine.wickr_crypto_engine_hmac_create = e_hmac;
    ctx->engine.wickr_crypto_engine_cipher_decrypt = e_dec;
    ctx->engine.wickr_crypto_engine_cipher_encrypt = e_enc;
    ctx->engine.wickr_crypto_engine_crypto_random = e_rand;
    ctx->ref_count = 1; ctx->iv_factory = NULL;
    ctx->direction = nd_bool() ? STREAM_DIRECTION_DECODE : STREAM_DIRECTION_ENCODE;
    ctx->last_seq = nd_u64();
    ctx->key = mk_stream_key_for(CIPHER_AES256_GCM, mk_buffer_opt());
    U.k = nd_range(0, 31); U.ki = nd_range(0, 11); U.ks = nd_range(0, 63);
    if (ctx->direction == STREAM_DIRECTION_ENCODE) {
        wickr_stream_iv_t *iv = mk_mem(sizeof *iv);
        iv->engine = ctx->engine; iv->cipher = CIPHER_AES256_GCM; iv->gen_count = nd_u64(); iv->seed = mk_buffer_len(64);
        ctx->iv_factory = iv; U.count0 = iv->gen_count; U.seed = iv->seed; U.seed_b = iv->seed->bytes[U.ks];
    }
    U.ck = ctx->key->cipher_key->key_data->bytes[U.k]; U.ek = ctx->key->evolution_key->bytes[U.k];
    U.evo = 0; U.bad_link = false; U.ppe = ctx->key->packets_per_evolution; U.last0 = ctx->last_seq; U.evo0 = v_udiv(U.last0, U.ppe);
    U.ctx = ctx; U.visits = 0;
    return ctx;
}
static void free_ctx(wickr_stream_ctx_t *ctx)
{
    wickr_stream_ctx_t *p = ctx;
    wickr_stream_ctx_destroy(&p);
    POST("C25: destroy releases the context", p == NULL);
}

void harness(void)
{
    memset(&U, 0, sizeof U);
#if defined(H_DECODE) || defined(H_ENCODE)
    wickr_stream_ctx_t *ctx = mk_ctx();
    wickr_stream_key_t *key0 = ctx->key; wickr_stream_direction dir = ctx->direction;
    int64_t live_ctx = G.live;
    U.aad = mk_buffer_opt();
    U.seq = nd_u64();
#ifndef __CPROVER
    if (!nd_bool()) U.seq = ctx->last_seq + nd_range(0, 400); else if (v_udiv(U.seq, U.ppe) - v_udiv(U.last0, U.ppe) > 100000) U.seq = U.last0 + U.seq % 5000;
#endif
    v_udiv_lemmas(U.seq, U.last0, U.ppe);
#endif
#ifdef H_DECODE
    U.in = nd_bool() ? NULL : mk_cipher_result();
    int64_t live_in = G.live - live_ctx;
    v_inject = V_INJ;
    wickr_buffer_t *r = wickr_stream_ctx_decode(ctx, U.in, U.aad, U.seq);
    v_inject = false;
    POST("C04: decode only moves the sequence forward and only in a decode context", !r || (U.seq > U.last0 && dir == STREAM_DIRECTION_DECODE));
    POST("C04: decode returns exactly what one authenticated decryption under the current key returned", !r || (U.decs == 1 && U.args_ok && r == U.out));
    POST("C04: a replayed or reordered number never reaches the cipher", (U.seq > U.last0 && dir == STREAM_DIRECTION_DECODE) || U.decs == 0);
    POST("C04: the sequence number is remembered", r ? ctx->last_seq == U.seq : (ctx->last_seq == U.last0 || (ctx->last_seq == U.seq && U.seq > U.last0)));
    POST("C04: a fresh packet is accepted when nothing fails", r || U.fail_engine || G.alloc_failed || !U.in || dir != STREAM_DIRECTION_DECODE || U.seq <= U.last0);
    POST("C05: every derived link is HMAC-SHA512(key, evolution key) of the previous one", !U.bad_link);
    POST("C05: a packet is processed under link seq/ppe of the chain", U.decs == 0 || U.evo == v_udiv(U.seq, U.ppe) - v_udiv(U.last0, U.ppe));
    POST("C05: the context keeps the key of its last number", ok_stream_key(ctx->key) && ctx->key->packets_per_evolution == U.ppe
        && (ctx->last_seq != U.seq || U.decs == 0 || (link_is(ctx->key) && U.evo == v_udiv(U.seq, U.ppe) - v_udiv(U.last0, U.ppe))));
    POST("C05: a refused packet leaves the key alone", U.decs != 0 || ctx->key == key0);
    REACH("decoded", r != NULL);
    REACH("decoded after a ratchet step", r != NULL && U.evo >= 1);
    REACH_OPT("refused", r == NULL);
    int64_t outn = r ? 2 : 0;
#endif
#ifdef H_ENCODE
    U.data = mk_buffer_opt();
    int64_t live_in = G.live - live_ctx;
    v_inject = V_INJ;
    wickr_cipher_result_t *r = wickr_stream_ctx_encode(ctx, U.data, U.aad, U.seq);
    v_inject = false;
    POST("C04: encode only moves the sequence forward and only in an encode context", U.encs == 0 || (U.seq > U.last0 && dir == STREAM_DIRECTION_ENCODE));
    POST("C04: encode encrypts data and aad exactly once under the current key", !r || (U.encs == 1 && U.args_ok && r == U.out));
    POST("C04: the sequence number is consumed by an encryption", U.encs ? ctx->last_seq == U.seq : ctx->last_seq == U.last0);
    POST("C04: a fresh number is encoded when nothing fails", r || U.fail_engine || G.alloc_failed || !U.data || dir != STREAM_DIRECTION_ENCODE || U.seq <= U.last0);
    POST("C05: every derived link is HMAC-SHA512(key, evolution key) of the previous one", !U.bad_link);
    POST("C05: a packet is processed under link seq/ppe of the chain", U.encs == 0 || U.evo == v_udiv(U.seq, U.ppe) - v_udiv(U.last0, U.ppe));
    POST("C05: the context keeps the key of its last number", ok_stream_key(ctx->key) && ctx->key->packets_per_evolution == U.ppe
        && (U.encs == 0 || link_is(ctx->key)));
    POST("C05: a refused packet leaves the key alone", U.encs != 0 || ctx->key == key0);
    POST("C06: an encryption uses an IV derived from the current counter and seed", U.encs == 0 || (U.ivs == 1 && U.iv_args_ok && U.args_ok));
    POST("C06: the counter of a used IV is never used again", dir != STREAM_DIRECTION_ENCODE || (ctx->iv_factory->gen_count == U.count0 + 1) || (U.encs == 0 && ctx->iv_factory->gen_count == U.count0));
    POST("C06: the seed and the IV cipher stay the same", dir != STREAM_DIRECTION_ENCODE || (ctx->iv_factory->seed == U.seed && U.seed->length == 64 && U.seed->bytes[U.ks] == U.seed_b && ctx->iv_factory->cipher.iv_len == 12));
    REACH("encoded", r != NULL);
    REACH("encoded after a ratchet step", r != NULL && U.evo >= 1);
    REACH_OPT("refused", r == NULL);
    int64_t outn = r ? 5 + (r->cipher_text ? 2 : 0) : 0;
#endif
#if defined(H_DECODE) || defined(H_ENCODE)
    POST("C04: the context keeps its direction", ctx->direction == dir);
    U.ctx = NULL;
    free_ctx(ctx);
    POST("C25: no leak", G.live == live_in + outn);
#endif
#ifdef H_CREATE
    wickr_crypto_engine_t e; memset(&e, 0, sizeof e);
    e.wickr_crypto_engine_hmac_create = e_hmac; e.wickr_crypto_engine_crypto_random = e_rand;
    wickr_stream_key_t *key = nd_bool() ? NULL : mk_stream_key_for(mk_cipher(), mk_buffer_opt());
    wickr_stream_direction d = nd_bool() ? STREAM_DIRECTION_DECODE : STREAM_DIRECTION_ENCODE;
    U.live0 = G.live; v_inject = true;
    wickr_stream_ctx_t *c = wickr_stream_ctx_create(e, key, d);
    v_inject = false;
    POST("C04: streams exist only over authenticated ciphers", !c || (key && key->cipher_key->cipher.is_authenticated));
    POST("C04: a new context starts at sequence 0 in its direction with its key", !c || (c->last_seq == 0 && c->direction == d && c->key == key && c->ref_count == 1));
    POST("C06: an encoder has an IV factory at counter 0 for the cipher of its key", !c || d != STREAM_DIRECTION_ENCODE ||
        (c->iv_factory && c->iv_factory->gen_count == 0 && c->iv_factory->seed && c->iv_factory->seed->length == 64 && same_cipher(&c->iv_factory->cipher, &key->cipher_key->cipher)));
    POST("C04: creation succeeds when nothing fails", c || G.alloc_failed || U.fail_engine || !key || !key->cipher_key->cipher.is_authenticated);
    POST("C25: stream_ctx_create leaks nothing when it fails", c || G.live == U.live0);
    REACH("created encoder", c && d == STREAM_DIRECTION_ENCODE);
    REACH("created decoder", c && d == STREAM_DIRECTION_DECODE);
    if (c) { int64_t nk = n_stream_key(key); free_ctx(c); POST("C25: no leak after destroy", G.live == U.live0 - nk); }
#endif
#ifdef H_COPY
    wickr_stream_ctx_t *ctx = mk_ctx(); ctx->ref_count = nd_range(1, SIZE_MAX);
    U.live0 = G.live; v_inject = true;
    wickr_stream_ctx_t *c = wickr_stream_ctx_copy(ctx);
    v_inject = false;
    POST("C21: the copy carries the state of the original", !c || (c->last_seq == ctx->last_seq && c->direction == ctx->direction && c->ref_count == 1 && ok_stream_key(c->key)
        && link_is(c->key) && c->key->packets_per_evolution == U.ppe && same_bytes_at(c->key->user_data, ctx->key->user_data, U.ks)));
    POST("C21: the copy owns its own key material", !c || (c->key != ctx->key && c->key->cipher_key != ctx->key->cipher_key && c->key->cipher_key->key_data != ctx->key->cipher_key->key_data
        && c->key->cipher_key->key_data->bytes != ctx->key->cipher_key->key_data->bytes && c->key->evolution_key != ctx->key->evolution_key && c->key->evolution_key->bytes != ctx->key->evolution_key->bytes));
    POST("C21: the copy of an encoder has its own IV factory with the same counter and seed", !c || ctx->direction != STREAM_DIRECTION_ENCODE ||
        (c->iv_factory && c->iv_factory != ctx->iv_factory && c->iv_factory->gen_count == ctx->iv_factory->gen_count && same_bytes_at(c->iv_factory->seed, ctx->iv_factory->seed, U.ks) && c->iv_factory->seed != ctx->iv_factory->seed));
    POST("C21: copying succeeds when no allocation fails", c || G.alloc_failed);
    POST("C25: stream_ctx_copy leaks nothing when it fails", c || G.live == U.live0);
    REACH("copied", c != NULL);
    int64_t l1 = U.live0;
    if (c) { free_ctx(c); POST("C25: no leak after destroying the copy", G.live == l1); }
    wickr_stream_ctx_t *p = ctx; size_t rc = ctx->ref_count;
    bool up = wickr_stream_ctx_ref_up(ctx);
    POST("C04: a reference is added unless the counter would wrap", up ? ctx->ref_count == rc + 1 : rc == SIZE_MAX && ctx->ref_count == rc);
    wickr_stream_ctx_destroy(&p);
    POST("C25: a shared context survives the release of one reference", (p == NULL) == (!up && rc == 1));
#endif
}
