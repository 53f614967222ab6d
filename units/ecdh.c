/* Contracts of ecdh_cipher_ctx.c */
#include "gen_kex.h"
#include "ecdh_cipher_ctx.h"
#include "kdf.h"

static struct {
    size_t k; bool engine_failed; wickr_cipher_t cipher;
    unsigned agrees; const void *agree_local, *agree_remote; wickr_buffer_t *secret, *hash; uint8_t hash_byte;
    unsigned kdfs; bool kdf_args; const wickr_kdf_meta_t *params; uint8_t want_len;
    unsigned cipher_ops; bool key_ok, op_args; const void *op_in; wickr_cipher_result_t *enc; wickr_buffer_t *dec; const void *rand_key; wickr_ec_curve_t rand_curve;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); }
static wickr_buffer_t *e_agree(const wickr_ec_key_t *local, const wickr_ec_key_t *remote)
{
    U.agrees++; U.agree_local = local; U.agree_remote = remote;
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    U.secret = mk_buffer_range(1, 200);
    G.watch = U.secret->bytes; G.watch_len = U.secret->length; G.watch_k = U.k;
    return U.secret;
}
/* contract of the key derivation (kdf.c): NULL or output_size bytes */
wickr_kdf_result_t *wickr_perform_kdf_meta(const wickr_kdf_meta_t *m, const wickr_buffer_t *pass)
{
    U.kdfs++;
    U.kdf_args = pass == U.secret && m->algo.algo_id == U.params->algo.algo_id && m->algo.kdf_id == U.params->algo.kdf_id && m->algo.salt_size == U.params->algo.salt_size && m->algo.cost == U.params->algo.cost
        && m->algo.output_size == U.want_len && m->salt == U.params->salt && m->info == U.params->info;
    if (nd_bool() || m->algo.output_size == 0) { U.engine_failed = true; return NULL; }
    wickr_kdf_result_t *r = mk_mem(sizeof *r);
    r->meta = NULL; r->hash = U.hash = mk_buffer_len(m->algo.output_size); if (U.k < r->hash->length) U.hash_byte = r->hash->bytes[U.k];
    return r;
}
void wickr_kdf_result_destroy(wickr_kdf_result_t **r)
{
    if (!r || !*r) return;
    wickr_buffer_destroy_zero(&(*r)->hash); v_free(*r); *r = NULL;
}
static bool key_ok(const wickr_cipher_key_t *key) { return same_cipher(&key->cipher, &U.cipher) && key->key_data->length == U.cipher.key_len && (U.k >= key->key_data->length || key->key_data->bytes[U.k] == U.hash_byte); }
static void watch_key(const wickr_cipher_key_t *key) { POST("C16: the shared secret is wiped", G.watch_freed && !G.watch_dirty); G.watch = key->key_data->bytes; G.watch_len = key->key_data->length; G.watch_freed = false; }
static wickr_cipher_result_t *e_encrypt(const wickr_buffer_t *p, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, const wickr_buffer_t *iv)
{
    U.cipher_ops++; U.op_in = p; U.op_args = !aad && !iv; U.key_ok = key_ok(key); watch_key(key);
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    return U.enc = mk_cipher_result_for(U.cipher);
}
static wickr_buffer_t *e_decrypt(const wickr_cipher_result_t *c, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, bool only_auth)
{
    U.cipher_ops++; U.op_in = c; U.op_args = !aad && (only_auth || !U.cipher.is_authenticated || c->cipher.is_authenticated); U.key_ok = key_ok(key); watch_key(key);
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    return U.dec = mk_buffer();
}
static wickr_ec_key_t *e_rand_key(wickr_ec_curve_t c) { U.rand_curve = c; if (nd_bool()) { U.engine_failed = true; return NULL; } wickr_ec_key_t *k = mk_ec_key_pair(); U.rand_key = k; return k; }
static wickr_kdf_meta_t *mk_kdf(void)
{
    wickr_kdf_meta_t *m = mk_mem(sizeof *m);
    uint64_t c = nd_range(0, 4);
    m->algo = c == 0 ? KDF_HKDF_SHA256 : c == 1 ? KDF_HKDF_SHA384 : c == 2 ? KDF_HKDF_SHA512 : c == 3 ? KDF_SCRYPT_2_17 : KDF_BCRYPT_15;
    m->salt = mk_buffer_opt(); m->info = mk_buffer_opt();
    return m;
}
void harness(void)
{
    memset(&U, 0, sizeof U); U.k = nd_u64(); int64_t l0;
    wickr_crypto_engine_t eng; memset(&eng, 0, sizeof eng);
    eng.wickr_crypto_engine_cipher_encrypt = e_encrypt; eng.wickr_crypto_engine_cipher_decrypt = e_decrypt; eng.wickr_crypto_engine_gen_shared_secret = e_agree; eng.wickr_crypto_engine_ec_rand_key = e_rand_key;
    U.cipher = mk_cipher(); U.want_len = U.cipher.key_len;
    wickr_ecdh_cipher_ctx_t ctx = { eng, mk_ec_key_pair(), U.cipher };
    wickr_ec_key_t *remote = nd_bool() ? NULL : mk_ec_key_pub();
    wickr_kdf_meta_t *kdf = mk_kdf(); U.params = kdf; wickr_kdf_meta_t kdf0 = *kdf;
#ifdef H_CIPHER
    wickr_buffer_t *p = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_cipher_result_t *r = wickr_ecdh_cipher_ctx_cipher(nd_bool() ? NULL : &ctx, p, remote, nd_bool() ? NULL : kdf);
    v_inject = false;
    POST("C10: the data is encrypted under a key derived from the secret shared by the local and the remote key, with the given salt, info and hash", !r || (p && remote && r == U.enc && U.op_in == p && U.op_args && U.cipher_ops == 1
        && U.agrees == 1 && U.agree_local == ctx.local_key && U.agree_remote == remote && U.kdfs == 1 && U.kdf_args && U.key_ok));
    POST("C25: ecdh_cipher_ctx_cipher leaks nothing", G.live == l0 + n_cipher_result(r));
    REACH("encrypted", r);
#endif
#ifdef H_DECIPHER
    wickr_cipher_result_t *c = nd_bool() ? NULL : mk_cipher_result();
    l0 = G.live; v_inject = true;
    wickr_buffer_t *r = wickr_ecdh_cipher_ctx_decipher(nd_bool() ? NULL : &ctx, c, remote, nd_bool() ? NULL : kdf);
    v_inject = false;
    POST("C10: the data is decrypted under a key derived from the secret shared by the local and the remote key, with the given salt, info and hash", !r || (c && remote && r == U.dec && U.op_in == c && U.op_args && U.cipher_ops == 1
        && U.agrees == 1 && U.agree_local == ctx.local_key && U.agree_remote == remote && U.kdfs == 1 && U.kdf_args && U.key_ok));
    POST("C10: only data encrypted with the cipher expected is decrypted", U.cipher_ops == 0 || c->cipher.cipher_id == U.cipher.cipher_id);
    POST("C25: ecdh_cipher_ctx_decipher leaks nothing", G.live == l0 + (r ? 2 : 0));
    REACH("decrypted", r);
#endif
#if defined(H_CIPHER) || defined(H_DECIPHER)
    POST("C16: the shared secret and the derived key are wiped", !G.watch || (G.watch_freed && !G.watch_dirty));
    POST("C10: only HKDF is used with a shared secret", U.kdfs == 0 || kdf0.algo.algo_id == KDF_HMAC_SHA2);
    POST("C10: the parameters are not changed", kdf->algo.output_size == kdf0.algo.output_size && kdf->salt == kdf0.salt && kdf->info == kdf0.info && kdf->algo.kdf_id == kdf0.algo.kdf_id);
#endif
#ifdef H_CTX
    wickr_ec_key_t *key = nd_bool() ? NULL : mk_ec_key();
    l0 = G.live; v_inject = true;
    wickr_ecdh_cipher_ctx_t *s = wickr_ecdh_cipher_ctx_create_key(eng, key, U.cipher);
    v_inject = false;
    POST("C10: a context consists of the parts given", !s || (key && s->local_key == key && same_cipher(&s->cipher, &U.cipher) && s->engine.wickr_crypto_engine_gen_shared_secret == e_agree));
    POST("C25: ecdh_cipher_ctx_create_key leaks nothing", G.live == l0 + (s ? 1 : 0));
    l0 = G.live; v_inject = true;
    wickr_ecdh_cipher_ctx_t *c = wickr_ecdh_cipher_ctx_copy(s);
    v_inject = false;
    POST("C21: a copy of a key agreement context is complete and separate", !c || (s && c != s && same_ec_key(c->local_key, s->local_key, U.k) && apart_ec_key(c->local_key, s->local_key) && same_cipher(&c->cipher, &s->cipher) && c->engine.wickr_crypto_engine_gen_shared_secret == e_agree));
    POST("C21: copying succeeds", c || !s || G.alloc_failed);
    POST("C25: ecdh_cipher_ctx_copy leaks nothing", G.live == l0 + (c ? 1 + n_ec_key(c->local_key) : 0));
    REACH("copied", c);
    if (c) {
        wickr_buffer_t *pri = c->local_key->pri_data;
        if (pri) { G.watch = pri->bytes; G.watch_len = pri->length; G.watch_k = U.k; }
        wickr_ecdh_cipher_ctx_destroy(&c);
        POST("C25: ecdh_cipher_ctx_destroy releases everything", !c && G.live == l0);
        POST("C16: the private key of a key agreement context is wiped", !G.watch || (G.watch_freed && !G.watch_dirty));
    }
    l0 = G.live; v_inject = true;
    wickr_ecdh_cipher_ctx_t *g = wickr_ecdh_cipher_ctx_create(eng, EC_CURVE_NIST_P521, U.cipher);
    v_inject = false;
    POST("C10: a new context has a fresh key on the curve asked for", !g || (g->local_key == U.rand_key && same_curve(&U.rand_curve, &EC_CURVE_NIST_P521) && same_cipher(&g->cipher, &U.cipher)));
    POST("C25: ecdh_cipher_ctx_create leaks nothing", G.live == l0 + (g ? 1 + n_ec_key(g->local_key) : 0));
    REACH("created", g);
#endif
}
