/* Contracts of kdf.c and of the passphrase functions of crypto_engine.c. scrypt, bcrypt and HKDF themselves are trusted
   to be functions of exactly the bytes they are given (openssl_hkdf: unit openssl_hkdf). */
#include "gen.h"
#include "kdf.h"
#include "crypto_engine.h"
#include "libscrypt.h"
#include "ow-crypt.h"
#include "openssl_suite.h"

/* the parameters of the algorithms, as published (README and kdf.h): scrypt with N = 2^17..2^20, r = 8, p = 1 */
static struct {
    size_t k; bool failed;
    wickr_buffer_t *pass; unsigned prims; bool prim_ok; uint8_t prim_byte; size_t prim_len; const wickr_buffer_t *prim_is; bool prim_failed;
    const wickr_buffer_t *salt; const wickr_buffer_t *info; wickr_kdf_algo_t algo;
    unsigned gens; bool gen_ok; uint8_t hash_byte; uint8_t salt_byte, salt_k;
    const wickr_buffer_t *value; unsigned encs, decs; bool enc_ok, dec_ok; wickr_cipher_result_t *cr; wickr_cipher_t cipher; unsigned sers, parses; bool ser_ok, parse_ok; size_t ser_len; uint8_t ser_byte, ser_k; wickr_buffer_t *plain; uint8_t plain_byte; bool rt;
    unsigned salts; bool salt_ok; wickr_buffer_t *salt_is; bool watch_pass;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); }
static bool nd_ok(void) { if (nd_fail()) { U.failed = true; return false; } return true; }
static bool same_algo(const wickr_kdf_algo_t *a, const wickr_kdf_algo_t *b) { return a->algo_id == b->algo_id && a->kdf_id == b->kdf_id && a->salt_size == b->salt_size && a->output_size == b->output_size && a->cost == b->cost; }
static wickr_kdf_algo_t mk_algo(void)
{
    switch (nd_range(0, 8)) {
        case 0: return KDF_SCRYPT_2_17; case 1: return KDF_SCRYPT_2_18; case 2: return KDF_SCRYPT_2_19; case 3: return KDF_SCRYPT_2_20; case 4: return KDF_BCRYPT_15;
        case 5: return KDF_HKDF_SHA256; case 6: return KDF_HKDF_SHA384; case 7: return KDF_HKDF_SHA512;
    }
    wickr_kdf_algo_t a = KDF_HKDF_SHA512_EXPAND; a.output_size = (uint8_t)nd_range(1, 255); return a;
}
static wickr_kdf_meta_t *mk_meta(void)
{
    wickr_kdf_meta_t *m = mk_mem(sizeof *m);
    m->algo = mk_algo(); m->salt = NULL; m->info = NULL;
    if (m->algo.algo_id == KDF_HMAC_SHA2) { m->salt = mk_buffer_opt(); m->info = m->salt ? mk_buffer_opt() : mk_buffer(); }
    else { m->salt = mk_buffer_len(m->algo.salt_size); m->info = mk_buffer_opt(); }
    return m;
}
static int64_t n_meta(const wickr_kdf_meta_t *m) { return m ? 1 + (m->salt ? 2 : 0) + (m->info ? 2 : 0) : 0; }
static int64_t n_result(const wickr_kdf_result_t *r) { return r ? 3 + n_meta(r->meta) : 0; }
static bool same_meta(const wickr_kdf_meta_t *a, const wickr_kdf_meta_t *b) { return same_algo(&a->algo, &b->algo) && same_bytes_at(a->salt, b->salt, U.k) && same_bytes_at(a->info, b->info, U.k); }
static bool apart_b(const wickr_buffer_t *a, const wickr_buffer_t *b) { return !a || !b || (a != b && a->bytes != b->bytes); }
static bool apart_meta(const wickr_kdf_meta_t *a, const wickr_kdf_meta_t *b) { return a != b && apart_b(a->salt, b->salt) && apart_b(a->info, b->info); }
static void watch(const wickr_buffer_t *b) { G.watch = b->bytes; G.watch_len = b->length; G.watch_k = U.k; G.watch_freed = G.watch_dirty = false; }
#define WIPED (G.watch_freed && !G.watch_dirty)
#define PRE_BCRYPT "$2y$15$"

/* ---- primitives ---- */
int libscrypt_scrypt(const uint8_t *pw, size_t pl, const uint8_t *s, size_t sl, uint64_t N, uint32_t r, uint32_t p, uint8_t *out, size_t n)
{
    uint32_t lg = U.algo.kdf_id == KDF_ID_SCRYPT_17 ? 17 : U.algo.kdf_id == KDF_ID_SCRYPT_18 ? 18 : U.algo.kdf_id == KDF_ID_SCRYPT_19 ? 19 : 20;
    U.prims++;
    U.prim_ok = U.algo.algo_id == KDF_SCRYPT && U.pass && pw == U.pass->bytes && pl == U.pass->length && U.salt && s == U.salt->bytes && sl == U.salt->length && N == (uint64_t)1 << lg && r == 8 && p == 1 && n == 32 && RW_OK(out, n);
    U.prim_byte = nd_u8(); U.prim_len = n;
    NATIVE_ONLY(memset(out, U.prim_byte, n);)
    if (U.k < n) out[U.k] = U.prim_byte;
    if (!nd_ok()) { U.prim_failed = true; return -1; }
    return 0;
}
char *crypt_rn(const char *key, const char *setting, void *data, int size)
{
    char *out = data;
    U.prims++;
    /* the key is the passphrase as a C string, the setting the header followed by the salt */
    U.prim_ok = U.algo.algo_id == KDF_BCRYPT && U.pass && RW_OK(key, U.pass->length + 1) && key[U.pass->length] == 0 && (U.k >= U.pass->length || key[U.k] == (char)U.pass->bytes[U.k])
        && memcmp(setting, PRE_BCRYPT, 7) == 0 && setting[29] == 0 && U.salt && U.salt->length == 22 && (U.k >= 22 || setting[7 + U.k] == (char)U.salt->bytes[U.k]) && size >= 61;
    G.watch = key; G.watch_len = U.pass ? U.pass->length + 1 : 0; G.watch_k = U.k; G.watch_freed = G.watch_dirty = false; U.watch_pass = true;
    if (!nd_ok()) { U.prim_failed = true; return NULL; }
    U.prim_byte = (uint8_t)nd_range(1, 127); U.prim_len = 60;
    for (int i = 0; i < 60; i++) out[i] = (char)U.prim_byte;
    out[60] = 0;
    return out;
}
char *crypt_gensalt_rn(const char *prefix, unsigned long count, const char *input, int size, char *output, int n)
{
    U.salts++;
    U.salt_ok = memcmp(prefix, "$2y$", 4) == 0 && count == 15 && size == 16 && R_OK(input, 16) && n >= 30;
    if (!nd_ok()) return NULL;
    for (int i = 0; i < 29 && i < n; i++) output[i] = i < 7 ? PRE_BCRYPT[i] : 'a';
    if (29 < n) output[29] = 0;
    return output;
}
wickr_buffer_t *openssl_crypto_random(size_t n)
{
    U.salts++; U.salt_ok = n == (U.algo.algo_id == KDF_BCRYPT ? 16 : U.algo.salt_size);
    if (n == 0 || !nd_ok()) return NULL;
    return U.salt_is = mk_buffer_len(n);
}
static wickr_buffer_t *hkdf_out(size_t n)
{
    if (n == 0 || !nd_ok()) { U.prim_failed = true; return NULL; }
    wickr_buffer_t *b = mk_buffer_len(n); U.prim_is = b; U.prim_len = n; if (U.k < n) U.prim_byte = b->bytes[U.k]; return b;
}
static bool hkdf_digest(const wickr_digest_t *d) { return d->digest_id == (U.algo.kdf_id == KDF_ID_HKDF_SHA256 ? DIGEST_ID_SHA256 : U.algo.kdf_id == KDF_ID_HKDF_SHA384 ? DIGEST_ID_SHA384 : DIGEST_ID_SHA512); }
wickr_buffer_t *openssl_hkdf(const wickr_buffer_t *in, const wickr_buffer_t *salt, const wickr_buffer_t *info, wickr_digest_t d)
{
    U.prims++;
    U.prim_ok = U.algo.algo_id == KDF_HMAC_SHA2 && U.algo.kdf_id != KDF_ID_HKDF_SHA512_EXPAND && in && in == U.pass && salt == U.salt && info == U.info && hkdf_digest(&d) && d.size == U.algo.output_size;
    return hkdf_out(d.size);
}
wickr_buffer_t *openssl_hkdf_expand(const wickr_buffer_t *in, const wickr_buffer_t *info, wickr_digest_t d, size_t n)
{
    U.prims++;
    U.prim_ok = U.algo.kdf_id == KDF_ID_HKDF_SHA512_EXPAND && in && in == U.pass && info == U.info && hkdf_digest(&d) && n == U.algo.output_size;
    return hkdf_out(n);
}

/* ---- engine, for the passphrase functions ---- */
static wickr_kdf_result_t *mk_result(const wickr_kdf_algo_t *a, const wickr_buffer_t *salt)
{
    wickr_kdf_result_t *r = mk_mem(sizeof *r);
    r->meta = mk_mem(sizeof *r->meta); r->meta->algo = *a; r->meta->info = NULL; r->meta->salt = mk_buffer_len(a->salt_size);
    r->hash = mk_buffer_len(a->algo_id == KDF_BCRYPT ? 60 : a->output_size);
    (void)salt;
    return r;
}
static wickr_kdf_result_t *e_gen(wickr_kdf_algo_t a, const wickr_buffer_t *p)
{
    U.gens++; U.gen_ok = same_algo(&a, &U.algo) && p && p == U.pass;
    if (!p || !nd_ok()) return NULL;
    wickr_kdf_result_t *r = mk_result(&a, NULL);
    if (U.k < r->hash->length) U.hash_byte = r->hash->bytes[U.k];
    if (U.k < r->meta->salt->length) U.salt_byte = r->meta->salt->bytes[U.k];
    watch(r->hash);
    return r;
}
static wickr_kdf_result_t *e_meta(const wickr_kdf_meta_t *m, const wickr_buffer_t *p)
{
    U.gens++;
    U.gen_ok = m && same_algo(&m->algo, &U.algo) && m->salt && m->salt->length == m->algo.salt_size && !m->info && (U.k >= m->salt->length || m->salt->bytes[U.k] == U.salt_byte) && p && p == U.pass;
    if (!m || !p || !nd_ok()) return NULL;
    wickr_kdf_result_t *r = mk_result(&m->algo, m->salt);
    /* deriving is a function of the algorithm, the salt and the passphrase */
    if (U.rt && U.k < r->hash->length) r->hash->bytes[U.k] = U.hash_byte;
    if (U.k < r->hash->length) U.hash_byte = r->hash->bytes[U.k];
    watch(r->hash);
    return r;
}
static wickr_cipher_result_t *e_encrypt(const wickr_buffer_t *v, const wickr_buffer_t *aad, const wickr_cipher_key_t *k, const wickr_buffer_t *iv)
{
    U.encs++;
    U.enc_ok = v && v == U.value && !aad && !iv && k && same_cipher(&k->cipher, &U.cipher) && k->key_data && k->key_data->length == U.cipher.key_len && (U.k >= k->key_data->length || k->key_data->bytes[U.k] == U.hash_byte);
    if (!v || !nd_ok()) return NULL;
    return U.cr = mk_cipher_result_for(U.cipher);
}
static wickr_buffer_t *e_decrypt(const wickr_cipher_result_t *c, const wickr_buffer_t *aad, const wickr_cipher_key_t *k, bool auth)
{
    U.decs++;
    U.dec_ok = c && c == U.cr && !aad && auth && k && same_cipher(&k->cipher, &c->cipher) && k->key_data && k->key_data->length == c->cipher.key_len && (U.k >= k->key_data->length || k->key_data->bytes[U.k] == U.hash_byte);
    if (k && k->key_data) watch(k->key_data);
    if (!c || !nd_ok()) return NULL;
    U.plain = mk_buffer(); if (U.k < U.plain->length) U.plain_byte = U.plain->bytes[U.k];
    return U.plain;
}
#if defined(H_CIPHER) || defined(H_DECIPHER) || defined(H_RT)
wickr_buffer_t *wickr_cipher_result_serialize(const wickr_cipher_result_t *c)
{
    U.sers++; U.ser_ok = c && c == U.cr;
    if (!c || !nd_ok()) return NULL;
    wickr_buffer_t *b = mk_buffer(); U.ser_len = b->length; if (U.k < b->length) U.ser_byte = b->bytes[U.k];
    return b;
}
wickr_cipher_result_t *wickr_cipher_result_from_buffer(const wickr_buffer_t *b)
{
    U.parses++; U.parse_ok = b && b->length == U.ser_len && (U.k >= b->length || b->bytes[U.k] == U.ser_byte);
    if (!b || !nd_ok()) return NULL;
    return U.cr = mk_cipher_result_for(U.rt ? U.cipher : mk_cipher());
}
#endif

void harness(void)
{
    v_unit_reset(); U.k = nd_u64(); int64_t l0;
#ifdef H_META
    wickr_kdf_algo_t a = mk_algo(); wickr_buffer_t *salt = mk_buffer_opt(), *info = mk_buffer_opt();
    if (salt && nd_bool()) { v_free(salt->bytes); salt->length = a.salt_size; salt->bytes = mk_mem(a.salt_size); }
    bool ok = a.algo_id == KDF_HMAC_SHA2 ? salt || info : salt && salt->length == a.salt_size;
    l0 = G.live; v_inject = true;
    wickr_kdf_meta_t *m = wickr_kdf_meta_create(a, salt, info);
    v_inject = false;
    POST("C17: derivation parameters hold a salt of the size the algorithm requires", !m || (ok && same_algo(&m->algo, &a) && m->salt == salt && m->info == info));
    POST("C25: kdf_meta_create fails only without memory", m || !ok || G.alloc_failed);
    POST("C25: kdf_meta_create leaks nothing", G.live == l0 + (m ? 1 : 0));
    REACH("parameters", m);
    if (m) {
        /* what is recorded is the algorithm and the salt, and reading it gives both back */
        wickr_buffer_t *s; G.alloc_failed = false; l0 = G.live; v_inject = true;
        s = wickr_kdf_meta_serialize(m);
        v_inject = false;
        POST("C17: the record holds the identifier of the algorithm, then the salt", !s || (salt && s->length == 1 + salt->length && s->bytes[0] == (uint8_t)a.kdf_id && (U.k >= salt->length || s->bytes[1 + U.k] == salt->bytes[U.k])));
        POST("C25: kdf_meta_serialize fails only without memory", s || !salt || G.alloc_failed || salt->length >= MAX_BUFFER_SIZE);
        POST("C25: kdf_meta_serialize leaks nothing", G.live == l0 + (s ? 2 : 0));
        if (s && a.algo_id != KDF_HMAC_SHA2) {
            POST("C17: the size of the record is known from its first byte", wickr_kdf_meta_size_with_buffer(s) == s->length);
            G.alloc_failed = false; l0 = G.live; v_inject = true;
            wickr_kdf_meta_t *n = wickr_kdf_meta_create_with_buffer(s);
            v_inject = false;
            POST("C17: reading the record gives the algorithm and the salt back", !n || (same_algo(&n->algo, &a) && same_bytes_at(n->salt, salt, U.k) && !n->info));
            POST("C25: kdf_meta_create_with_buffer fails only without memory", n || G.alloc_failed);
            POST("C25: kdf_meta_create_with_buffer leaks nothing", G.live == l0 + n_meta(n));
            REACH("read back", n);
            if (n) { watch(n->salt); wickr_kdf_meta_destroy(&n); POST("C16: the salt is wiped", WIPED); }
        }
    }
#endif
#ifdef H_PARSE
    wickr_buffer_t *b = nd_bool() ? NULL : mk_buffer();
    uint8_t id = b ? b->bytes[0] : 0; size_t n = id >= 1 && id <= 4 ? 16 : id == 5 ? 22 : 0; size_t want = b && b->length > 1 && n ? n + 1 : 0;
    POST("C17: the size of a record is the one of its algorithm", wickr_kdf_meta_size_with_buffer(b) == want);
    l0 = G.live; v_inject = true;
    wickr_kdf_meta_t *m = wickr_kdf_meta_create_with_buffer(b);
    v_inject = false;
    POST("C17: only a complete record of a known algorithm is read", !m || (want && b->length >= want));
    POST("C17: the record read holds a known algorithm with its parameters", !m || (same_algo(&m->algo, id == 1 ? &KDF_SCRYPT_2_17 : id == 2 ? &KDF_SCRYPT_2_18 : id == 3 ? &KDF_SCRYPT_2_19 : id == 4 ? &KDF_SCRYPT_2_20 : &KDF_BCRYPT_15)
        && m->salt && m->salt->length == n && (U.k >= n || m->salt->bytes[U.k] == b->bytes[1 + U.k]) && !m->info));
    POST("C25: kdf_meta_create_with_buffer fails only without memory", m || !want || b->length < want || G.alloc_failed);
    POST("C25: kdf_meta_create_with_buffer leaks nothing", G.live == l0 + n_meta(m));
    REACH("read", m);
#endif
#ifdef H_EXPAND
    wickr_digest_t d = mk_digest(); wickr_buffer_t *info = mk_buffer_opt(); size_t n = nd_bool() ? nd_u64() : nd_range(0, 300); bool given = nd_bool();
    l0 = G.live; v_inject = true;
    wickr_kdf_meta_t *m = wickr_kdf_meta_create_hkdf_expand(given ? &d : NULL, info, n);
    v_inject = false;
    POST("C19: the parameters record the output size asked for", !m || (m->algo.output_size == n && m->algo.kdf_id == KDF_ID_HKDF_SHA512_EXPAND && m->algo.algo_id == KDF_HMAC_SHA2 && m->info == info && !m->salt && given && d.digest_id == DIGEST_ID_SHA512));
    POST("C25: hkdf parameters fail only without memory", m || !given || !info || d.digest_id != DIGEST_ID_SHA512 || n > 255 || G.alloc_failed);
    POST("C25: hkdf parameters leak nothing", G.live == l0 + (m ? 1 : 0));
    REACH("expand", m);
    const wickr_kdf_algo_t *h = wickr_hkdf_algo_for_digest(d);
    POST("C19: the derivation matches the hash", h && h->algo_id == KDF_HMAC_SHA2 && h->output_size == d.size && h->kdf_id == (d.digest_id == DIGEST_ID_SHA256 ? KDF_ID_HKDF_SHA256 : d.digest_id == DIGEST_ID_SHA384 ? KDF_ID_HKDF_SHA384 : KDF_ID_HKDF_SHA512));
#endif
#ifdef H_COPY
    wickr_kdf_result_t *r = mk_mem(sizeof *r); r->meta = mk_meta(); r->hash = mk_buffer();
    l0 = G.live; v_inject = true;
    wickr_kdf_result_t *c = wickr_kdf_result_copy(r);
    v_inject = false;
    POST("C21: the copy of a derivation result is equal and shares nothing", !c || (same_meta(c->meta, r->meta) && apart_meta(c->meta, r->meta) && same_bytes_at(c->hash, r->hash, U.k) && apart_b(c->hash, r->hash)));
    POST("C25: kdf_result_copy fails only without memory", c || G.alloc_failed);
    POST("C25: kdf_result_copy leaks nothing", G.live == l0 + n_result(c));
    REACH("copy", c);
    watch(r->hash);
    wickr_kdf_result_destroy(&r);
    POST("C16: the derived key is wiped", WIPED && !r);
    if (c) { wickr_kdf_result_destroy(&c); POST("C25: kdf_result_destroy releases everything", G.live == 0); }
    POST("C21: nothing to copy, no copy", !wickr_kdf_result_copy(NULL) && !wickr_kdf_meta_copy(NULL));
#endif
#ifdef H_PERFORM
    wickr_kdf_meta_t *m = mk_meta(); U.pass = nd_bool() ? NULL : mk_buffer(); U.salt = m->salt; U.info = m->info; U.algo = m->algo;
    l0 = G.live; v_inject = true;
    wickr_kdf_result_t *r = wickr_perform_kdf_meta(m, U.pass);
    v_inject = false;
    POST("C17: a key is derived from exactly the passphrase, with the parameters recorded", !r || (U.prims == 1 && U.prim_ok && !U.prim_failed));
    POST("C17: the result is the derived key, in full length, and its parameters", !r || (r->hash->length == U.prim_len && (U.k >= U.prim_len || r->hash->bytes[U.k] == U.prim_byte) && same_meta(r->meta, m) && apart_meta(r->meta, m)
        && U.prim_len == (m->algo.algo_id == KDF_BCRYPT ? 60 : m->algo.output_size)));
    POST("C17: deriving a key succeeds", r || !U.pass || U.failed || G.alloc_failed || U.pass->length >= MAX_BUFFER_SIZE - 1);
    POST("C16: the copy of the passphrase is wiped", !U.watch_pass || WIPED);
    POST("C25: perform_kdf_meta leaks nothing", G.live == l0 + n_result(r));
    REACH("scrypt", r && m->algo.algo_id == KDF_SCRYPT);
    REACH("bcrypt", r && m->algo.algo_id == KDF_BCRYPT);
    REACH("hkdf", r && m->algo.algo_id == KDF_HMAC_SHA2);
#endif
#ifdef H_GEN
    U.algo = mk_algo(); U.pass = nd_bool() ? NULL : mk_buffer();
    ASSUME(U.algo.algo_id == KDF_SCRYPT);
    l0 = G.live; v_inject = true;
    /* the salt the derivation is to use: the random one */
    wickr_kdf_result_t *r = wickr_perform_kdf(U.algo, U.pass);
    v_inject = false;
    POST("C17: a new derivation uses a fresh random salt of the right size", !r || (U.salts == 1 && U.salt_ok && r->meta->salt->length == U.algo.salt_size && same_algo(&r->meta->algo, &U.algo) && !r->meta->info));
    POST("C17: a new derivation gives a full key", !r || (r->hash->length == 32 && U.prims == 1));
    POST("C17: a new derivation succeeds", r || !U.pass || U.failed || G.alloc_failed);
    POST("C25: perform_kdf leaks nothing", G.live == l0 + n_result(r));
    REACH("derived", r);
#endif
#ifdef H_BCSALT
    U.algo = KDF_BCRYPT_15; U.pass = mk_buffer();
    l0 = G.live; v_inject = true;
    wickr_kdf_result_t *r = wickr_perform_kdf(U.algo, U.pass);
    v_inject = false;
    POST("C17: bcrypt uses a fresh random salt of 22 characters", !r || (U.salts == 2 && U.salt_ok && r->meta->salt->length == 22 && (U.k >= 22 || r->meta->salt->bytes[U.k] == 'a')));
    POST("C17: a new derivation succeeds", r || U.failed || G.alloc_failed || U.pass->length >= MAX_BUFFER_SIZE - 1);
    POST("C25: perform_kdf leaks nothing", G.live == l0 + n_result(r));
    POST("C16: the copy of the passphrase is wiped", !U.watch_pass || WIPED);
    REACH("bcrypt", r);
#endif
#if defined(H_CIPHER) || defined(H_DECIPHER) || defined(H_RT)
    wickr_crypto_engine_t e; memset(&e, 0, sizeof e);
    e.wickr_crypto_engine_cipher_encrypt = e_encrypt; e.wickr_crypto_engine_cipher_decrypt = e_decrypt; e.wickr_crypto_kdf_gen = e_gen; e.wickr_crypto_kdf_meta = e_meta;
    U.pass = nd_bool() ? NULL : mk_buffer();
#endif
#if defined(H_CIPHER) || defined(H_RT)
    U.algo = mk_algo(); U.cipher = mk_cipher(); U.value = nd_bool() ? NULL : mk_buffer();
#ifdef H_RT
    ASSUME(U.algo.algo_id == KDF_SCRYPT && U.cipher.is_authenticated && U.pass && U.value);
#endif
    bool ok = U.algo.algo_id == KDF_SCRYPT && U.cipher.is_authenticated && U.pass && U.value;
    l0 = G.live; v_inject = true;
    wickr_buffer_t *o = wickr_crypto_engine_kdf_cipher(&e, U.algo, U.cipher, U.value, U.pass);
    v_inject = false;
    POST("C17: data is sealed under a key derived from the passphrase by scrypt, with an authenticated cipher", !o || (ok && U.gens == 1 && U.gen_ok && U.encs == 1 && U.enc_ok && U.ser_ok));
    POST("C17: the sealed data is the record of the derivation, then the ciphertext", !o || (o->length == 17 + U.ser_len && o->bytes[0] == (uint8_t)U.algo.kdf_id && (U.k >= 16 || o->bytes[1 + U.k] == U.salt_byte) && (U.k >= U.ser_len || o->bytes[17 + U.k] == U.ser_byte)));
    POST("C17: sealing succeeds", o || !ok || U.failed || G.alloc_failed || U.ser_len > MAX_BUFFER_SIZE - 17);
    POST("C16: the derived key is wiped", !G.watch || WIPED);
    POST("C25: kdf_cipher leaks nothing", G.live == l0 + (o ? 2 : 0));
    REACH("sealed", o);
#endif
#ifdef H_RT
    if (o) {
        wickr_kdf_algo_t algo = U.algo; U.rt = true; U.gens = U.encs = U.decs = 0; U.failed = false; G.alloc_failed = false;
        l0 = G.live; v_inject = true;
        wickr_buffer_t *p = wickr_crypto_engine_kdf_decipher(&e, o, U.pass);
        v_inject = false;
        POST("C17: opening sealed data with its passphrase uses the same derivation and ciphertext", !p || (U.gens == 1 && U.gen_ok && U.parses == 1 && U.parse_ok && U.decs == 1 && U.dec_ok && p == U.plain && same_algo(&algo, &U.algo)));
        POST("C17: sealed data can be opened with its passphrase", p || U.failed || G.alloc_failed);
        REACH("opened", p);
    }
#endif
#ifdef H_DECIPHER
    wickr_buffer_t *in = nd_bool() ? NULL : mk_buffer(); uint8_t id = in ? in->bytes[0] : 0; size_t n = id >= 1 && id <= 4 ? 16 : id == 5 ? 22 : 0;
    U.algo = id == 1 ? KDF_SCRYPT_2_17 : id == 2 ? KDF_SCRYPT_2_18 : id == 3 ? KDF_SCRYPT_2_19 : id == 4 ? KDF_SCRYPT_2_20 : KDF_BCRYPT_15;
    U.ser_len = in && n && in->length > n + 1 ? in->length - n - 1 : 0;
    if (U.ser_len && U.k < U.ser_len) U.ser_byte = in->bytes[n + 1 + U.k];
    if (U.ser_len && U.k < n) U.salt_byte = in->bytes[1 + U.k];
    l0 = G.live; v_inject = true;
    wickr_buffer_t *p = wickr_crypto_engine_kdf_decipher(&e, in, U.pass);
    v_inject = false;
    POST("C17: sealed data is opened only with an authenticated decryption under the key derived from the passphrase with the recorded parameters", !p || (U.pass && U.ser_len && U.gens == 1 && U.gen_ok && U.parses == 1 && U.parse_ok && U.decs == 1 && U.dec_ok && p == U.plain));
    POST("C17: what is returned is what was decrypted", !p || U.k >= p->length || p->bytes[U.k] == U.plain_byte);
    POST("C16: the derived key is wiped", !G.watch || WIPED);
    POST("C25: kdf_decipher leaks nothing", G.live == l0 + (p ? 2 : 0));
    REACH("opened", p);
#endif
}
