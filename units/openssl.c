/* Contracts of openssl_suite.c and openssl_file_suite.c over contracts of the crypto library and of stdio.
   Every library call may fail. Library objects are ghost records; data handed over is followed at an arbitrary position. */
#include "gen.h"
#include "gen_kex.h"
#include "loopc.h"
#include "openssl_suite.h"
#include "openssl_file_suite.h"
#include "crypto_engine.h"
#include <openssl/evp.h>
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#include <openssl/hmac.h>
#include <openssl/kdf.h>
#include <openssl/rand.h>
#include <openssl/bn.h>

typedef struct { size_t len; uint8_t b; } tr_t;          /* bytes as seen at the ghost position k */
enum { O_CCTX = 1, O_MDCTX, O_EC, O_PKEY, O_PCTX, O_SIG, O_BN };
struct obj {
    int kind, id; struct obj *sub, *sub2; tr_t data, salt, info, key, iv, aad, in; bool priv, enc, key_set, iv_set, tag_set, generated, named, group_known; int nid, mode, alg;
    const void *alg_obj; size_t ivlen, taglen, total; unsigned n_aad, n_in, n_final, n_tag, n_upd; tr_t tag; tr_t part[2]; bool init, sign_init, verify_init, final, derive_init, peer_set, uses_priv;
};
static struct {
    size_t k; bool failed; struct obj cc, mc, pc; bool cc_done, mc_done, pc_done; unsigned rands; tr_t rnd; const uint8_t *out; size_t outn; uint8_t outb; bool verified; uint8_t tagb; size_t tagn;
    uint8_t pub_b, pri_b; size_t pub_n, pri_n, pub_k; bool generated, infinite, no_point; int nid; bool named; tr_t imported; bool imp_priv; uint8_t imp_curve;
    size_t sig_n; uint8_t sig_b; tr_t sig_in; size_t sec_n; uint8_t sec_b; const uint8_t *sec_p;
    tr_t hkey, hdata; int hmd; const uint8_t *hout; uint8_t hb;
    tr_t rs[2]; bool too_long[2]; uint8_t rsb[2]; size_t der_n; uint8_t der_b; tr_t der_in;
    /* files */
    size_t N, pos; bool err, eof; size_t fo, wo; uint8_t fb, f0; size_t wpos, wlen; uint8_t wb; bool wset; uint8_t cb; unsigned v1; size_t H; bool werr; unsigned rew; size_t it; bool tmp_open, src_open, renamed, tmp_exists, close_failed, tmp_full; bool op_ok; unsigned ops;
    const void *op_in, *op_key, *op_out; bool op_auth;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); }
static FILE *f_in, *f_out;
static uint8_t fobj[2][sizeof(FILE)], mdo[3], cio[2];

static bool nd_ok(void) { if (nd_fail()) { U.failed = true; return false; } return true; }
static tr_t trk(const void *p, size_t n) { tr_t t; t.len = n; t.b = U.k < n ? ((const uint8_t *)p)[U.k] : 0; return t; }
static bool tr_is(tr_t t, const wickr_buffer_t *b) { return b && t.len == b->length && (U.k >= t.len || t.b == b->bytes[U.k]); }
static struct obj *mk_obj(int kind) { static const struct obj z; if (!nd_ok()) return NULL; struct obj *o = mk_mem(sizeof *o); *o = z; o->kind = kind; return o; }
static void fill(uint8_t *p, size_t n)
{
#ifdef __CPROVER
    if (U.k < n) p[U.k] = nd_u8();
#else
    v_native_fill(p, n); (void)nd_u64();
#endif
}

/* ---- random ---- */
int RAND_bytes(unsigned char *p, int n)
{
    POST("C18: random bytes are written in bounds", n >= 0 && (n == 0 || RW_OK(p, n)));
    if (!nd_ok()) return nd_bool() ? 0 : -1;
    fill(p, n); U.rands++; U.rnd = trk(p, n); return 1;
}
/* ---- digests ---- */
const EVP_MD *EVP_sha256(void) { return (const EVP_MD *)&mdo[0]; }
const EVP_MD *EVP_sha384(void) { return (const EVP_MD *)&mdo[1]; }
const EVP_MD *EVP_sha512(void) { return (const EVP_MD *)&mdo[2]; }
static int md_id(const void *m) { return m == &mdo[0] ? DIGEST_ID_SHA256 : m == &mdo[1] ? DIGEST_ID_SHA384 : m == &mdo[2] ? DIGEST_ID_SHA512 : 0; }
static size_t md_len(const void *m) { return m == &mdo[0] ? 32 : m == &mdo[1] ? 48 : 64; }
EVP_MD_CTX *EVP_MD_CTX_new(void) { return (EVP_MD_CTX *)mk_obj(O_MDCTX); }
void EVP_MD_CTX_free(EVP_MD_CTX *c) { struct obj *o = (struct obj *)c; if (!o) return; POST("C19: a digest context is released once", o->kind == O_MDCTX); U.mc = *o; U.mc_done = true; o->kind = 0; v_free(o); }
const EVP_MD *EVP_MD_CTX_get0_md(const EVP_MD_CTX *c) { return (const EVP_MD *)((const struct obj *)c)->alg_obj; }
const EVP_MD *EVP_MD_CTX_md(const EVP_MD_CTX *c) { return (const EVP_MD *)((const struct obj *)c)->alg_obj; }
static int md_init(struct obj *o, const void *md)
{
    POST("C19: a digest is initialized with a context and a digest", o && o->kind == O_MDCTX && md_id(md));
    if (!nd_ok()) return 0;
    o->alg_obj = md; o->init = true; o->n_upd = 0; o->total = 0; o->final = false; return 1;
}
int EVP_DigestInit(EVP_MD_CTX *c, const EVP_MD *md) { return md_init((struct obj *)c, md); }
int EVP_DigestInit_ex(EVP_MD_CTX *c, const EVP_MD *md, ENGINE *e) { return md_init((struct obj *)c, md); }
static int md_update(struct obj *o, const void *p, size_t n)
{
    POST("C19: data is digested in bounds by an initialized context", o && o->kind == O_MDCTX && o->init && !o->final && (n == 0 || R_OK(p, n)));
    if (!nd_ok()) return 0;
#ifdef H_SHA2FILE
    POST("C19: the digest covers the file in order", o->total == U.pos - n && (U.fo < o->total || U.fo >= o->total + n || ((const uint8_t *)p)[U.fo - o->total] == U.fb));
#endif
    if (o->n_upd < 2) o->part[o->n_upd] = trk(p, n);
    o->n_upd = o->n_upd < 3 ? o->n_upd + 1 : 3; o->total += n; return 1;
}
int EVP_DigestUpdate(EVP_MD_CTX *c, const void *p, size_t n) { return md_update((struct obj *)c, p, n); }
int EVP_DigestSignUpdate(EVP_MD_CTX *c, const void *p, size_t n) { POST("C19: signing was initialized", ((struct obj *)c)->sign_init); return md_update((struct obj *)c, p, n); }
int EVP_DigestVerifyUpdate(EVP_MD_CTX *c, const void *p, size_t n) { POST("C19: verifying was initialized", ((struct obj *)c)->verify_init); return md_update((struct obj *)c, p, n); }
int EVP_DigestFinal(EVP_MD_CTX *c, unsigned char *out, unsigned int *n)
{
    struct obj *o = (struct obj *)c;
    POST("C19: a digest is written in bounds, once", o && o->kind == O_MDCTX && o->init && !o->final && RW_OK(out, md_len(o->alg_obj)));
    if (!nd_ok()) return 0;
    fill(out, md_len(o->alg_obj)); o->final = true; U.out = out; U.outn = md_len(o->alg_obj); U.outb = U.k < U.outn ? out[U.k] : 0; if (n) *n = (unsigned)U.outn; return 1;
}
int EVP_DigestFinal_ex(EVP_MD_CTX *c, unsigned char *out, unsigned int *n) { return EVP_DigestFinal(c, out, n); }
/* ---- keys ---- */
EC_KEY *EC_KEY_new_by_curve_name(int nid) { struct obj *o = mk_obj(O_EC); if (o) { o->nid = nid; o->group_known = true; } return (EC_KEY *)o; }
void EC_KEY_free(EC_KEY *k) { struct obj *o = (struct obj *)k; if (!o) return; POST("C19: a key is released once", o->kind == O_EC); o->kind = 0; v_free(o); }
void EC_KEY_set_asn1_flag(EC_KEY *k, int flag) { struct obj *o = (struct obj *)k; POST("C19: a key is given", o && o->kind == O_EC); o->named = flag == OPENSSL_EC_NAMED_CURVE; }
int EC_KEY_generate_key(EC_KEY *k) { struct obj *o = (struct obj *)k; POST("C19: a key is given", o && o->kind == O_EC && o->group_known); if (!nd_ok()) return 0; o->generated = o->priv = true; U.generated = true; U.nid = o->nid; U.named = o->named; return 1; }
static int export(struct obj *o, unsigned char **pp, size_t n, uint8_t b, int bad)
{
    POST("C19: a key is given", o && o->kind == O_EC);
    if (!nd_ok()) return bad;
    if (pp) { POST("C19: a key is exported in bounds", *pp && RW_OK(*pp, n)); fill(*pp, n); if (U.k < n) (*pp)[U.k] = b; *pp += n; }
    return (int)n;
}
int i2d_ECPrivateKey(const EC_KEY *k, unsigned char **pp)
{
    struct obj *o = (struct obj *)k; unsigned char *q = pp ? *pp : NULL;
    POST("C19: a private key is exported from a private key", o && o->priv);
    int r = export(o, pp, U.pri_n, U.pri_b, nd_bool() ? 0 : -1);
    if (pp && r > 0) { G.watch = q; G.watch_len = U.pri_n; G.watch_freed = G.watch_dirty = false; }
    return r;
}
int i2o_ECPublicKey(const EC_KEY *k, unsigned char **pp) { return export((struct obj *)k, pp, U.pub_n, U.pub_b, 0); }
EC_KEY *d2i_ECPrivateKey(EC_KEY **a, const unsigned char **pp, long len)
{
    POST("C19: a private key is read in bounds", *pp && len > 0 && R_OK(*pp, len));
    struct obj *o = mk_obj(O_EC); if (!o) return NULL;
    o->data = trk(*pp, len); o->priv = true; o->nid = nd_bool() ? NID_secp521r1 : NID_X9_62_prime256v1; o->group_known = true; U.imported = o->data; U.imp_priv = true; U.nid = o->nid; *pp += len; return (EC_KEY *)o;
}
EC_KEY *o2i_ECPublicKey(EC_KEY **a, const unsigned char **pp, long len)
{
    POST("C19: a public key is read in bounds into a key of known curve", *pp && len > 0 && R_OK(*pp, len) && a && *a && ((struct obj *)*a)->kind == O_EC && ((struct obj *)*a)->group_known);
    if (!nd_ok()) return NULL;
    struct obj *o = (struct obj *)*a; o->data = trk(*pp, len); o->priv = false; U.imported = o->data; U.imp_priv = false; U.nid = o->nid; *pp += len; return *a;
}
EVP_PKEY *EVP_PKEY_new(void) { return (EVP_PKEY *)mk_obj(O_PKEY); }
int EVP_PKEY_assign(EVP_PKEY *p, int type, void *k) { struct obj *o = (struct obj *)p; POST("C19: an EC key becomes a key", o && o->kind == O_PKEY && !o->sub && type == EVP_PKEY_EC && k); if (!nd_ok()) return 0; o->sub = k; return 1; }
void EVP_PKEY_free(EVP_PKEY *p) { struct obj *o = (struct obj *)p; if (!o) return; POST("C19: a key is released once", o->kind == O_PKEY); if (o->sub) EC_KEY_free((EC_KEY *)o->sub); o->kind = 0; v_free(o); }
static EC_KEY *pkey_ec(const EVP_PKEY *p) { struct obj *o = (struct obj *)p; POST("C19: a key is given", o && o->kind == O_PKEY); return (EC_KEY *)o->sub; }
#undef EVP_PKEY_get0_EC_KEY
const struct ec_key_st *EVP_PKEY_get0_EC_KEY(const EVP_PKEY *p) { return pkey_ec(p); }
const EC_GROUP *EC_KEY_get0_group(const EC_KEY *k) { if (!nd_ok()) return NULL; return (const EC_GROUP *)k; }
int EC_GROUP_get_curve_name(const EC_GROUP *g) { return ((const struct obj *)g)->nid; }
const EC_POINT *EC_KEY_get0_public_key(const EC_KEY *k) { if (!nd_ok()) { U.no_point = true; return NULL; } return (const EC_POINT *)k; }
int EC_POINT_is_at_infinity(const EC_GROUP *g, const EC_POINT *p) { POST("C19: a point of the group is examined", g && p && (const void *)g == (const void *)p); U.infinite = nd_bool(); if (U.infinite) U.failed = true; return U.infinite; }
/* ---- signing and verifying ---- */
static int sv_init(struct obj *o, const EVP_MD *md, struct obj *pk)
{
    POST("C19: signing and verifying use a key", o && o->kind == O_MDCTX && pk && pk->kind == O_PKEY && pk->sub && md_id(md));
    if (!nd_ok()) return 0;
    o->alg_obj = md; o->key = pk->sub->data; o->uses_priv = pk->sub->priv; o->nid = pk->sub->nid; o->init = true; o->n_upd = 0; o->total = 0; o->final = false; return 1;
}
int EVP_DigestSignInit(EVP_MD_CTX *c, EVP_PKEY_CTX **pc, const EVP_MD *md, ENGINE *e, EVP_PKEY *pk) { int r = sv_init((struct obj *)c, md, (struct obj *)pk); if (r) ((struct obj *)c)->sign_init = true; return r; }
int EVP_DigestVerifyInit(EVP_MD_CTX *c, EVP_PKEY_CTX **pc, const EVP_MD *md, ENGINE *e, EVP_PKEY *pk) { int r = sv_init((struct obj *)c, md, (struct obj *)pk); if (r) ((struct obj *)c)->verify_init = true; return r; }
int EVP_DigestSignFinal(EVP_MD_CTX *c, unsigned char *sig, size_t *n)
{
    struct obj *o = (struct obj *)c;
    POST("C19: a signature is made by a signing context", o && o->sign_init && n);
    if (!nd_ok()) return nd_bool() ? 0 : -1;
    if (!sig) { *n = 139; return 1; }
    POST("C19: a signature is written in bounds", *n >= 139 && RW_OK(sig, *n));
    U.sig_n = (size_t)nd_range(8, 139); fill(sig, U.sig_n); U.sig_b = U.k < U.sig_n ? sig[U.k] : 0; *n = U.sig_n; o->final = true; return 1;
}
int EVP_DigestVerifyFinal(EVP_MD_CTX *c, const unsigned char *sig, size_t n)
{
    struct obj *o = (struct obj *)c;
    POST("C19: a signature is verified in bounds", o && o->verify_init && (n == 0 || R_OK(sig, n)));
    U.sig_in = trk(sig, n); o->final = true; U.verified = nd_bool(); if (!U.verified) { U.failed = true; return nd_bool() ? 0 : -1; } return 1;
}
/* ---- symmetric ciphers ---- */
const EVP_CIPHER *EVP_aes_256_gcm(void) { return (const EVP_CIPHER *)&cio[0]; }
const EVP_CIPHER *EVP_aes_256_ctr(void) { return (const EVP_CIPHER *)&cio[1]; }
int EVP_CIPHER_get_block_size(const EVP_CIPHER *c) { POST("C18: a cipher is given", c); return 1; }
int EVP_CIPHER_CTX_get_block_size(const EVP_CIPHER_CTX *c) { POST("C18: a cipher is set", ((const struct obj *)c)->alg_obj); return 1; }
EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void) { return (EVP_CIPHER_CTX *)mk_obj(O_CCTX); }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { struct obj *o = (struct obj *)c; if (!o) return; POST("C18: a cipher context is released once", o->kind == O_CCTX); U.cc = *o; U.cc_done = true; o->kind = 0; v_free(o); }
#define GCM(o) ((o)->alg_obj == (const void *)&cio[0])
static int c_init(struct obj *o, const EVP_CIPHER *c, const uint8_t *key, const uint8_t *iv, bool enc)
{
    POST("C18: a cipher context is given", o && o->kind == O_CCTX);
    if (!nd_ok()) return 0;
    if (c) { o->alg_obj = c; o->ivlen = GCM(o) ? 12 : 16; o->key_set = o->iv_set = o->tag_set = false; o->n_aad = o->n_in = o->n_final = 0; }
    POST("C18: the cipher is known before its key", o->alg_obj || (!key && !iv));
    o->enc = enc;
    if (key) { POST("C18: the key is read in bounds", R_OK(key, 32)); o->key = trk(key, 32); o->key_set = true; }
    if (iv) { POST("C18: the IV is read in bounds", R_OK(iv, o->ivlen)); o->iv = trk(iv, o->ivlen); o->iv_set = true;
#ifdef V_FILES
        if (!enc) POST("C20: the IV is that of the file", U.fo < 1 || U.fo >= 1 + o->ivlen || iv[U.fo - 1] == U.fb);
#endif
    }
    return 1;
}
int EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *key, const unsigned char *iv) { return c_init((struct obj *)c, t, key, iv, true); }
int EVP_DecryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *key, const unsigned char *iv) { return c_init((struct obj *)c, t, key, iv, false); }
int EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX *c, int type, int arg, void *p)
{
    struct obj *o = (struct obj *)c;
    POST("C18: a cipher context is given", o && o->kind == O_CCTX && o->alg_obj && GCM(o));
    if (!nd_ok()) return 0;
    if (type == EVP_CTRL_GCM_SET_IVLEN) { POST("C18: the IV length is set before the IV", arg > 0 && !o->iv_set); o->ivlen = (size_t)arg; }
    else if (type == EVP_CTRL_GCM_GET_TAG) { POST("C18: the tag is taken when encryption is complete", o->enc && o->n_final && arg > 0 && arg <= 16 && RW_OK(p, arg)); fill(p, arg); U.tagn = arg; U.tagb = U.k < (size_t)arg ? ((uint8_t *)p)[U.k] : 0; o->n_tag++; }
    else if (type == EVP_CTRL_GCM_SET_TAG) { POST("C18: the expected tag is read in bounds", !o->enc && arg > 0 && arg <= 16 && R_OK(p, arg)); o->tag = trk(p, arg); o->tag_set = true;
#ifdef V_FILES
        POST("C20: the expected tag is that of the file", arg == 16 && (U.fo < 13 || U.fo >= 29 || ((uint8_t *)p)[U.fo - 13] == U.fb));
#endif
    }
    else return 0;
    return 1;
}
static int c_update(struct obj *o, uint8_t *out, int *outl, const uint8_t *in, int n, bool enc)
{
    POST("C18: data is processed under the key and IV", o && o->kind == O_CCTX && o->key_set && o->iv_set && o->enc == enc && !o->n_final && n >= 0 && (n == 0 || R_OK(in, n)) && outl);
    if (!nd_ok()) return 0;
    *outl = n;
    if (!out) { POST("C18: associated data comes before the data", GCM(o) && !o->n_in); o->n_aad++; o->aad = trk(in, n); return 1; }
    POST("C18: output is written in bounds", n == 0 || RW_OK(out, n));
#ifdef V_FILES
    /* position K of the data: in file offset fo on reading, wo on writing */
    POST("C20: the file is processed in order", o->total == U.pos - (size_t)n - (enc ? 0 : U.H) && (U.fo < U.pos - (size_t)n || U.fo >= U.pos || in[U.fo - (U.pos - (size_t)n)] == U.fb));
    if (U.wo >= (enc ? U.H : 0)) {
        size_t K = U.wo - (enc ? U.H : 0);
        if (K >= o->total && K < o->total + (size_t)n) out[K - o->total] = U.cb;
    }
    o->total += (size_t)n; o->n_in = 1;
#else
    POST("C18: data is processed in one piece", !o->n_in);
    o->in = trk(in, n); o->n_in++; fill(out, n); if (!enc) { G.watch = out; G.watch_len = (size_t)n; G.watch_freed = G.watch_dirty = false; }
    U.out = out; U.outn = n; U.outb = U.k < (size_t)n ? out[U.k] : 0;
#endif
    return 1;
}
int EVP_EncryptUpdate(EVP_CIPHER_CTX *c, unsigned char *out, int *outl, const unsigned char *in, int n) { return c_update((struct obj *)c, out, outl, in, n, true); }
int EVP_DecryptUpdate(EVP_CIPHER_CTX *c, unsigned char *out, int *outl, const unsigned char *in, int n) { return c_update((struct obj *)c, out, outl, in, n, false); }
static int c_final(struct obj *o, int *outl, bool enc)
{
    POST("C18: an operation is completed once", o && o->kind == O_CCTX && o->key_set && o->iv_set && o->enc == enc && !o->n_final && outl);
    if (!nd_ok()) return 0;
    /* in GCM mode decryption completes only if the expected tag was set and is right */
    if (!enc && GCM(o) && !o->tag_set) { U.failed = true; return 0; }
    o->n_final++; *outl = 0; if (!enc && GCM(o)) U.verified = true; return 1;
}
int EVP_EncryptFinal_ex(EVP_CIPHER_CTX *c, unsigned char *out, int *outl) { return c_final((struct obj *)c, outl, true); }
int EVP_DecryptFinal_ex(EVP_CIPHER_CTX *c, unsigned char *out, int *outl) { return c_final((struct obj *)c, outl, false); }
/* ---- key agreement, HKDF, HMAC ---- */
static EVP_PKEY_CTX *pctx_new(struct obj *k, int id) { struct obj *o = mk_obj(O_PCTX); if (o) { o->id = id; if (k) { POST("C19: a key is given", k->kind == O_PKEY && k->sub); o->key = k->sub->data; o->uses_priv = k->sub->priv; o->nid = k->sub->nid; } } return (EVP_PKEY_CTX *)o; }
EVP_PKEY_CTX *EVP_PKEY_CTX_new(EVP_PKEY *k, ENGINE *e) { return pctx_new((struct obj *)k, 0); }
EVP_PKEY_CTX *EVP_PKEY_CTX_new_id(int id, ENGINE *e) { return pctx_new(NULL, id); }
void EVP_PKEY_CTX_free(EVP_PKEY_CTX *c) { struct obj *o = (struct obj *)c; if (!o) return; POST("C19: a key context is released once", o->kind == O_PCTX); U.pc = *o; U.pc_done = true; o->kind = 0; v_free(o); }
#define PC struct obj *o = (struct obj *)c; POST("C19: a key context is given", o && o->kind == O_PCTX); if (!nd_ok()) return nd_bool() ? 0 : -1
int EVP_PKEY_derive_init(EVP_PKEY_CTX *c) { PC; o->derive_init = true; return 1; }
int EVP_PKEY_derive_set_peer(EVP_PKEY_CTX *c, EVP_PKEY *p) { PC; POST("C19: a peer key is given", o->derive_init && p && ((struct obj *)p)->sub); o->peer_set = true; o->in = ((struct obj *)p)->sub->data; return 1; }
int EVP_PKEY_CTX_set_hkdf_mode(EVP_PKEY_CTX *c, int mode) { PC; o->mode = mode; return 1; }
int EVP_PKEY_CTX_set_hkdf_md(EVP_PKEY_CTX *c, const EVP_MD *md) { PC; o->alg_obj = md; return 1; }
int EVP_PKEY_CTX_set1_hkdf_key(EVP_PKEY_CTX *c, const unsigned char *k, int n) { PC; POST("C19: the HKDF key is read in bounds", n > 0 && R_OK(k, n)); o->in = trk(k, n); o->key_set = true; return 1; }
int EVP_PKEY_CTX_set1_hkdf_salt(EVP_PKEY_CTX *c, const unsigned char *k, int n) { PC; POST("C19: the HKDF salt is read in bounds", n > 0 && R_OK(k, n)); o->salt = trk(k, n); return 1; }
int EVP_PKEY_CTX_add1_hkdf_info(EVP_PKEY_CTX *c, const unsigned char *k, int n) { PC; POST("C19: the HKDF info is read in bounds, at most 1024 bytes", n > 0 && n <= 1024 && R_OK(k, n) && !o->n_upd); o->info = trk(k, n); o->n_upd++; return 1; }
int EVP_PKEY_derive(EVP_PKEY_CTX *c, unsigned char *out, size_t *n)
{
    PC; POST("C19: derivation was initialized", o->derive_init && n);
    if (o->id == EVP_PKEY_HKDF) { POST("C19: HKDF has its digest and key", o->alg_obj && o->key_set); }
    else { POST("C19: key agreement has its peer", o->peer_set); if (!out) { *n = U.sec_n; return 1; } POST("C19: the shared secret fits", *n >= U.sec_n); *n = U.sec_n; }
    POST("C19: derived bytes are written in bounds", RW_OK(out, *n));
    fill(out, *n); U.sec_p = out; U.sec_b = U.k < *n ? out[U.k] : 0; o->final = true; return 1;
}
unsigned char *HMAC(const EVP_MD *md, const void *key, int kn, const unsigned char *d, size_t n, unsigned char *out, unsigned int *on)
{
    POST("C19: MAC inputs are read in bounds", md_id(md) && kn > 0 && R_OK(key, kn) && (n == 0 || R_OK(d, n)) && out && RW_OK(out, md_len(md)));
    if (!nd_ok()) return NULL;
    U.hkey = trk(key, kn); U.hdata = trk(d, n); U.hmd = md_id(md); fill(out, md_len(md)); U.hout = out; U.hb = U.k < md_len(md) ? out[U.k] : 0; if (on) *on = (unsigned)md_len(md); return out;
}
int CRYPTO_memcmp(const void *a, const void *b, size_t n) { return v_memcmp(a, b, n); }
/* ---- raw signatures: r and s are numbers, seen as big-endian bytes of their raw width at the ghost position ---- */
BIGNUM *BN_new(void) { return (BIGNUM *)mk_obj(O_BN); }
void BN_free(BIGNUM *b) { struct obj *o = (struct obj *)b; if (!o) return; POST("C19: a number is released once", o->kind == O_BN); o->kind = 0; v_free(o); }
BIGNUM *BN_bin2bn(const unsigned char *p, int n, BIGNUM *b) { struct obj *o = (struct obj *)b; POST("C19: a number is read in bounds", o && o->kind == O_BN && n > 0 && R_OK(p, n)); if (!nd_ok()) return NULL; o->data = trk(p, n); return b; }
int BN_bn2binpad(const BIGNUM *b, unsigned char *p, int n)
{
    struct obj *o = (struct obj *)b;
    POST("C19: a number is written in bounds", o && o->kind == O_BN && n > 0 && RW_OK(p, n));
    if (o->priv) { U.failed = true; return -1; }                    /* does not fit */
    fill(p, n); o->data.len = n; if (U.k < (size_t)n) p[U.k] = o->data.b; U.rs[o->id] = o->data; return n;
}
ECDSA_SIG *ECDSA_SIG_new(void) { return (ECDSA_SIG *)mk_obj(O_SIG); }
void ECDSA_SIG_free(ECDSA_SIG *s) { struct obj *o = (struct obj *)s; if (!o) return; POST("C19: a signature is released once", o->kind == O_SIG); BN_free((BIGNUM *)o->sub); BN_free((BIGNUM *)o->sub2); o->kind = 0; v_free(o); }
int ECDSA_SIG_set0(ECDSA_SIG *s, BIGNUM *r, BIGNUM *t) { struct obj *o = (struct obj *)s; POST("C19: a signature gets its numbers", o && o->kind == O_SIG && r && t && r != t); if (!nd_ok()) return 0; o->sub = (struct obj *)r; o->sub2 = (struct obj *)t; return 1; }
const BIGNUM *ECDSA_SIG_get0_r(const ECDSA_SIG *s) { return (const BIGNUM *)((const struct obj *)s)->sub; }
const BIGNUM *ECDSA_SIG_get0_s(const ECDSA_SIG *s) { return (const BIGNUM *)((const struct obj *)s)->sub2; }
ECDSA_SIG *d2i_ECDSA_SIG(ECDSA_SIG **a, const unsigned char **pp, long n)
{
    POST("C19: a signature is read in bounds", *pp && n > 0 && R_OK(*pp, n));
    struct obj *o = mk_obj(O_SIG); if (!o) return NULL;
    static const struct obj z; struct obj *r = mk_mem(sizeof *r), *s = mk_mem(sizeof *s); *r = z; *s = z;
    r->kind = s->kind = O_BN; r->id = 0; s->id = 1; r->data.b = U.rsb[0]; s->data.b = U.rsb[1]; r->priv = U.too_long[0]; s->priv = U.too_long[1];
    o->sub = r; o->sub2 = s; U.der_in = trk(*pp, n); *pp += n; if (a) *a = (ECDSA_SIG *)o; return (ECDSA_SIG *)o;
}
int i2d_ECDSA_SIG(const ECDSA_SIG *s, unsigned char **pp)
{
    const struct obj *o = (const struct obj *)s;
    POST("C19: a whole signature is encoded", o && o->kind == O_SIG && o->sub && o->sub2);
    if (!nd_ok()) return -1;
    U.rs[0] = o->sub->data; U.rs[1] = o->sub2->data;
    if (pp) { POST("C19: a signature is written in bounds", *pp && RW_OK(*pp, U.der_n)); fill(*pp, U.der_n); U.der_b = U.k < U.der_n ? (*pp)[U.k] : 0; *pp += U.der_n; }
    return (int)U.der_n;
}

#if defined(V_FILES)
/* ---- files: in_file has N bytes, its byte at the ghost offset fo is fb, its first is f0; of out_file the byte at the ghost offset wo is followed ---- */
size_t v_fread(void *p, size_t sz, size_t n, FILE *f)
{
    POST("C20: a file is read in bounds", f == f_in && sz == 1 && (n == 0 || RW_OK(p, n)));
    size_t left = U.N - U.pos, r = n < left ? n : left;
    if (n > 0 && !nd_ok()) { U.err = true; r = (size_t)nd_range(0, r == n ? r - 1 : r); }
    else if (r < n) U.eof = true;
    uint8_t *q = p;
    if (r > 0 && U.pos == 0) q[0] = U.f0;
    if (U.fo >= U.pos && U.fo - U.pos < r) q[U.fo - U.pos] = U.fb;
    U.pos += r; return r;
}
size_t v_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
    POST("C20: a file is written in bounds", f == f_out && sz == 1 && (n == 0 || R_OK(p, n)));
    size_t r = n;
    if (n > 0 && !nd_ok()) { U.werr = true; r = (size_t)nd_range(0, n - 1); }
    if (U.wo >= U.wpos && U.wo - U.wpos < r) { U.wb = ((const uint8_t *)p)[U.wo - U.wpos]; U.wset = true; }
    U.wpos += r; if (U.wpos > U.wlen) U.wlen = U.wpos;
    return r;
}
int v_ferror(FILE *f) { return f == f_in ? U.err : U.werr; }
int v_feof(FILE *f) { return f == f_in ? U.eof : 0; }
void v_rewind(FILE *f) { if (f == f_out) { U.wpos = 0; U.werr = false; } else { U.pos = 0; U.err = U.eof = false; } }
int v_fflush(FILE *f) { POST("C20: the written file is flushed", f == f_out); if (!nd_ok()) { U.werr = true; return -1; } return 0; }
/* whole-file operations */
static char *spath, *dpath, *tpath; static size_t dlen;
size_t v_strlen(const char *s) { POST("C20: the length of the destination name is taken", s == dpath); return dlen; }
#include <stdarg.h>
int v_snprintf(char *p, size_t n, const char *fmt, ...)
{
    POST("C20: the temporary name is written in bounds and is not the destination's", n > 0 && RW_OK(p, n) && n >= dlen + 2);
    tpath = p; return (int)(n - 1);
}
FILE *v_fopen(const char *path, const char *mode)
{
    if (path == spath) { POST("C20: the source is opened for reading", mode[0] == 'r' && !U.src_open); if (!nd_ok()) return NULL; U.src_open = true; return f_in; }
    POST("C20: only a temporary file is opened for writing", path == tpath && tpath && mode[0] == 'w' && !U.tmp_open);
    if (!nd_ok()) return NULL;
    U.tmp_open = U.tmp_exists = true; return f_out;
}
int v_fclose(FILE *f)
{
    if (f == f_in) { POST("C20: the source is closed once", U.src_open); U.src_open = false; return nd_bool() ? 0 : -1; }
    POST("C20: the temporary file is closed once", f == f_out && U.tmp_open); U.tmp_open = false;
    if (!nd_ok()) { U.close_failed = true; return -1; }
    return 0;
}
int v_rename(const char *a, const char *b)
{
    POST("C20: a complete, closed temporary file becomes the destination", a == tpath && tpath && b == dpath && U.op_ok && U.tmp_exists && !U.tmp_open && !U.close_failed);
    if (!nd_ok()) return -1;
    U.renamed = true; U.tmp_exists = false; return 0;
}
int v_remove(const char *a) { POST("C20: only the temporary file is removed", a == tpath && tpath); U.tmp_exists = false; return nd_bool() ? 0 : -1; }
#endif
#ifdef H_FILEOPS
static bool file_op(FILE *in, const wickr_cipher_key_t *key, FILE *out, bool enc, bool auth)
{
    POST("C20: the open source and temporary file are processed, once", in == f_in && out == f_out && U.src_open && U.tmp_open && U.ops == 0);
    U.ops = enc ? 1 : 2; U.op_key = key; U.op_auth = auth; U.op_ok = nd_ok(); return U.op_ok;
}
bool openssl_encrypt_file(FILE *i, const wickr_cipher_key_t *k, FILE *o) { return file_op(i, k, o, true, false); }
bool openssl_decrypt_file(FILE *i, const wickr_cipher_key_t *k, FILE *o, bool a) { return file_op(i, k, o, false, a); }
#endif
#ifdef V_LOOPS
static unsigned visits; static int64_t live0;
/* everything before pos was read, digested / processed and (for ciphers) written after the header */
static const void *hash0;
void v_loop_sha(void *c, void *hash)
{
    struct obj *o = c;
    bool inv = !U.failed && !U.err && U.pos <= U.N && o->kind == O_MDCTX && o->init && !o->final && o->total == U.pos;
    if (LOOP_STEP(visits)) {
        POST("C19: file digest loop invariant on entry", inv && U.pos == 0); live0 = G.live; hash0 = *(void **)hash;
        U.pos = o->total = (size_t)nd_range(0, U.N); o->n_upd = (unsigned)nd_range(0, 3);
    } else { POST("C19: file digest loop invariant preserved", inv && G.live == live0 && *(void **)hash == hash0); LOOP_END(); }
}
static void cipher_loop(int *outl, struct obj *o, bool enc, uint8_t h)
{
    size_t hin = enc ? 0 : U.H, hout = enc ? U.H : 0;
    bool inv = !U.failed && !U.err && !U.werr && U.pos >= hin && U.pos <= U.N && o->kind == O_CCTX && !o->n_final && o->total == U.pos - hin && U.wpos == hout + o->total && U.wlen == U.wpos
        && U.wset == (U.wo < U.wpos) && (!U.wset || U.wb == (U.wo < hout ? h : U.cb));
    if (LOOP_STEP(visits)) {
        POST("C20: file loop invariant on entry", inv && o->total == 0); live0 = G.live;
        *outl = (int)nd_u32(); U.pos = (size_t)nd_range(hin, U.N); o->total = U.pos - hin; U.wpos = U.wlen = hout + o->total; o->n_in = o->total > 0;
        U.wset = U.wo < U.wpos; U.wb = U.wo < hout ? h : U.cb;
    } else { POST("C20: file loop invariant preserved", inv && G.live == live0); LOOP_END(); }
}
static uint8_t h0;
void v_loop_enc(int *outl, void *ctx) { if (!visits) h0 = U.wb; cipher_loop(outl, ctx, true, h0); }
void v_loop_dec(int *outl, void *ctx) { cipher_loop(outl, ctx, false, 0); }
#endif

static bool tr_raw(tr_t t, const uint8_t *p, size_t n) { return t.len == n && (U.k >= n || t.b == p[U.k]); }
static bool md_of(const struct obj *o, const wickr_digest_t *d) { return md_id(o->alg_obj) == (int)d->digest_id; }
static bool byte_is(const wickr_buffer_t *b, size_t n, uint8_t v) { return b && b->length == n && RW_OK(b->bytes, n) && (U.k >= n || b->bytes[U.k] == v); }
static wickr_cipher_key_t *mk_key_any(void) { wickr_cipher_key_t *k = mk_mem(sizeof *k); k->cipher = mk_cipher(); k->key_data = mk_buffer_range(1, 64); return k; }
static wickr_ec_curve_t mk_curve(void) { wickr_ec_curve_t c = EC_CURVE_NIST_P521; if (nd_bool()) *(uint8_t *)&c.identifier = nd_u8(); return c; }
#define KNOWN_CURVE(c) ((c).identifier == EC_CURVE_ID_NIST_P521)

void harness(void)
{
    f_in = (FILE *)fobj[0]; f_out = (FILE *)fobj[1];
    U.k = (size_t)nd_u64(); G.cmp_k = U.k;
#if defined(H_RANDOM)
    size_t n = (size_t)nd_u64(); int64_t l0 = G.live;
    if (nd_bool()) {
        v_inject = true; wickr_buffer_t *r = openssl_crypto_random(n); v_inject = false;
        if (r) POST("C18: random bytes have the requested length and come from the random source", r->length == n && n > 0 && !U.failed && U.rands == 1 && tr_is(U.rnd, r));
        else POST("C18: random bytes are refused only for a failure or an impossible length", U.failed || G.alloc_failed || n == 0 || n > MAX_BUFFER_SIZE);
        POST("C25: random bytes leave exactly their result allocated", G.live == l0 + (r ? 2 : 0));
        REACH("random bytes", r && n > 32);
    } else {
        wickr_cipher_t c = mk_cipher();
        v_inject = true; wickr_cipher_key_t *r = openssl_cipher_key_random(c); v_inject = false;
        if (r) POST("C18: a random key is a fresh key of its cipher's length", same_cipher(&r->cipher, &c) && r->key_data->length == 32 && !U.failed && U.rands == 1 && tr_is(U.rnd, r->key_data));
        else POST("C18: a random key is refused only for a failure", U.failed || G.alloc_failed);
        POST("C25: a random key leaves exactly its result allocated", G.live == l0 + (r ? 3 : 0));
        REACH("random key", r);
    }
#elif defined(H_ENC)
    wickr_cipher_key_t *key = nd_bool() ? NULL : mk_key_any(); wickr_buffer_t *pt = mk_buffer_opt(), *aad = mk_buffer_opt(), *iv = nd_bool() ? NULL : mk_buffer_range(1, 32);
    int64_t l0 = G.live;
    v_inject = true; wickr_cipher_result_t *r = openssl_aes256_encrypt(pt, aad, key, iv); v_inject = false;
    bool legal = key && pt && key->key_data->length == 32 && (!iv || iv->length == key->cipher.iv_len) && (!aad || key->cipher.is_authenticated);
    if (r) {
        POST("C18: only complete inputs are encrypted, with a key and IV of the right length, associated data only if authenticated", legal);
        POST("C18: a ciphertext is returned only if every step succeeded", !U.failed && !G.alloc_failed && U.cc_done && U.cc.n_final == 1 && U.cc.n_in == 1 && U.cc.enc);
        POST("C18: the key's cipher is used and recorded", same_cipher(&r->cipher, &key->cipher) && U.cc.alg_obj == (key->cipher.cipher_id == CIPHER_ID_AES256_GCM ? (void *)&cio[0] : (void *)&cio[1]));
        POST("C18: exactly the plaintext is encrypted", tr_is(U.cc.in, pt) && byte_is(r->cipher_text, pt->length, U.outb));
        POST("C18: exactly the associated data is authenticated", aad ? (U.cc.n_aad == 1 && tr_is(U.cc.aad, aad)) : U.cc.n_aad == 0);
        POST("C18: the given key is used", tr_is(U.cc.key, key->key_data));
        POST("C18: the recorded IV is the one used", U.cc.ivlen == r->iv->length && tr_is(U.cc.iv, r->iv) && r->iv->length == r->cipher.iv_len);
        POST("C18: the IV is the given one, or fresh random bytes", iv ? (same_bytes_at(r->iv, iv, U.k) && apart_buf(r->iv, iv)) : (U.rands == 1 && tr_is(U.rnd, r->iv)));
        if (key->cipher.is_authenticated) POST("C18: the full authentication tag is recorded", U.cc.n_tag == 1 && U.tagn == 16 && byte_is(r->auth_tag, 16, U.tagb));
        else POST("C18: an unauthenticated cipher has no tag", r->auth_tag == NULL && U.cc.n_tag == 0);
    } else POST("C18: encryption is refused only for bad input or a failure", !legal || U.failed || G.alloc_failed || pt->length >= MAX_BUFFER_SIZE - 16);
    POST("C25: encryption leaves exactly its result allocated", G.live == l0 + n_cipher_result(r));
    REACH("encrypted with associated data and a given IV", r && aad && iv && r->auth_tag); REACH("encrypted in counter mode", r && !r->auth_tag && !iv);
#elif defined(H_DEC)
    wickr_cipher_key_t *key = nd_bool() ? NULL : mk_cipher_key(); wickr_buffer_t *aad = mk_buffer_opt(); wickr_cipher_result_t *c = nd_bool() ? NULL : mk_cipher_result(); bool auth = nd_bool();
    if (c && nd_bool()) c->auth_tag = nd_bool() ? NULL : mk_buffer_range(1, 32);
    G.watch_k = (size_t)nd_u64();
    int64_t l0 = G.live;
    v_inject = true; wickr_buffer_t *r = openssl_aes256_decrypt(c, aad, key, auth); v_inject = false;
    bool gcm = c && c->cipher.cipher_id == CIPHER_ID_AES256_GCM;
    bool legal = key && c && c->cipher_text && key->cipher.cipher_id == c->cipher.cipher_id && (gcm || (!auth && !aad)) && (!gcm || (c->auth_tag && c->auth_tag->length == 16));
    if (r) {
        POST("C18: only complete inputs are decrypted, unauthenticated ciphers only if allowed", legal);
        POST("C18: a plaintext is returned only if every step succeeded and the tag verified", !U.failed && !G.alloc_failed && U.cc_done && U.cc.n_final == 1 && U.cc.n_in == 1 && !U.cc.enc && (!gcm || U.verified));
        POST("C18: the recorded cipher is used", U.cc.alg_obj == (gcm ? (void *)&cio[0] : (void *)&cio[1]));
        POST("C18: exactly the ciphertext is decrypted", tr_is(U.cc.in, c->cipher_text) && byte_is(r, c->cipher_text->length, U.outb));
        POST("C18: exactly the associated data is checked", aad ? (U.cc.n_aad == 1 && tr_is(U.cc.aad, aad)) : U.cc.n_aad == 0);
        POST("C18: the given key and recorded IV are used", tr_is(U.cc.key, key->key_data) && U.cc.ivlen == c->iv->length && tr_is(U.cc.iv, c->iv));
        if (gcm) POST("C18: the whole recorded tag is expected", U.cc.tag_set && tr_is(U.cc.tag, c->auth_tag));
    } else {
        POST("C18: decryption is refused only for bad input or a failure", !legal || U.failed || G.alloc_failed);
        if (U.out) POST("C16: rejected plaintext is wiped before it is released", G.watch == U.out && G.watch_freed && !G.watch_dirty);
    }
    POST("C25: decryption leaves exactly its result allocated", G.live == l0 + (r ? 2 : 0));
    REACH("decrypted with associated data", r && aad); REACH("decrypted in counter mode", r && !gcm); REACH_OPT("rejected after decryption", !r && U.out);
#elif defined(H_SHA2)
    wickr_buffer_t *b = mk_buffer_opt(), *salt = mk_buffer_opt(); wickr_digest_t d = mk_digest(); int64_t l0 = G.live;
    v_inject = true; wickr_buffer_t *r = openssl_sha2(b, salt, d); v_inject = false;
    if (r) {
        POST("C19: a hash is returned only if every step succeeded", b && !U.failed && !G.alloc_failed && U.mc_done && U.mc.final && md_of(&U.mc, &d));
        POST("C19: exactly the data, then the salt, is hashed", U.mc.n_upd == (salt ? 2 : 1) && tr_is(U.mc.part[0], b) && (!salt || tr_is(U.mc.part[1], salt)));
        POST("C19: the whole hash is returned", r->length == d.size && U.outn == d.size && byte_is(r, d.size, U.outb));
    } else POST("C19: hashing is refused only for a failure", !b || U.failed || G.alloc_failed);
    POST("C25: hashing leaves exactly its result allocated", G.live == l0 + (r ? 2 : 0));
    REACH("salted hash", r && salt); REACH("hash", r && !salt);
#elif defined(H_SHA2FILE)
#ifdef V_LOOPS
    U.N = (size_t)nd_range(0, INT64_MAX); U.fo = (size_t)nd_u64();
#else
    U.N = (size_t)nd_range(0, 9000); U.fo = (size_t)nd_range(0, 9000);
#endif
    U.f0 = nd_u8(); U.fb = nd_u8(); if (U.fo == 0) U.f0 = U.fb;
    wickr_digest_t d = mk_digest(); FILE *f = nd_bool() ? NULL : f_in; int64_t l0 = G.live;
    v_inject = true; wickr_buffer_t *r = openssl_sha2_file(f, d); v_inject = false;
    if (r) {
        POST("C19: a file hash is returned only if every step succeeded", f && !U.failed && !G.alloc_failed && U.mc_done && U.mc.final && md_of(&U.mc, &d));
        POST("C19: the whole file is hashed", U.pos == U.N && U.mc.total == U.N);
        POST("C19: the whole file hash is returned", r->length == d.size && U.outn == d.size && byte_is(r, d.size, U.outb));
    } else POST("C19: file hashing is refused only for a failure", !f || U.failed || G.alloc_failed);
    POST("C25: file hashing leaves exactly its result allocated", G.live == l0 + (r ? 2 : 0));
    REACH("file hash", r && U.N > 5000);
#elif defined(H_RANDKEY) || defined(H_IMPORT)
    U.pub_n = (size_t)nd_range(1, 133); U.pri_n = (size_t)nd_range(1, 300); U.pub_b = nd_u8(); U.pri_b = nd_u8(); G.watch_k = (size_t)nd_u64();
#ifdef H_RANDKEY
    wickr_ec_curve_t c = mk_curve(); bool pri = true; int64_t l0 = G.live;
    v_inject = true; wickr_ec_key_t *r = openssl_ec_rand_key(c); v_inject = false;
    if (r) POST("C19: a new key was generated on the requested curve", KNOWN_CURVE(c) && U.generated && U.nid == NID_secp521r1 && U.named && same_curve(&r->curve, &c));
    else POST("C19: key generation is refused only for another curve or a failure", !KNOWN_CURVE(c) || U.failed || G.alloc_failed);
#else
    wickr_buffer_t *b = mk_buffer_opt(); bool pri = nd_bool(); int64_t l0 = G.live;
    v_inject = true; wickr_ec_key_t *r = openssl_ec_key_import(b, pri); v_inject = false;
    if (r) {
        POST("C19: exactly the given key is imported", b && U.imp_priv == pri && (pri ? tr_is(U.imported, b) : tr_raw(U.imported, b->bytes + 1, b->length - 1)));
        POST("C19: only keys of the supported curve, never the point at infinity, are imported", U.nid == NID_secp521r1 && !U.infinite && same_curve(&r->curve, &EC_CURVE_NIST_P521) && (pri || b->bytes[0] == EC_CURVE_ID_NIST_P521));
    }
#endif
    if (r) {
        POST("C19: a key is returned only if every step succeeded", !U.failed && !G.alloc_failed);
        POST("C19: the whole public key follows its curve", r->pub_data->length == U.pub_n + 1 && r->pub_data->bytes[0] == r->curve.identifier && (U.k >= U.pub_n || r->pub_data->bytes[1 + U.k] == U.pub_b));
        POST("C19: the whole private key is exported exactly if it is there", pri ? byte_is(r->pri_data, U.pri_n, U.pri_b) : r->pri_data == NULL);
    } else if (G.watch) POST("C16: an exported private key is wiped when the operation fails", G.watch_freed && !G.watch_dirty);
    POST("C25: key generation and import leave exactly their result allocated", G.live == l0 + (r ? 3 + (pri ? 2 : 0) : 0));
    REACH("key with private part", r && pri);
#ifdef H_IMPORT
    REACH("public key", r && !pri);
#endif
#elif defined(H_SIGN)
    wickr_ec_key_t *k = nd_bool() ? NULL : mk_ec_key(); wickr_buffer_t *d = mk_buffer_opt(); wickr_digest_t m = mk_digest(); int64_t l0 = G.live;
    v_inject = true; wickr_ecdsa_result_t *r = openssl_ec_sign(k, d, m); v_inject = false;
    if (r) {
        POST("C19: a signature is returned only if every step succeeded", k && k->pri_data && d && !U.failed && !G.alloc_failed && U.mc_done && U.mc.sign_init && U.mc.final);
        POST("C19: exactly the given data is signed with the given private key and digest", U.mc.n_upd == 1 && tr_is(U.mc.part[0], d) && U.mc.uses_priv && tr_is(U.mc.key, k->pri_data) && md_of(&U.mc, &m));
        POST("C19: the whole signature is returned with its digest and curve", byte_is(r->sig_data, U.sig_n, U.sig_b) && same_digest(&r->digest_mode, &m) && same_curve(&r->curve, &k->curve));
    } else POST("C19: signing is refused only for missing input or a failure", !k || !k->pri_data || !d || U.failed || G.alloc_failed);
    POST("C25: signing leaves exactly its result allocated", G.live == l0 + (r ? 3 : 0));
    REACH("signed", r);
#elif defined(H_VERIFY)
    wickr_ec_key_t *k = nd_bool() ? NULL : mk_ec_key(); wickr_buffer_t *d = mk_buffer_opt(); wickr_ecdsa_result_t *s = nd_bool() ? NULL : mk_ecdsa(); int64_t l0 = G.live;
    v_inject = true; bool r = openssl_ec_verify(s, k, d); v_inject = false;
    if (r) {
        POST("C19: a signature is accepted only if the library verified it", k && d && s && !U.failed && U.verified && U.mc_done && U.mc.verify_init && U.mc.final);
        POST("C19: exactly the given data, key, digest and signature are verified", U.mc.n_upd == 1 && tr_is(U.mc.part[0], d) && !U.mc.uses_priv && tr_raw(U.mc.key, k->pub_data->bytes + 1, k->pub_data->length - 1)
             && k->pub_data->bytes[0] == EC_CURVE_ID_NIST_P521 && md_of(&U.mc, &s->digest_mode) && tr_is(U.sig_in, s->sig_data));
    } else POST("C19: a good signature is refused only for bad input or a failure", !k || !d || !s || U.failed || G.alloc_failed || k->pub_data->length < 2 || k->pub_data->bytes[0] != EC_CURVE_ID_NIST_P521);
    POST("C25: verifying leaves nothing allocated", G.live == l0);
    REACH("verified", r); REACH_OPT("refused by the library", !r && U.mc_done && U.mc.final);
#elif defined(H_TORAW)
    U.rsb[0] = nd_u8(); U.rsb[1] = nd_u8(); U.too_long[0] = nd_bool(); U.too_long[1] = nd_bool();
    wickr_ecdsa_result_t *s = nd_bool() ? NULL : mk_ecdsa(); int64_t l0 = G.live;
    v_inject = true; wickr_buffer_t *r = openssl_ecdsa_to_raw(s); v_inject = false;
    if (r) {
        POST("C19: a raw signature is returned only if every step succeeded", s && !U.failed && !G.alloc_failed && !U.too_long[0] && !U.too_long[1] && tr_is(U.der_in, s->sig_data));
        POST("C19: a raw signature is r then s, each in half of its length", r->length == s->curve.raw_signature_size && RW_OK(r->bytes, r->length) && U.rs[0].len == 66 && U.rs[1].len == 66
             && (U.k >= 66 || (r->bytes[U.k] == U.rsb[0] && r->bytes[66 + U.k] == U.rsb[1])));
    } else POST("C19: a raw signature is refused only for bad input or a failure", !s || U.failed || G.alloc_failed);
    POST("C25: conversion leaves exactly its result allocated", G.live == l0 + (r ? 2 : 0));
    REACH("raw signature", r); REACH_OPT("too long", s && !r && U.too_long[1] && !U.too_long[0]);
#elif defined(H_FROMRAW)
    U.der_n = (size_t)nd_range(8, 139);
    wickr_ec_curve_t c = EC_CURVE_NIST_P521; wickr_digest_t m = mk_digest(); wickr_buffer_t *b = nd_bool() ? NULL : mk_buffer_range(1, 200); int64_t l0 = G.live;
    v_inject = true; wickr_ecdsa_result_t *r = openssl_ecdsa_from_raw(c, m, b); v_inject = false;
    if (r) {
        POST("C19: a raw signature is read only at its length and if every step succeeded", b && b->length == 132 && !U.failed && !G.alloc_failed);
        POST("C19: r is the first half and s the second", U.rs[0].len == 66 && U.rs[1].len == 66 && (U.k >= 66 || (U.rs[0].b == b->bytes[U.k] && U.rs[1].b == b->bytes[66 + U.k])));
        POST("C19: the whole encoded signature is kept with its digest and curve", byte_is(r->sig_data, U.der_n, U.der_b) && same_digest(&r->digest_mode, &m) && same_curve(&r->curve, &c));
    } else POST("C19: a raw signature is refused only for bad input or a failure", !b || b->length != 132 || U.failed || G.alloc_failed);
    POST("C25: conversion leaves exactly its result allocated", G.live == l0 + (r ? 3 : 0));
    REACH("signature", r);
#elif defined(H_SECRET)
    U.sec_n = (size_t)nd_range(1, 66);
    wickr_ec_key_t *a = nd_bool() ? NULL : mk_ec_key(), *b = nd_bool() ? NULL : mk_ec_key(); int64_t l0 = G.live;
    v_inject = true; wickr_buffer_t *r = openssl_gen_shared_secret(a, b); v_inject = false;
    if (r) {
        POST("C19: a secret is agreed only if every step succeeded", a && b && a->pri_data && !U.failed && !G.alloc_failed && U.pc_done && U.pc.final);
        POST("C19: the secret is agreed between the local private key and the peer's public key", U.pc.uses_priv && tr_is(U.pc.key, a->pri_data) && U.pc.peer_set && tr_raw(U.pc.in, b->pub_data->bytes + 1, b->pub_data->length - 1) && b->pub_data->bytes[0] == EC_CURVE_ID_NIST_P521);
        POST("C19: the whole secret is returned", byte_is(r, U.sec_n, U.sec_b));
    } else POST("C19: key agreement is refused only for bad input or a failure", !a || !b || !a->pri_data || U.failed || G.alloc_failed || b->pub_data->length < 2 || b->pub_data->bytes[0] != EC_CURVE_ID_NIST_P521);
    POST("C25: key agreement leaves exactly its result allocated", G.live == l0 + (r ? 2 : 0));
    REACH("secret", r);
#elif defined(H_HMAC)
    wickr_buffer_t *d = mk_buffer_opt(), *k = mk_buffer_opt(); wickr_digest_t m = mk_digest(); int64_t l0 = G.live;
    v_inject = true; wickr_buffer_t *r = openssl_hmac_create(d, k, m); v_inject = false;
    if (r) POST("C19: a MAC is the whole MAC of exactly the data under the key", d && k && !U.failed && !G.alloc_failed && tr_is(U.hdata, d) && tr_is(U.hkey, k) && U.hmd == (int)m.digest_id && byte_is(r, m.size, U.hb));
    else POST("C19: a MAC is refused only for missing input or a failure", !d || !k || U.failed || G.alloc_failed);
    POST("C25: a MAC leaves exactly its result allocated", G.live == l0 + (r ? 2 : 0));
    REACH("MAC", r);
#elif defined(H_HMACV)
    wickr_buffer_t *d = mk_buffer_opt(), *k = mk_buffer_opt(), *x = nd_bool() ? NULL : mk_buffer_range(1, 200); wickr_digest_t m = mk_digest(); int64_t l0 = G.live;
    v_inject = true; bool r = openssl_hmac_verify(d, k, m, x); v_inject = false;
    if (r) POST("C19: a MAC is accepted only if it is the whole MAC of exactly the data under the key", d && k && x && !U.failed && !G.alloc_failed && tr_is(U.hdata, d) && tr_is(U.hkey, k) && U.hmd == (int)m.digest_id && byte_is(x, m.size, U.hb));
    POST("C25: MAC verification leaves nothing allocated", G.live == l0);
    REACH("MAC accepted", r); REACH_OPT("MAC rejected", !r && x && U.hout && x->length == m.size);
#elif defined(H_HKDF)
    wickr_buffer_t *k = mk_buffer_opt(), *salt = mk_buffer_opt(), *info = mk_buffer_opt(); wickr_digest_t m = mk_digest(); bool expand = nd_bool(); size_t n = expand ? (size_t)nd_u64() : m.size; int64_t l0 = G.live;
    v_inject = true; wickr_buffer_t *r = expand ? openssl_hkdf_expand(k, info, m, n) : openssl_hkdf(k, salt, info, m); v_inject = false;
    if (expand) salt = NULL;
    if (r) {
        POST("C19: a key is derived only if every step succeeded", k && !U.failed && !G.alloc_failed && U.pc_done && U.pc.id == EVP_PKEY_HKDF && md_of(&U.pc, &m));
        POST("C19: a key is derived from exactly the given key, salt and info", tr_is(U.pc.in, k) && (salt ? tr_is(U.pc.salt, salt) : U.pc.salt.len == 0) && (info ? tr_is(U.pc.info, info) : U.pc.info.len == 0) && (U.pc.mode == EVP_KDF_HKDF_MODE_EXPAND_ONLY) == expand);
        POST("C19: the derived key has the requested length", n > 0 && byte_is(r, n, U.sec_b));
    } else POST("C19: derivation is refused only for bad input or a failure", !k || U.failed || G.alloc_failed || (info && info->length > 1024) || n == 0 || n > MAX_BUFFER_SIZE);
    POST("C25: derivation leaves exactly its result allocated", G.live == l0 + (r ? 2 : 0));
    REACH("derived", r && salt && info); REACH("expanded", r && expand);
#elif defined(H_ENCFILE) || defined(H_DECFILE)
    U.f0 = nd_u8(); U.fb = nd_u8(); U.cb = nd_u8(); U.fo = (size_t)nd_range(0, INT64_MAX); U.wo = (size_t)nd_range(0, INT64_MAX);
#ifdef V_LOOPS
    U.N = (size_t)nd_range(0, INT64_MAX / 2);
#else
    U.N = (size_t)nd_range(0, 9000); U.fo %= 9000; U.wo %= 9000;
#endif
    if (U.fo == 0) U.fb = U.f0;
    FILE *in = nd_bool() ? NULL : f_in, *out = nd_bool() ? NULL : f_out;
    G.cat_k = U.wo;
#ifdef H_ENCFILE
    wickr_cipher_key_t *key = nd_bool() ? NULL : mk_key_any(); bool gcm = key && key->cipher.is_authenticated; U.H = gcm ? 29 : 17; size_t iv_n = gcm ? 12 : 16;
    if (U.wo >= 1 && U.wo < 1 + iv_n) U.k = U.wo - 1; else if (gcm && U.wo >= 13 && U.wo < 29) U.k = U.wo - 13;
    U.wpos = 5; int64_t l0 = G.live;
    v_inject = true; bool r = openssl_encrypt_file(in, key, out); v_inject = false;
    bool legal = in && out && key && key->key_data->length == 32;
    if (r) {
        POST("C20: only complete inputs are encrypted, with a key of the right length", legal);
        POST("C20: file encryption succeeds only if every step did", !U.failed && !G.alloc_failed && !U.err && !U.werr && U.cc_done && U.cc.enc && U.cc.n_final == 1);
        POST("C20: the whole file is read and encrypted", U.pos == U.N && U.cc.total == U.N && U.cc.n_aad == 0);
        POST("C20: the given key and a fresh IV are used", tr_is(U.cc.key, key->key_data) && U.cc.alg_obj == (gcm ? (void *)&cio[0] : (void *)&cio[1]) && U.cc.ivlen == iv_n && U.rands == 1 && U.cc.iv.len == iv_n && U.rnd.len == iv_n && U.cc.iv.b == U.rnd.b);
        POST("C20: the whole file is written", U.wlen == U.H + U.N && U.wset == (U.wo < U.wlen));
        if (U.wset) POST("C20: the written file is cipher, IV, tag and ciphertext", U.wb == (U.wo == 0 ? (uint8_t)key->cipher.cipher_id : U.wo < 1 + iv_n ? U.rnd.b : U.wo < U.H ? U.tagb : U.cb));
        POST("C20: the tag is taken from the completed encryption", gcm ? (U.cc.n_tag == 1 && U.tagn == 16) : U.cc.n_tag == 0);
    } else POST("C20: file encryption is refused only for bad input or a failure", !legal || U.failed || G.alloc_failed);
    REACH("encrypted file", r && U.N > 5000 && gcm); REACH("encrypted file in counter mode", r && !gcm); REACH_OPT("tag position", r && gcm && U.wo == 20);
#else
    wickr_cipher_key_t *key = nd_bool() ? NULL : mk_cipher_key(); bool auth = nd_bool(), gcm = U.f0 == CIPHER_ID_AES256_GCM; U.H = gcm ? 29 : 17; int64_t l0 = G.live;
    v_inject = true; bool r = openssl_decrypt_file(in, key, out, auth); v_inject = false;
    bool legal = in && out && key && U.N >= U.H && U.f0 == (uint8_t)key->cipher.cipher_id && (gcm || !auth);
    if (r) {
        POST("C20: a file is decrypted only by a key of its cipher, an unauthenticated one only if allowed", legal);
        POST("C20: file decryption succeeds only if every step did", !U.failed && !G.alloc_failed && !U.err && !U.werr && U.cc_done && !U.cc.enc && U.cc.n_final == 1);
        POST("C20: file decryption succeeds only if the tag of the file verified", !gcm || (U.verified && U.cc.tag_set && U.cc.tag.len == 16));
        POST("C20: the whole file is read and decrypted", U.pos == U.N && U.cc.total == U.N - U.H && U.cc.n_aad == 0);
        POST("C20: the given key is used with the cipher of the file", tr_is(U.cc.key, key->key_data) && U.cc.alg_obj == (gcm ? (void *)&cio[0] : (void *)&cio[1]) && U.cc.ivlen == (gcm ? 12 : 16));
        POST("C20: the whole plaintext is written", U.wlen == U.N - U.H && U.wset == (U.wo < U.wlen) && (!U.wset || U.wb == U.cb));
    } else POST("C20: file decryption is refused only for bad input or a failure", !legal || U.failed || G.alloc_failed);
    REACH("decrypted file", r && U.N > 5000 && gcm); REACH("decrypted file in counter mode", r && !gcm); REACH_OPT("unauthentic file", !r && U.cc_done && gcm && U.pos == U.N && !U.werr);
#endif
    POST("C25: file operations leave nothing allocated", G.live == l0);
#elif defined(H_FILEOPS)
    dlen = (size_t)nd_range(0, 64); spath = mk_mem(8); dpath = mk_mem(dlen + 1);
    wickr_cipher_key_t *key = nd_bool() ? NULL : mk_cipher_key(); bool enc = nd_bool(), auth = nd_bool(), hs = nd_bool(), hd = nd_bool(); int64_t l0 = G.live;
    v_inject = true; bool r = enc ? openssl_aes256_file_encrypt(key, hs ? spath : NULL, hd ? dpath : NULL) : openssl_aes256_file_decrypt(key, hs ? spath : NULL, hd ? dpath : NULL, auth); v_inject = false;
    if (r) POST("C20: success is reported only if the operation succeeded and its file was closed and put in place", U.op_ok && U.renamed && !U.close_failed && !U.failed && key && hs && hd);
    else POST("C20: failure is reported only for missing input or a failure", U.failed || G.alloc_failed || !key || !hs || !hd);
    if (U.ops) POST("C20: the requested operation is done with the given key and authentication requirement", U.ops == (enc ? 1u : 2u) && U.op_key == key && (enc || U.op_auth == auth));
    if (!r) POST("C20: a failed operation leaves the destination as it was", !U.renamed);
    POST("C20: no file stays open and no temporary file stays behind", !U.src_open && !U.tmp_open && !U.tmp_exists);
    POST("C25: file operations leave nothing allocated", G.live == l0);
    REACH("encrypted", r && enc); REACH("decrypted", r && !enc && auth); REACH_OPT("close failed", U.close_failed && U.op_ok);
#elif defined(H_ENGINE)
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    POST("C18: the default engine encrypts and decrypts by these functions", same_cipher(&e.default_cipher, &CIPHER_AES256_GCM) && e.wickr_crypto_engine_crypto_random == openssl_crypto_random && e.wickr_crypto_engine_cipher_key_random == openssl_cipher_key_random
         && e.wickr_crypto_engine_cipher_encrypt == openssl_aes256_encrypt && e.wickr_crypto_engine_cipher_decrypt == openssl_aes256_decrypt);
    POST("C20: the default engine processes files by these functions", e.wickr_crypto_engine_encrypt_file == openssl_aes256_file_encrypt && e.wickr_crypto_engine_decrypt_file == openssl_aes256_file_decrypt
         && e.wickr_crypto_engine_encrypt_ofile == openssl_encrypt_file && e.wickr_crypto_engine_decrypt_ofile == openssl_decrypt_file);
    POST("C19: the default engine hashes, signs, verifies, agrees and authenticates by these functions", same_curve(&e.default_curve, &EC_CURVE_NIST_P521) && e.wickr_crypto_engine_digest == openssl_sha2 && e.wickr_crypto_engine_digest_file == openssl_sha2_file
         && e.wickr_crypto_engine_ec_rand_key == openssl_ec_rand_key && e.wickr_crypto_engine_ec_key_import == openssl_ec_key_import && e.wickr_crypto_engine_ec_sign == openssl_ec_sign && e.wickr_crypto_engine_ec_verify == openssl_ec_verify
         && e.wickr_crypto_engine_ecdsa_to_raw == openssl_ecdsa_to_raw && e.wickr_crypto_engine_ecdsa_from_raw == openssl_ecdsa_from_raw && e.wickr_crypto_engine_gen_shared_secret == openssl_gen_shared_secret
         && e.wickr_crypto_engine_hmac_create == openssl_hmac_create && e.wickr_crypto_engine_hmac_verify == openssl_hmac_verify);
    REACH("engine", true);
#endif
}
