/* Contracts of fingerprint.c, and of the fingerprints of identities (identity.c) */
#include "gen_id.h"
#include "fingerprint.h"
#include "b32.h"
#include "util.h"
#include "memory.h"
#include "loopc.h"
#include "fingerprint_loop.h"

static struct {
    size_t k; bool engine_failed; unsigned digs; bool dig_ok; size_t in_len[3]; uint8_t in_k[3], in_0[3]; wickr_buffer_t *out; uint8_t out_fill;
    unsigned encs; bool hex; const wickr_buffer_t *enc_in; wickr_buffer_t *enc_out; size_t enc_len; uint8_t enc_k;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); }

/* SHA-512; G.cat_k is the position at which the input is observed */
static wickr_buffer_t *e_digest(const wickr_buffer_t *in, const wickr_buffer_t *salt, wickr_digest_t mode)
{
    wickr_digest_t s5 = DIGEST_SHA_512; unsigned n = U.digs++ % 3;
    POST("C23: a fingerprint is an unsalted SHA-512", R_OK(in, sizeof *in) && R_OK(in->bytes, in->length) && !salt && same_digest(&mode, &s5));
    U.in_len[n] = in->length; U.in_0[n] = in->bytes[0]; U.in_k[n] = U.k < in->length ? in->bytes[U.k] : 0;
    if (nd_fail()) { U.engine_failed = true; return NULL; }
    U.out = mk_buffer_len(64);
    return U.out;
}
static wickr_buffer_t *encoded(const wickr_buffer_t *b, bool hex, size_t len)
{
    U.encs++; U.hex = hex; U.enc_in = b;
    if (nd_fail()) { U.engine_failed = true; return NULL; }
    U.enc_out = mk_buffer_len(len); U.enc_len = len;
    U.enc_k = U.k < len ? U.enc_out->bytes[U.k] : 0;
    return U.enc_out;
}
wickr_buffer_t *base32_encode(const wickr_buffer_t *b) { return encoded(b, false, (b->length * 8 + 4) / 5); }
/* the text is followed by a terminator that is not part of its length */
wickr_buffer_t *getHexStringFromData(const wickr_buffer_t *b) { wickr_buffer_t *r = encoded(b, true, b->length * 2 + 1); if (r) r->length--; U.enc_len--; return r; }

#ifdef V_CONCAT
/* contract of wickr_buffer_concat (proved by unit buffer_concat), observed at U.k; at most one concatenation for each result prepared */
static struct { wickr_buffer_t *buf; unsigned used; size_t n, p; unsigned visits; } C;
static void concat_ready(size_t n) { C.buf = mk_buffer_len(2 * n); G.live -= 2; C.used = 0; C.n = n; }
wickr_buffer_t *wickr_buffer_concat(const wickr_buffer_t *a, const wickr_buffer_t *b)
{
    if (!a || !b) return NULL;
    POST("C23: one concatenation of two hashes", C.used == 0 && a->length == C.n && b->length == C.n);
    if (nd_fail()) { G.alloc_failed = true; return NULL; }
    C.used++; G.live += 2;
    NATIVE_ONLY(memcpy(C.buf->bytes, a->bytes, C.n); memcpy(C.buf->bytes + C.n, b->bytes, C.n);)
    C.buf->bytes[0] = a->bytes[0];
    C.buf->bytes[U.k] = U.k < C.n ? a->bytes[U.k] : b->bytes[U.k - C.n];
    return C.buf;
}
#ifdef V_LOOPS
/* C.p is the first position at which the two differ (C.n: none); nothing is concatenated before it is reached */
void v_loop_order(unsigned *i, wickr_buffer_t **concat_buffer, const wickr_fingerprint_t *f1, const wickr_fingerprint_t *f2)
{
    POST("C23: the search has not passed the first difference", *i <= C.p && *i <= C.n && !*concat_buffer && C.used == 0);
    if (!LOOP_STEP(C.visits)) LOOP_END();
    *i = (unsigned)nd_range(0, C.n); ASSUME(*i <= C.p);
    *concat_buffer = NULL;
    /* what it means that C.p is the first difference, at this position */
    ASSUME(*i >= C.p || f1->data->bytes[*i] == f2->data->bytes[*i]);
}
#endif
#endif
#ifdef H_ID_BI
/* contracts of the functions of fingerprint.c */
static struct { const wickr_ec_key_t *key[2]; const wickr_buffer_t *id[2]; wickr_fingerprint_t *fp[2], *both; unsigned gens, combos; bool combo_args, type_ok; } I;
static wickr_fingerprint_t *mk_fp(void);
wickr_fingerprint_t *wickr_fingerprint_gen(wickr_crypto_engine_t engine, const wickr_ec_key_t *key, const wickr_buffer_t *identifier, wickr_fingerprint_type type)
{
    unsigned n = I.gens++ & 1;
    I.key[n] = key; I.id[n] = identifier; I.type_ok = (n == 0 || I.type_ok) && type == WICKR_FINGERPRINT_TYPE_SHA512 && engine.wickr_crypto_engine_digest == e_digest;
    if (nd_fail()) { U.engine_failed = true; return NULL; }
    return I.fp[n] = mk_fp();
}
wickr_fingerprint_t *wickr_fingerprint_gen_bilateral(wickr_crypto_engine_t engine, const wickr_fingerprint_t *a, const wickr_fingerprint_t *b, wickr_fingerprint_type type)
{
    I.combos++; I.combo_args = ((a == I.fp[0] && b == I.fp[1]) || (a == I.fp[1] && b == I.fp[0])) && a != b && type == WICKR_FINGERPRINT_TYPE_SHA512 && engine.wickr_crypto_engine_digest == e_digest;
    if (nd_fail()) { U.engine_failed = true; return NULL; }
    return I.both = mk_fp();
}
void wickr_fingerprint_destroy(wickr_fingerprint_t **f) { if (!f || !*f) return; wickr_buffer_destroy(&(*f)->data); v_free(*f); *f = NULL; }
#endif
static wickr_fingerprint_t *mk_fp(void)
{
    wickr_fingerprint_t *f = mk_mem(sizeof *f);
    f->type = WICKR_FINGERPRINT_TYPE_SHA512; f->data = mk_buffer_len(64);
    return f;
}
#define n_fp(f) ((f) ? 3 : 0)
/* the byte of identifier || fixed length public key (zero padded) at U.k */
static uint8_t input_at(const wickr_buffer_t *id, const wickr_ec_key_t *key)
{
    if (U.k < id->length) return id->bytes[U.k];
    size_t p = U.k - id->length;
    return p < key->pub_data->length ? key->pub_data->bytes[p] : 0;
}

void harness(void)
{
    v_unit_reset(); U.k = G.cat_k = nd_range(0, INT32_MAX); int64_t l0; (void)l0;
    wickr_crypto_engine_t eng; memset(&eng, 0, sizeof eng);
    eng.wickr_crypto_engine_digest = e_digest;
#ifdef H_GEN
    wickr_ec_key_t *key = nd_bool() && nd_bool() ? NULL : mk_ec_key();
    wickr_buffer_t *id = mk_buffer_opt();
    if (key && nd_bool()) key->pub_data->length = nd_range(1, key->pub_data->length);
    wickr_identity_t ident; memset(&ident, 0, sizeof ident); ident.sig_key = key; ident.identifier = id;
    bool by_id = nd_bool();
    l0 = G.live; v_inject = true;
    wickr_fingerprint_t *f = by_id ? wickr_identity_get_fingerprint(&ident, eng) : wickr_fingerprint_gen(eng, key, id, WICKR_FINGERPRINT_TYPE_SHA512);
    v_inject = false;
    size_t max = key ? key->curve.max_pub_size : 0;
    POST("C23: a fingerprint is one hash, of 64 bytes", !f || (key && id && U.digs == 1 && f->data == U.out && f->data->length == 64 && f->type == WICKR_FINGERPRINT_TYPE_SHA512));
    POST("C23: the hash covers the identifier, then the public key in its fixed length", !f || (U.in_len[0] == id->length + max && (U.k >= U.in_len[0] || U.in_k[0] == input_at(id, key))));
    POST("C23: a key and an identifier have a fingerprint", f || !key || !id || id->length > MAX_BUFFER_SIZE - max || U.engine_failed || G.alloc_failed);
    POST("C25: fingerprint_gen leaks nothing", G.live == l0 + n_fp(f));
    REACH("fingerprint", f && !by_id); REACH("of identity", f && by_id);
    POST("C23: no fingerprint of nothing", wickr_identity_get_fingerprint(NULL, eng) == NULL && wickr_fingerprint_gen(eng, NULL, id, WICKR_FINGERPRINT_TYPE_SHA512) == NULL);
#endif
#ifdef H_BI
#ifdef V_LOOPS
    size_t n = nd_range(1, MAX_BUFFER_SIZE / 2);    /* fingerprints of any size */
#else
    size_t n = 64;                                  /* all there are: SHA-512 */
#endif
    wickr_fingerprint_t *a = mk_mem(sizeof *a), *b = mk_mem(sizeof *b);
    a->type = b->type = WICKR_FINGERPRINT_TYPE_SHA512; a->data = mk_buffer_len(n); b->data = mk_buffer_len(n);
    size_t j = nd_range(0, n - 1); bool hi = nd_bool(); U.k = hi ? n + j : j;
#ifdef V_LOOPS
    C.p = nd_range(0, n); C.visits = 0;
    ASSUME(C.p == n || a->data->bytes[C.p] != b->data->bytes[C.p]);
    ASSUME(j >= C.p || a->data->bytes[j] == b->data->bytes[j]);
#else
    NATIVE_ONLY(if (nd_bool()) memcpy(b->data->bytes, a->data->bytes, nd_range(1, n));)
    C.p = n;
    for (unsigned i = 0; i < 64; i++) if (C.p == n && a->data->bytes[i] != b->data->bytes[i]) C.p = i;
#endif
    uint8_t aj = a->data->bytes[j], bj = b->data->bytes[j];
    bool differ = C.p < n, a_first = differ && a->data->bytes[C.p] > b->data->bytes[C.p];
    concat_ready(n); l0 = G.live; v_inject = true;
    wickr_fingerprint_t *x = wickr_fingerprint_gen_bilateral(eng, a, b, WICKR_FINGERPRINT_TYPE_SHA512);
    v_inject = false;
    POST("C23: the common fingerprint hashes the greater fingerprint, then the other: the same for both parties", !x || (U.digs == 1 && U.in_len[0] == 2 * n && U.in_k[0] == (a_first != hi ? aj : bj)));
    POST("C23: the common fingerprint is that hash", !x || (x->data == U.out && x->type == WICKR_FINGERPRINT_TYPE_SHA512));
    POST("C23: different fingerprints have a common fingerprint", x || !differ || U.engine_failed || G.alloc_failed);
    POST("C25: fingerprint_gen_bilateral leaks nothing", G.live == l0 + n_fp(x));
    REACH("bilateral", x);
#endif
#ifdef H_BI_NONE
    wickr_fingerprint_t *a = nd_bool() ? NULL : mk_fp(), *c = nd_bool() ? NULL : mk_fp();
    if (c) c->data->length = nd_range(1, 63);
    wickr_fingerprint_type t = nd_bool() ? WICKR_FINGERPRINT_TYPE_SHA512 : (wickr_fingerprint_type)nd_u32();
    l0 = G.live;
    POST("C23: fingerprints of different size have no common fingerprint", wickr_fingerprint_gen_bilateral(eng, a, c, t) == NULL && wickr_fingerprint_gen_bilateral(eng, c, a, t) == NULL && U.digs == 0);
    POST("C25: fingerprint_gen_bilateral leaks nothing", G.live == l0);
    REACH_OPT("refused", a && c);
#endif
#ifdef H_ID_BI
    memset(&I, 0, sizeof I);
    wickr_identity_t p, q; memset(&p, 0, sizeof p); memset(&q, 0, sizeof q);
    p.sig_key = mk_ec_key(); p.identifier = mk_buffer(); q.sig_key = mk_ec_key(); q.identifier = mk_buffer();
    const wickr_identity_t *pp = nd_bool() && nd_bool() ? NULL : &p, *qq = nd_bool() && nd_bool() ? NULL : &q;
    l0 = G.live; v_inject = true;
    wickr_fingerprint_t *f = wickr_identity_get_bilateral_fingerprint(pp, qq, eng);
    v_inject = false;
    bool pq = I.key[0] == p.sig_key && I.id[0] == p.identifier && I.key[1] == q.sig_key && I.id[1] == q.identifier, qp = I.key[1] == p.sig_key && I.id[1] == p.identifier && I.key[0] == q.sig_key && I.id[0] == q.identifier;
    POST("C23: the fingerprint of two identities combines the fingerprints of both", !f || (pp && qq && I.gens == 2 && I.type_ok && (pq || qp) && I.combos == 1 && I.combo_args && f == I.both));
    POST("C23: two identities have a fingerprint", f || !pp || !qq || U.engine_failed || G.alloc_failed);
    POST("C25: identity_get_bilateral_fingerprint leaks nothing", G.live == l0 + n_fp(f));
    REACH("bilateral", f);
#endif
#ifdef H_TEXT
    wickr_fingerprint_t *f = nd_bool() && nd_bool() ? NULL : mk_mem(sizeof *f);
    if (f) { f->type = WICKR_FINGERPRINT_TYPE_SHA512; f->data = nd_bool() ? mk_buffer_len(64) : mk_buffer_range(1, MAX_BUFFER_SIZE / 4); }
    bool hex = nd_bool(), brief = nd_bool();
    l0 = G.live; v_inject = true;
    wickr_buffer_t *t = hex ? wickr_fingerprint_get_hex(f, brief ? FINGERPRINT_OUTPUT_SHORT : FINGERPRINT_OUTPUT_LONG) : wickr_fingerprint_get_b32(f, brief ? FINGERPRINT_OUTPUT_SHORT : FINGERPRINT_OUTPUT_LONG);
    v_inject = false;
    size_t want = brief ? U.enc_len / 2 : U.enc_len;
    POST("C23: the text is the encoding asked for, of the whole hash", !t || (f && U.encs == 1 && U.hex == hex && U.enc_in == f->data));
    POST("C23: a short text is the first half of the encoding, a long one all of it", !t || (t->length == want && (U.k >= want || t->bytes[U.k] == U.enc_k)));
    POST("C23: a fingerprint has a text", t || !f || U.engine_failed || G.alloc_failed);
    POST("C25: fingerprint texts leak nothing", G.live == l0 + (t ? 2 : 0));
    REACH("long", t && !brief); REACH("short", t && brief && t->length == 51); REACH("hex", t && hex);
#endif
#ifdef H_COPY
    wickr_fingerprint_t *f = nd_bool() && nd_bool() ? NULL : mk_mem(sizeof *f);
    if (f) { f->type = (wickr_fingerprint_type)nd_u32(); f->data = mk_buffer(); }
    l0 = G.live; v_inject = true;
    wickr_fingerprint_t *q = wickr_fingerprint_copy(f);
    v_inject = false;
    POST("C21: a copied fingerprint is complete and separate", !q || (f && q != f && q->type == f->type && same_bytes_at(q->data, f->data, U.k) && apart_buf(q->data, f->data)));
    POST("C21: copying a fingerprint succeeds", q || !f || G.alloc_failed);
    POST("C25: fingerprint_copy leaks nothing", G.live == l0 + n_fp(q));
    REACH("copied", q);
    wickr_fingerprint_destroy(&q); wickr_fingerprint_destroy(&q); wickr_fingerprint_destroy(NULL);
    POST("C25: fingerprint_destroy releases everything", !q && G.live == l0);
    wickr_buffer_t *d = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_fingerprint_t *n = wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, d);
    v_inject = false;
    POST("C23: a fingerprint holds the hash given", n ? d && n->data == d && n->type == WICKR_FINGERPRINT_TYPE_SHA512 : !d || G.alloc_failed);
    POST("C25: fingerprint_create takes nothing over when it fails", G.live == l0 + (n ? 1 : 0));
    REACH("created", n);
#endif
}
