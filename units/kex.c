/* Contracts of key_exchange.c. Arrays are used by contract (units/array.c): an array of N items, N arbitrary, that owns
   its items. The ghost slot kk is arbitrary, so what holds for slot kk holds for every slot. */
#include "gen_kex.h"
#include "pb.h"
#include "loopc.h"
#include "key_exchange.pb-c.h"

typedef Wickr__Proto__KeyExchangeSet__Exchange XM;
typedef Wickr__Proto__KeyExchangeSet SM;
#define NPLAIN 3
static struct {
    size_t k; bool engine_failed, failed;
    uint32_t n, kk; wickr_key_exchange_t *item[NPLAIN], *K, *O; wickr_array_t *arr; bool full, kk_set; uint32_t sets, next;
    bool eq_kk, eq_other; const wickr_key_exchange_t *eq_item; const wickr_buffer_t *wanted;
    unsigned visits, dvisits, i0; int64_t live0; uint32_t made;
    const SM *in; XM **px;
    const wickr_cipher_result_t *ser_in; const uint8_t *cr_bytes; const wickr_cipher_result_t *cr_out[NPLAIN + 1]; size_t crs; bool cr_in_ok;
    wickr_array_t *copied, *copy; bool destroyed_deep; unsigned array_destroys; const void *destroyed;
    unsigned imports; size_t import_len; const uint8_t *import_ptr; bool import_private; wickr_ec_key_t *imported;
    const wickr_key_exchange_set_t *set; wickr_key_exchange_set_t *parsed; const wickr_buffer_t *ser, *parse_in;
    const void *enc_in, *enc_key, *dec_in, *dec_key; wickr_cipher_result_t *enc; wickr_buffer_t *dec; bool enc_aad, enc_iv, only_auth;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB); }

/* ---- contracts of arrays ---- */
static wickr_key_exchange_t *slot(uint32_t i)
{
#ifdef V_LOOPS
    return i == U.kk ? U.K : U.O;
#else
    return U.item[i];
#endif
}
static void mk_items(void)
{
    U.arr = mk_mem(8); U.full = true;
#ifdef V_LOOPS
    U.n = nd_u32(); U.kk = nd_u32(); U.K = mk_exchange(); U.O = mk_exchange();
#else
    U.n = (uint32_t)nd_range(0, NPLAIN); U.kk = (uint32_t)nd_range(0, NPLAIN);
    for (uint32_t i = 0; i < U.n; i++) U.item[i] = mk_exchange();
    if (U.kk < U.n) U.K = U.item[U.kk];
#endif
}
uint32_t wickr_array_get_item_count(const wickr_array_t *a) { return a && a == U.arr ? U.n : 0; }
void *wickr_array_fetch_item(const wickr_array_t *a, uint32_t i, bool copy)
{
    if (!a || a != U.arr || !U.full || i >= U.n) return NULL;
    return slot(i);
}
wickr_array_t *wickr_array_new(uint32_t n, uint8_t type, wickr_array_copy_func c, wickr_array_destroy_func d)
{
    if (n == 0 || nd_bool()) { U.failed = true; return NULL; }
    U.n = n; return U.arr = mk_mem(8);
}
/* the array takes the item over; its slots are filled in order here */
bool wickr_array_set_item(wickr_array_t *a, uint32_t i, void *item, bool copy)
{
    if (!a || a != U.arr || i >= U.n || !item) return false;
    if (nd_bool()) { U.failed = true; return false; }
    POST("C10: an exchange is stored once in its slot", i == U.next && !copy);
    U.next++; U.sets++;
    G.live -= n_exchange(item);
    if (i == U.kk) { U.K = item; U.kk_set = true; }
    return true;
}
wickr_array_t *wickr_array_copy(const wickr_array_t *a, bool deep)
{
    U.copied = (wickr_array_t *)a;
    if (!a || nd_bool()) { U.failed = true; return NULL; }
    POST("C21: exchanges are copied with the array", deep);
    return U.copy = mk_mem(8);
}
void wickr_array_destroy(wickr_array_t **a, bool deep)
{
    if (!a || !*a) return;
    U.array_destroys++; U.destroyed = *a; U.destroyed_deep = deep;
    v_free(*a); *a = NULL;
}
#ifdef S_EQ
/* contract of wickr_buffer_is_equal (proved in units/buffer.c), with the outcome for slot kk fixed */
bool wickr_buffer_is_equal(const wickr_buffer_t *a, const wickr_buffer_t *b, wickr_buffer_compare_func f)
{
    POST("C10: identifiers are compared as a whole", !f && (a == U.wanted || b == U.wanted));
    const wickr_buffer_t *o = a == U.wanted ? b : a; bool r = nd_bool();
    if (U.kk < U.n && o == U.K->exchange_id) { r = U.eq_kk; if (r) U.eq_item = U.K; }
    else if (r) {
        U.eq_item = U.O;
#ifndef V_LOOPS
        for (uint32_t i = 0; i < U.n; i++) if (U.item[i]->exchange_id == o) U.eq_item = U.item[i];
#endif
    }
    return r;
}
#endif
#ifdef S_CR
/* contracts of the cipher result codec (proved in units/codec.c) */
wickr_buffer_t *wickr_cipher_result_serialize(const wickr_cipher_result_t *r)
{
    if (!r || nd_bool()) { U.failed = true; return NULL; }
    wickr_buffer_t *b = mk_buffer();
    U.ser_in = r; U.ser = b;
    return b;
}
wickr_cipher_result_t *wickr_cipher_result_from_buffer(const wickr_buffer_t *b)
{
    if (!b || nd_bool()) { U.failed = true; return NULL; }
    wickr_cipher_result_t *r = mk_cipher_result();
    const XM *m = U.px ? U.px[U.next] : NULL;
    U.cr_in_ok = m && pb_is_copy(m->exchange_data, b, U.k);
    U.cr_out[0] = r;
    return r;
}
#endif
/* ---- messages ---- */
static bool xm_ok(const XM *m, const wickr_key_exchange_t *x)
{
    return m && m->key_id == x->key_id && m->identifier.data == x->exchange_id->bytes && m->identifier.len == x->exchange_id->length && m->exchange_data.data;
}
static void on_pack_key_exchange_set(const SM *m)
{
    POST("C10: all exchanges are serialized", U.set && m->n_exchanges == U.n);
    POST("C10: the public key of the sender is serialized", m->sender_pub.data == U.set->sender_pub->pub_data->bytes && m->sender_pub.len == U.set->sender_pub->pub_data->length);
    POST("C10: each exchange is serialized in its place", U.kk >= U.n || xm_ok(m->exchanges[U.kk], U.K));
}
static ProtobufCBinaryData raw_bytes(size_t max) { int64_t l = G.live; ProtobufCBinaryData d = pb_bytes(max); G.live = l; return d; }
static XM *mk_xm(void)
{
    int64_t l = G.live; XM i = WICKR__PROTO__KEY_EXCHANGE_SET__EXCHANGE__INIT, *m = mk_mem(sizeof *m);
    *m = i; G.live = l; m->identifier = raw_bytes((size_t)INT32_MAX + 1); m->key_id = nd_u64(); m->exchange_data = raw_bytes((size_t)INT32_MAX + 1);
    return m;
}
static SM *mk_pb_key_exchange_set(void)
{
    int64_t l = G.live; SM i = WICKR__PROTO__KEY_EXCHANGE_SET__INIT, *m = mk_mem(sizeof *m);
    *m = i; m->sender_pub = raw_bytes((size_t)INT32_MAX + 1);
#ifdef V_LOOPS
    m->n_exchanges = nd_u64(); ASSUME(m->n_exchanges <= (1ull << 40));
    U.kk = nd_u32();
    m->exchanges = m->n_exchanges ? mk_mem(m->n_exchanges * sizeof(XM *)) : NULL;
    if (U.kk < m->n_exchanges) m->exchanges[U.kk] = mk_xm();
#else
    m->n_exchanges = nd_range(0, NPLAIN); U.kk = (uint32_t)nd_range(0, NPLAIN);
    m->exchanges = m->n_exchanges ? mk_mem(NPLAIN * sizeof(XM *)) : NULL;
    for (size_t j = 0; j < m->n_exchanges; j++) m->exchanges[j] = mk_xm();
#endif
    U.in = m; U.px = m->exchanges;
    G.live = l + 1; return m;
}
static void free_pb_key_exchange_set(SM *m) { G.live -= 1; }
PB_MSG(Wickr__Proto__KeyExchangeSet, key_exchange_set, WICKR__PROTO__KEY_EXCHANGE_SET__INIT)
void wickr__proto__key_exchange_set__exchange__init(XM *m) { XM i = WICKR__PROTO__KEY_EXCHANGE_SET__EXCHANGE__INIT; *m = i; }

/* ---- engine ---- */
static wickr_ec_key_t *e_import(const wickr_buffer_t *b, bool is_private)
{
    U.imports++; U.import_len = b->length; U.import_ptr = b->bytes; U.import_private = is_private;
    if (nd_bool() || b->length == 0) { U.engine_failed = true; return NULL; }
    return U.imported = is_private ? mk_ec_key_pair() : mk_ec_key_pub();
}
static wickr_cipher_result_t *e_encrypt(const wickr_buffer_t *p, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, const wickr_buffer_t *iv)
{
    U.enc_in = p; U.enc_key = key; U.enc_aad = aad; U.enc_iv = iv;
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    return U.enc = mk_cipher_result();
}
static wickr_buffer_t *e_decrypt(const wickr_cipher_result_t *c, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, bool only_auth)
{
    U.dec_in = c; U.dec_key = key; U.enc_aad = aad; U.only_auth = only_auth;
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    U.dec = mk_buffer();
    G.watch = U.dec->bytes; G.watch_len = U.dec->length; G.watch_k = U.k;
    return U.dec;
}
static wickr_crypto_engine_t mk_engine(void)
{
    wickr_crypto_engine_t e; memset(&e, 0, sizeof e);
    e.default_curve = EC_CURVE_NIST_P521; e.wickr_crypto_engine_ec_key_import = e_import;
    e.wickr_crypto_engine_cipher_encrypt = e_encrypt; e.wickr_crypto_engine_cipher_decrypt = e_decrypt;
    return e;
}
#ifdef S_SET
wickr_buffer_t *wickr_key_exchange_set_serialize(const wickr_key_exchange_set_t *s)
{
    U.set = s;
    if (!s || nd_bool()) { U.failed = true; return NULL; }
    wickr_buffer_t *b = mk_buffer(); U.ser = b; G.watch = b->bytes; G.watch_len = b->length; G.watch_k = U.k; return b;
}
wickr_key_exchange_set_t *wickr_key_exchange_set_create_from_buffer(const wickr_crypto_engine_t *e, const wickr_buffer_t *b)
{
    U.parse_in = b;
    if (!b || !e || nd_bool()) { U.failed = true; return NULL; }
    return U.parsed = mk_mem(sizeof(wickr_key_exchange_set_t));
}
#endif
#ifdef V_LOOPS
/* no exchange before i has the identifier looked for */
void v_loop_find(uint32_t *i, const wickr_key_exchange_set_t *s)
{
    bool inv = *i <= U.n && (U.kk >= *i || U.kk >= U.n || !U.eq_kk);
    if (LOOP_STEP(U.visits)) {
        POST("C10: search loop invariant on entry", inv && *i == 0);
        U.i0 = *i = (uint32_t)nd_range(0, U.n); ASSUME(U.kk >= *i || U.kk >= U.n || !U.eq_kk);
    } else { POST("C10: search loop invariant preserved", inv && *i == U.i0 + 1); LOOP_END(); }
}
/* the exchanges before i are parsed into their slots */
static bool parse_inv(uint32_t i, wickr_array_t *a)
{
    return i <= U.n && a == U.arr && U.next == i && U.sets == i && G.live == U.live0 && U.kk_set == (U.kk < i) && U.array_destroys == 0 && !U.failed;
}
void v_loop_parse(uint32_t *i, wickr_array_t **a, const SM *m)
{
    if (LOOP_STEP(U.visits)) {
        U.live0 = G.live;
        POST("C10: parse loop invariant on entry", parse_inv(*i, *a) && *i == 0 && m == U.in && U.n == m->n_exchanges);
        U.i0 = *i = (uint32_t)nd_range(0, U.n); U.next = U.sets = *i;
        if (U.kk < *i) { int64_t l = G.live; U.kk_set = true; U.K = mk_exchange(); U.cr_out[1] = U.K->exchange_ciphertext; G.live = l;
            const XM *x = m->exchanges[U.kk];
            /* what the body established for slot kk (below) */
            ASSUME(x->identifier.len && U.K->key_id == x->key_id && pb_is_copy(x->identifier, U.K->exchange_id, U.k)); }
        if (*i < U.n && *i != U.kk) m->exchanges[*i] = mk_xm();
    } else {
        POST("C10: parse loop invariant preserved", parse_inv(*i, *a) && *i == U.i0 + 1);
        const XM *x = m->exchanges[U.i0];
        POST("C10: an exchange is parsed into its slot", U.kk != U.i0 || (U.K->key_id == x->key_id && pb_is_copy(x->identifier, U.K->exchange_id, U.k) && U.K->exchange_ciphertext == U.cr_out[0] && U.cr_in_ok));
        LOOP_END();
    }
}
/* the messages of the exchanges before i are built: one allocation and its data each; missing ones are NULL */
void v_loop_ser(uint32_t *i, XM **x, uint32_t n)
{
    if (LOOP_STEP(U.visits)) {
        U.live0 = G.live;
        POST("C10: serialize loop invariant on entry", *i == 0 && n == U.n && x && (U.kk >= n || x[U.kk] == NULL));
        U.px = x; U.i0 = *i = (uint32_t)nd_range(0, n);
        G.live += 2 * (int64_t)*i; U.made = *i;
        if (U.kk < *i) { int64_t l = G.live; XM *m = mk_xm(); G.live = l; m->key_id = U.K->key_id; m->identifier.data = U.K->exchange_id->bytes; m->identifier.len = U.K->exchange_id->length; m->exchange_data = raw_bytes(100); ASSUME(m->exchange_data.data != NULL); x[U.kk] = m; }
        if (*i < n) x[*i] = NULL;
    } else {
        POST("C10: serialize loop invariant preserved", *i == U.i0 + 1 && *i <= n && G.live == U.live0 + 2 * (int64_t)*i);
        POST("C10: the message of an exchange has its fields", U.kk != U.i0 || (xm_ok(x[U.kk], U.K) && U.ser_in == U.K->exchange_ciphertext));
        U.made = *i; LOOP_END();
    }
}
/* releasing the messages: those made so far, in order; U.made were made */
void v_loop_free(size_t *i, XM **x, size_t n)
{
    if (LOOP_STEP(U.dvisits)) {
        POST("C25: release loop invariant on entry", *i == 0 && n == U.n);
        /* the body of the serialize loop may have completed one more message */
        U.i0 = *i = (size_t)nd_range(0, n);
        int64_t freed = *i < U.made ? *i : U.made;
        U.live0 = G.live;
        G.live -= 2 * freed;
        if (*i < n) { if (*i < U.made) { int64_t l = G.live; XM *m = mk_xm(); m->exchange_data = raw_bytes(100); ASSUME(m->exchange_data.data != NULL); G.live = l; x[*i] = m; } else x[*i] = NULL; }
    } else {
        int64_t freed = *i < U.made ? *i : U.made;
        POST("C25: release loop invariant preserved", *i == U.i0 + 1 && *i <= n && G.live == U.live0 - 2 * freed);
        LOOP_END();
    }
}
#endif

void harness(void)
{
    memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB);
    U.k = nd_u64(); PB.k = nd_u64();
    wickr_crypto_engine_t eng = mk_engine(); int64_t l0;
#ifdef H_COPY
    wickr_key_exchange_t *s = nd_bool() ? NULL : mk_exchange();
    l0 = G.live; v_inject = true;
    wickr_key_exchange_t *c = wickr_key_exchange_copy(s);
    v_inject = false;
    POST("C21: a key exchange copy is complete", !c || (s && same_exchange(c, s, U.k)));
    POST("C21: a key exchange copy is separate", !c || apart_exchange(c, s));
    POST("C21: copying succeeds", c || !s || G.alloc_failed);
    POST("C25: key_exchange_copy leaks nothing", G.live == l0 + n_exchange(c));
    REACH("copied", c);
    if (c) { wickr_key_exchange_destroy(&c); POST("C25: key_exchange_destroy releases everything", !c && G.live == l0); }
    wickr_buffer_t *id = mk_buffer_opt(); wickr_cipher_result_t *r = nd_bool() ? NULL : mk_cipher_result(); uint64_t kid = nd_u64();
    l0 = G.live; v_inject = true;
    wickr_key_exchange_t *x = wickr_key_exchange_create(id, kid, r);
    v_inject = false;
    POST("C10: an exchange consists of the parts given", !x || (x->exchange_id == id && x->key_id == kid && x->exchange_ciphertext == r && id && r));
    POST("C25: key_exchange_create leaks nothing", G.live == l0 + (x ? 1 : 0));
    REACH("created", x);
#endif
#ifdef H_FIND
    mk_items(); U.eq_kk = nd_bool();
    wickr_key_exchange_set_t set = { mk_ec_key_pub(), U.arr }; wickr_buffer_t *id = mk_buffer_opt(); U.wanted = id;
    l0 = G.live; v_inject = true;
    wickr_key_exchange_t *x = wickr_key_exchange_set_find(nd_bool() ? NULL : &set, id);
    v_inject = false;
    POST("C10: only an exchange with the identifier looked for is found, whole", !x || (id && U.eq_item && same_exchange(x, U.eq_item, U.k) && apart_exchange(x, U.eq_item)));
    POST("C25: key_exchange_set_find leaks nothing", G.live == l0 + n_exchange(x));
    REACH("found", x);
    if (id && !x && !G.alloc_failed && !U.eq_item && U.set == NULL) REACH("not found", true);
#endif
#ifdef H_FIND2
    /* with a set and an identifier: nothing is found only if no exchange has the identifier */
    mk_items(); U.eq_kk = nd_bool();
    wickr_key_exchange_set_t set = { mk_ec_key_pub(), U.arr }; wickr_buffer_t *id = mk_buffer(); U.wanted = id;
    wickr_key_exchange_t *x = wickr_key_exchange_set_find(&set, id);
    POST("C10: an exchange is found if there is one", x || U.kk >= U.n || !U.eq_kk);
    REACH("found", x); REACH("not found", !x && U.n > 1);
#endif
#ifdef H_SETCOPY
    wickr_key_exchange_set_t *s = nd_bool() ? NULL : mk_mem(sizeof *s);
    if (s) { s->sender_pub = mk_ec_key(); s->exchanges = mk_mem(8); }
    l0 = G.live; v_inject = true;
    wickr_key_exchange_set_t *c = wickr_key_exchange_set_copy(s);
    v_inject = false;
    POST("C21: an exchange set copy is complete and separate", !c || (s && same_ec_key(c->sender_pub, s->sender_pub, U.k) && apart_ec_key(c->sender_pub, s->sender_pub) && U.copied == s->exchanges && c->exchanges == U.copy && c != s));
    POST("C21: copying succeeds", c || !s || U.failed || G.alloc_failed);
    POST("C25: key_exchange_set_copy leaks nothing", G.live == l0 + (c ? 2 + n_ec_key(c->sender_pub) : 0));
    REACH("copied", c);
    U.array_destroys = 0;
    if (c) { wickr_key_exchange_set_destroy(&c); POST("C25: key_exchange_set_destroy releases everything", !c && G.live == l0 && U.array_destroys == 1 && U.destroyed_deep); }
#endif
#ifdef H_SER
    mk_items();
    wickr_key_exchange_set_t *s = nd_bool() ? NULL : mk_mem(sizeof *s);
    if (s) { s->sender_pub = mk_ec_key(); s->exchanges = U.arr; }
    U.set = s;
    ASSUME(U.n > 0);
    l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_key_exchange_set_serialize(s);
    v_inject = false;
    POST("C10: the result is the packed message", !b || (s && ok_buffer(b) && PB_OUT_OK(b)));
#ifndef V_LOOPS
    POST("C25: key_exchange_set_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
#else
    POST("C25: key_exchange_set_serialize leaks nothing", U.dvisits == 0 ? !b && G.live == l0 : G.live == l0 + (b ? 2 : 0));
#endif
    REACH("serialized", b && U.n > 1); REACH_OPT("failed", !b && s && U.n > 1);
#endif
#ifdef H_PARSE
    wickr_buffer_t *b = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_key_exchange_set_t *s = wickr_key_exchange_set_create_from_buffer(&eng, b);
    v_inject = false;
    POST("C10: an exchange set is parsed from exactly the given bytes", !s || (b && PB.unpacks == 1 && PB.in == b->bytes && PB.in_len == b->length));
    POST("C10: all exchanges are parsed", !s || (s->exchanges == U.arr && U.sets == U.in->n_exchanges && U.n == U.in->n_exchanges && U.array_destroys == 0));
    POST("C10: the public key of the sender is parsed", !s || (U.imports == 1 && s->sender_pub == U.imported && U.import_len == U.in->sender_pub.len && !U.import_private));
    POST("C25: key_exchange_set_create_from_buffer leaks nothing", G.live == l0 + (s ? 2 + n_ec_key(s->sender_pub) : 0));
    POST("C25: a failed parse releases the exchanges parsed so far", s || !U.arr || (U.array_destroys == 1 && U.destroyed_deep));
    REACH("parsed", s && U.n > 1); REACH_OPT("failed late", !s && U.sets > 1);
#endif
#ifdef H_CIPHER
    wickr_key_exchange_set_t *s = nd_bool() ? NULL : mk_mem(sizeof *s); wickr_cipher_key_t *key = nd_bool() ? NULL : mk_cipher_key();
    l0 = G.live; v_inject = true;
    wickr_cipher_result_t *r = wickr_key_exchange_set_encrypt(s, nd_bool() ? NULL : &eng, key);
    v_inject = false;
    POST("C11: the header is the encryption of the exchange set under the header key", !r || (s && key && r == U.enc && U.enc_in == U.ser && U.set == s && U.enc_key == key && !U.enc_aad && !U.enc_iv));
    POST("C16: the plain exchange set is wiped", !G.watch || (G.watch_freed && !G.watch_dirty));
    POST("C25: key_exchange_set_encrypt leaks nothing", G.live == l0 + n_cipher_result(r));
    REACH("encrypted", r);
    G.watch = NULL; G.watch_freed = G.watch_dirty = false;
    wickr_cipher_result_t *c = nd_bool() ? NULL : mk_cipher_result();
    l0 = G.live; v_inject = true;
    wickr_key_exchange_set_t *p = wickr_key_exchange_set_create_from_cipher(nd_bool() ? NULL : &eng, c, key);
    v_inject = false;
    POST("C11: a header is accepted only if it authenticates under the header key", !p || (c && key && p == U.parsed && U.parse_in == U.dec && U.dec_in == c && U.dec_key == key && U.only_auth && !U.enc_aad));
    POST("C16: the plain exchange set is wiped", !G.watch || (G.watch_freed && !G.watch_dirty));
    POST("C25: key_exchange_set_create_from_cipher leaks nothing", G.live == l0 + (p ? 1 : 0));
    REACH("decrypted", p);
#endif
}
