/* Contracts of the byte codecs of cipher results, cipher keys and ECDSA signatures (cipher.c, ecdsa.c) */
#include "gen.h"
#include "private/cipher_priv.h"
#include "private/ecdsa_priv.h"
static int64_t n_cr(const wickr_cipher_result_t *r) { return r ? 3 + (r->auth_tag ? 2 : 0) + (r->cipher_text ? 2 : 0) : 0; }

void harness(void)
{
    size_t k = nd_u64();
#ifdef H_CR_RT
    wickr_cipher_result_t *r = nd_bool() ? NULL : mk_cipher_result();
    size_t il = r ? r->iv->length : 0, tl = r && r->auth_tag ? r->auth_tag->length : 0, cl = r && r->cipher_text ? r->cipher_text->length : 0;
    size_t total = 1 + il + tl + cl;
    uint8_t want = 0;
    if (r) want = k == 0 ? r->cipher.cipher_id : k < 1 + il ? r->iv->bytes[k - 1] : k < 1 + il + tl ? r->auth_tag->bytes[k - 1 - il] : k < total ? r->cipher_text->bytes[k - 1 - il - tl] : 0;
    int64_t l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_cipher_result_serialize(r);
    POST("C02: a cipher result is id | iv | tag | text, exactly", !b || (ok_buffer(b) && b->length == total && (k >= total || b->bytes[k] == want)));
    POST("C02: a cipher result can be serialized unless too long or out of memory", b || !r || total > MAX_BUFFER_SIZE || G.alloc_failed);
    POST("C25: cipher_result_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    G.alloc_failed = false; int64_t l1 = G.live;
    wickr_cipher_result_t *q = wickr_cipher_result_from_buffer(b);
    v_inject = false;
    POST("C02: parsing the serialized cipher result gives it back", !q || (r && ok_cipher_result(q) && same_cipher(&q->cipher, &r->cipher)
        && (same_bytes_at(q->iv, r->iv, k)) && same_bytes_at(q->auth_tag, r->auth_tag, k) && same_bytes_at(q->cipher_text, r->cipher_text, k)));
    POST("C02: parsing the serialized cipher result succeeds", q || !b || G.alloc_failed || b->length >= MAX_BUFFER_SIZE);
    POST("C25: cipher_result_from_buffer leaks nothing", G.live == l1 + n_cr(q));
    REACH("round trip gcm", q && q->auth_tag && q->cipher_text); REACH("round trip ctr", q && !q->auth_tag && q->cipher_text); REACH("empty text", q && !q->cipher_text);
    int64_t l2 = G.live - n_cr(q);
    if (q) { wickr_cipher_result_destroy(&q); POST("C25: cipher_result_destroy releases everything", q == NULL && G.live == l2); }
#endif
#ifdef H_CR_PARSE
    wickr_buffer_t *b = mk_buffer_opt(); size_t bl = b ? b->length : 0; uint8_t b0 = b ? b->bytes[0] : 0, bk = k < bl ? b->bytes[k] : 0;
    size_t need = b0 == 0 ? 29 : 17;
    int64_t l0 = G.live; v_inject = true;
    wickr_cipher_result_t *q = wickr_cipher_result_from_buffer(b);
    v_inject = false;
    POST("C02: only complete cipher results with a known id are accepted", !q || (b && b0 <= 1 && bl >= need && ok_cipher_result(q) && q->cipher.cipher_id == b0
        && (q->cipher_text ? q->cipher_text->length : 0) == bl - need));
    POST("C02: every complete cipher result is accepted", q || !b || b0 > 1 || bl < need || bl >= MAX_BUFFER_SIZE || G.alloc_failed);
    POST("C02: the parts of an accepted cipher result are the bytes of the input", !q || k == 0 || k >= bl ||
        bk == (k < 1u + q->cipher.iv_len ? q->iv->bytes[k - 1] : k < need ? q->auth_tag->bytes[k - 1 - q->cipher.iv_len] : q->cipher_text->bytes[k - need]));
    POST("C25: cipher_result_from_buffer leaks nothing", G.live == l0 + n_cr(q));
    REACH("accepted gcm", q && q->auth_tag); REACH("accepted ctr", q && !q->auth_tag); REACH_OPT("rejected", b && !q && b0 <= 1);
#endif
#ifdef H_CR_COPY
    wickr_cipher_result_t *r = nd_bool() ? NULL : mk_cipher_result();
    int64_t l0 = G.live; v_inject = true;
    wickr_cipher_result_t *q = wickr_cipher_result_copy(r);
    v_inject = false;
    POST("C21: a cipher result copy is complete", !q || (r && same_cipher(&q->cipher, &r->cipher) && ok_cipher_result(q) && same_bytes_at(q->iv, r->iv, k) && same_bytes_at(q->auth_tag, r->auth_tag, k) && same_bytes_at(q->cipher_text, r->cipher_text, k)));
    POST("C21: a cipher result copy is separate", !q || (q->iv != r->iv && q->iv->bytes != r->iv->bytes && (!q->auth_tag || (q->auth_tag != r->auth_tag && q->auth_tag->bytes != r->auth_tag->bytes)) && (!q->cipher_text || (q->cipher_text != r->cipher_text && q->cipher_text->bytes != r->cipher_text->bytes))));
    POST("C21: copying succeeds", q || !r || G.alloc_failed);
    POST("C25: cipher_result_copy leaks nothing", G.live == l0 + n_cr(q));
    REACH("copied", q && q->cipher_text && q->auth_tag);
    wickr_buffer_t *iv = mk_buffer_opt(), *t = mk_buffer_opt(), *tag = mk_buffer_opt(); wickr_cipher_t c = mk_cipher();
    l0 = G.live; G.alloc_failed = false; v_inject = true;
    q = wickr_cipher_result_create(c, iv, t, tag);
    v_inject = false;
    POST("C02: a cipher result has an IV and a tag of the length of its cipher", !q || (iv && iv->length == c.iv_len && (tag ? tag->length == c.auth_tag_len : !c.is_authenticated)
        && q->iv == iv && q->auth_tag == tag && q->cipher_text == t && same_cipher(&q->cipher, &c) && wickr_cipher_result_is_valid(q)));
    POST("C25: cipher_result_create leaks nothing", G.live == l0 + (q ? 1 : 0));
    REACH("created", q);
#endif
#ifdef H_CK
    wickr_cipher_key_t *key = nd_bool() ? NULL : mk_cipher_key(); uint8_t id = key ? key->cipher.cipher_id : 0;
    int64_t l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_cipher_key_serialize(key);
    POST("C02: a cipher key is id | key bytes, exactly", !b || (ok_buffer(b) && b->length == 33 && b->bytes[0] == id && (k >= 32 || b->bytes[1 + k] == key->key_data->bytes[k])));
    POST("C02: a cipher key can be serialized", b || !key || G.alloc_failed);
    POST("C25: cipher_key_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    l0 = G.live; G.alloc_failed = false;
    wickr_cipher_key_t *q = wickr_cipher_key_from_buffer(b);
    POST("C02: parsing the serialized cipher key gives it back", !q || (key && ok_cipher_key(q) && same_cipher(&q->cipher, &key->cipher) && same_bytes_at(q->key_data, key->key_data, k)));
    POST("C02: parsing the serialized cipher key succeeds", q || !b || G.alloc_failed);
    POST("C25: cipher_key_from_buffer leaks nothing", G.live == l0 + (q ? 3 : 0));
    REACH("round trip", q);
    l0 = G.live; G.alloc_failed = false;
    wickr_cipher_key_t *c = wickr_cipher_key_copy(key);
    POST("C21: a cipher key copy is equal and separate", !c || (key && ok_cipher_key(c) && same_cipher(&c->cipher, &key->cipher) && same_bytes_at(c->key_data, key->key_data, k) && c->key_data != key->key_data && c->key_data->bytes != key->key_data->bytes));
    POST("C21: copying succeeds", c || !key || G.alloc_failed);
    POST("C25: cipher_key_copy leaks nothing", G.live == l0 + (c ? 3 : 0));
    v_inject = false;
    if (c) {
        G.watch = c->key_data->bytes; G.watch_len = c->key_data->length; G.watch_k = k;
        wickr_cipher_key_destroy(&c);
        POST("C16: a destroyed cipher key leaves no key byte behind", c == NULL && G.watch_freed && !G.watch_dirty);
        POST("C25: cipher_key_destroy releases everything", G.live == l0);
        REACH("destroyed", true);
    }
#endif
#ifdef H_CK_PARSE
    wickr_buffer_t *b = mk_buffer_opt(); size_t bl = b ? b->length : 0; uint8_t b0 = b ? b->bytes[0] : 0, bk = k < bl ? b->bytes[k] : 0;
    int64_t l0 = G.live; v_inject = true;
    wickr_cipher_key_t *q = wickr_cipher_key_from_buffer(b);
    v_inject = false;
    POST("C02: only complete cipher keys of a known cipher are accepted", !q || (b && b0 <= 1 && bl >= 33 && ok_cipher_key(q) && q->cipher.cipher_id == b0 && (k == 0 || k > 32 || q->key_data->bytes[k - 1] == bk)));
    POST("C02: every complete cipher key is accepted", q || b0 > 1 || bl < 33 || G.alloc_failed);
    POST("C25: cipher_key_from_buffer leaks nothing", G.live == l0 + (q ? 3 : 0));
    wickr_buffer_t *kd = mk_buffer_opt(); wickr_cipher_t c = mk_cipher(); l0 = G.live;
    wickr_cipher_key_t *n = wickr_cipher_key_create(c, kd);
    POST("C02: a cipher key has the key length of its cipher", !n ? !kd || kd->length != c.key_len : kd->length == c.key_len && n->key_data == kd && same_cipher(&n->cipher, &c));
    REACH("accepted", q); REACH_OPT("rejected", b && !q); REACH("created", n);
#endif
#ifdef H_ES_RT
    wickr_ecdsa_result_t *r = nd_bool() ? NULL : mk_ecdsa();
    if (r && nd_bool()) r->sig_data = mk_buffer();
    size_t sl = r ? r->sig_data->length : 0, pad = P521_SIGNATURE_MAX_SIZE - 2 - sl;
    int64_t l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_ecdsa_result_serialize(r);
    POST("C02: a signature always has the fixed size of its curve", !b || (r && ok_buffer(b) && b->length == P521_SIGNATURE_MAX_SIZE && sl <= P521_SIGNATURE_MAX_SIZE - 2));
    POST("C02: a signature is meta | pad count | zero padding | signature, exactly", !b || k >= b->length || b->bytes[k] ==
        (k == 0 ? (uint8_t)((r->curve.identifier << 4) | r->digest_mode.digest_id) : k == 1 ? (uint8_t)pad : k < 2 + pad ? 0 : r->sig_data->bytes[k - 2 - pad]));
    POST("C02: a signature that fits can be serialized", b || !r || sl > P521_SIGNATURE_MAX_SIZE - 2 || G.alloc_failed);
    POST("C25: ecdsa_result_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    l0 = G.live; G.alloc_failed = false;
    wickr_ecdsa_result_t *q = wickr_ecdsa_result_create_from_buffer(b);
    POST("C02: parsing the serialized signature gives it back", !q || (r && ok_ecdsa(q) && same_digest(&q->digest_mode, &r->digest_mode) && same_bytes_at(q->sig_data, r->sig_data, k)));
    POST("C02: parsing the serialized signature succeeds", q || !b || G.alloc_failed);
    POST("C25: ecdsa_result_create_from_buffer leaks nothing", G.live == l0 + (q ? 3 : 0));
    REACH("round trip with padding", q && pad > 0); REACH("round trip without padding", q && pad == 0);
    l0 = G.live; G.alloc_failed = false;
    wickr_ecdsa_result_t *c = wickr_ecdsa_result_copy(r);
    v_inject = false;
    POST("C21: a signature copy is equal and separate", !c || (r && ok_ecdsa(c) && same_digest(&c->digest_mode, &r->digest_mode) && same_bytes_at(c->sig_data, r->sig_data, k) && c->sig_data != r->sig_data && c->sig_data->bytes != r->sig_data->bytes));
    POST("C21: copying succeeds", c || !r || G.alloc_failed);
    POST("C25: ecdsa_result_copy leaks nothing", G.live == l0 + (c ? 3 : 0));
    if (c) { wickr_ecdsa_result_destroy(&c); POST("C25: ecdsa_result_destroy releases everything", !c && G.live == l0); }
#endif
#ifdef H_ES_PARSE
    wickr_buffer_t *b = mk_buffer_opt(); size_t bl = b ? b->length : 0; uint8_t b0 = b ? b->bytes[0] : 0, b1 = bl > 1 ? b->bytes[1] : 0, bk = k < bl ? b->bytes[k] : 0;
    bool good = b && bl > 2u + b1 && (b0 >> 4) == 0 && (b0 & 15) >= 1 && (b0 & 15) <= 3;
    int64_t l0 = G.live; v_inject = true;
    wickr_ecdsa_result_t *q = wickr_ecdsa_result_create_from_buffer(b);
    v_inject = false;
    POST("C02: only signatures with a known curve and digest and a non-empty body are accepted", !q || (good && ok_ecdsa(q) && q->digest_mode.digest_id == (b0 & 15) && q->sig_data->length == bl - 2 - b1
        && (k < 2u + b1 || k >= bl || q->sig_data->bytes[k - 2 - b1] == bk)));
    POST("C02: every well formed signature is accepted", q || !good || G.alloc_failed);
    POST("C25: ecdsa_result_create_from_buffer leaks nothing", G.live == l0 + (q ? 3 : 0));
    REACH("accepted", q && b1 > 0); REACH_OPT("rejected", b && !q);
    ProtobufCBinaryData d = { bl, b ? b->bytes : NULL };
    wickr_ecdsa_result_t *p = wickr_ecdsa_result_from_protobytes(d);
    POST("C02: the protobuf field is parsed alike", (p != NULL) == good);
    wickr_cipher_key_t *ck = wickr_cipher_key_from_protobytes(d);
    POST("C02: the protobuf field is parsed alike (cipher key)", (ck != NULL) == (bl >= 33 && b0 <= 1));
    wickr_cipher_result_t *cr = wickr_cipher_result_from_protobytes(d);
    POST("C02: the protobuf field is parsed alike (cipher result)", (cr != NULL) == (b && b0 <= 1 && bl >= (b0 ? 17 : 29)) || bl >= MAX_BUFFER_SIZE);
#endif
}
