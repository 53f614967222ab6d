/* Contracts of payload.c and packet_meta.c */
#include "gen_msg.h"
#include "pb.h"
#include "message.pb-c.h"

typedef Wickr__Proto__Payload PM;
static struct {
    size_t k; bool engine_failed, failed; const wickr_payload_t *p; const PM *in;
    const void *enc_in, *enc_key, *dec_in, *dec_key; wickr_cipher_result_t *enc; wickr_buffer_t *dec; bool enc_aad, enc_iv, only_auth;
    const wickr_buffer_t *ser, *parse_in; const void *ser_of; wickr_payload_t *parsed;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB); }

static void on_pack_payload(const PM *m)
{
    const wickr_payload_t *p = U.p;
    POST("C09: the message of a payload carries its metadata and body", p && m->body.data == p->body->bytes && m->body.len == p->body->length && m->metadata && m->metadata->has_channel_tag
        && m->metadata->channel_tag.data == p->meta->channel_tag->bytes && m->metadata->channel_tag.len == p->meta->channel_tag->length && m->metadata->has_content_type && m->metadata->content_type == p->meta->content_type
        && m->metadata->ephemerality_settings && m->metadata->ephemerality_settings->ttl == p->meta->ephemerality_settings.ttl
        && (m->metadata->ephemerality_settings->has_bor ? m->metadata->ephemerality_settings->bor == p->meta->ephemerality_settings.bor : p->meta->ephemerality_settings.bor == 0));
}
static PM *mk_pb_payload(void)
{
    int64_t l = G.live;
    PM i = WICKR__PROTO__PAYLOAD__INIT, *m = mk_mem(sizeof *m); *m = i;
    Wickr__Proto__Payload__Meta im = WICKR__PROTO__PAYLOAD__META__INIT; m->metadata = mk_mem(sizeof im); *m->metadata = im;
    Wickr__Proto__Payload__Meta__Ephemerality ie = WICKR__PROTO__PAYLOAD__META__EPHEMERALITY__INIT; m->metadata->ephemerality_settings = mk_mem(sizeof ie); *m->metadata->ephemerality_settings = ie;
    m->body = pb_bytes((size_t)INT32_MAX + 1); PB_OPT(m->metadata, channel_tag, (size_t)INT32_MAX + 1);
    m->metadata->has_content_type = nd_bool(); m->metadata->content_type = m->metadata->has_content_type ? nd_u32() : 0;
    m->metadata->ephemerality_settings->ttl = nd_u64();
    m->metadata->ephemerality_settings->has_bor = nd_bool(); m->metadata->ephemerality_settings->bor = m->metadata->ephemerality_settings->has_bor ? nd_u64() : 0;
    U.in = m; G.live = l + 1;
    return m;
}
static void free_pb_payload(PM *m) { G.live -= 1; }
PB_MSG(Wickr__Proto__Payload, payload, WICKR__PROTO__PAYLOAD__INIT)

static wickr_cipher_result_t *e_encrypt(const wickr_buffer_t *p, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, const wickr_buffer_t *iv)
{
    U.enc_in = p; U.enc_key = key; U.enc_aad = aad; U.enc_iv = iv;
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    return U.enc = mk_cipher_result();
}
static wickr_buffer_t *e_decrypt(const wickr_cipher_result_t *c, const wickr_buffer_t *aad, const wickr_cipher_key_t *key, bool only_auth)
{
    U.dec_in = c; U.dec_key = key; U.enc_aad = aad; U.only_auth = only_auth;
    if (nd_bool()) { U.engine_failed = true; return NULL; }
    U.dec = mk_buffer();
    G.watch = U.dec->bytes; G.watch_len = U.dec->length; G.watch_k = U.k;
    return U.dec;
}
#ifdef S_SER
/* contracts of the codec (proved by units payload_ser and payload_parse) */
wickr_buffer_t *wickr_payload_serialize(const wickr_payload_t *p)
{
    U.ser_of = p;
    if (!p || nd_bool()) { U.failed = true; return NULL; }
    wickr_buffer_t *b = mk_buffer(); U.ser = b; G.watch = b->bytes; G.watch_len = b->length; G.watch_k = U.k; return b;
}
wickr_payload_t *wickr_payload_create_from_buffer(const wickr_buffer_t *b)
{
    U.parse_in = b;
    if (!b || nd_bool()) { U.failed = true; return NULL; }
    return U.parsed = mk_payload();
}
#endif
void harness(void)
{
    memset(&U, 0, sizeof U); memset(&PB, 0, sizeof PB);
    U.k = nd_u64(); PB.k = nd_u64();
    wickr_crypto_engine_t eng; memset(&eng, 0, sizeof eng); eng.wickr_crypto_engine_cipher_encrypt = e_encrypt; eng.wickr_crypto_engine_cipher_decrypt = e_decrypt; int64_t l0;
#ifdef H_SER
    wickr_payload_t *p = nd_bool() ? NULL : mk_payload(); U.p = p;
    l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_payload_serialize(p);
    v_inject = false;
    POST("C09: the result is the packed message", !b || (p && ok_buffer(b) && PB_OUT_OK(b)));
    POST("C25: payload_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    REACH("serialized", b);
#endif
#ifdef H_PARSE
    wickr_buffer_t *b = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_payload_t *p = wickr_payload_create_from_buffer(b);
    v_inject = false;
    const PM *m = U.in;
    POST("C09: a payload is parsed from exactly the given bytes", !p || (b && PB.unpacks == 1 && PB.in == b->bytes && PB.in_len == b->length));
    POST("C09: a parsed payload has the metadata and body of its message", !p || (m->metadata->has_channel_tag && pb_is_copy(m->metadata->channel_tag, p->meta->channel_tag, U.k) && pb_is_copy(m->body, p->body, U.k)
        && p->meta->content_type == (uint16_t)m->metadata->content_type && p->meta->ephemerality_settings.ttl == m->metadata->ephemerality_settings->ttl && p->meta->ephemerality_settings.bor == m->metadata->ephemerality_settings->bor));
    POST("C09: a payload with tag and body is accepted", p || G.alloc_failed || !m || !m->metadata->has_channel_tag || !m->metadata->channel_tag.len || !m->body.len || m->body.len > MAX_BUFFER_SIZE || m->metadata->channel_tag.len > MAX_BUFFER_SIZE);
    POST("C25: payload_create_from_buffer leaks nothing", G.live == l0 + n_payload(p));
    REACH("parsed", p);
#endif
#ifdef H_COPY
    wickr_payload_t *s = nd_bool() ? NULL : mk_payload();
    l0 = G.live; v_inject = true;
    wickr_payload_t *c = wickr_payload_copy(s);
    v_inject = false;
    POST("C21: a payload copy is complete", !c || (s && same_payload(c, s, U.k)));
    POST("C21: a payload copy is separate", !c || apart_payload(c, s));
    POST("C21: copying succeeds", c || !s || G.alloc_failed);
    POST("C25: payload_copy leaks nothing", G.live == l0 + n_payload(c));
    REACH("copied", c);
    if (c) {
        G.watch = c->body->bytes; G.watch_len = c->body->length; G.watch_k = U.k;
        wickr_payload_destroy(&c);
        POST("C25: payload_destroy releases everything", !c && G.live == l0);
        POST("C16: the body of a destroyed payload is wiped", G.watch_freed && !G.watch_dirty);
    }
#endif
#ifdef H_CIPHER
    wickr_payload_t *s = nd_bool() ? NULL : mk_payload(); wickr_cipher_key_t *key = nd_bool() ? NULL : mk_cipher_key();
    l0 = G.live; v_inject = true;
    wickr_cipher_result_t *r = wickr_payload_encrypt(s, nd_bool() ? NULL : &eng, key);
    v_inject = false;
    POST("C09: the encrypted payload is the encryption of the serialized payload under the payload key", !r || (s && key && r == U.enc && U.enc_in == U.ser && U.ser_of == s && U.enc_key == key && !U.enc_aad && !U.enc_iv));
    POST("C16: the serialized payload is wiped", !G.watch || (G.watch_freed && !G.watch_dirty));
    POST("C25: payload_encrypt leaks nothing", G.live == l0 + n_cipher_result(r));
    REACH("encrypted", r);
    G.watch = NULL; G.watch_freed = G.watch_dirty = false;
    wickr_cipher_result_t *c = nd_bool() ? NULL : mk_cipher_result();
    l0 = G.live; v_inject = true;
    wickr_payload_t *p = wickr_payload_create_from_cipher(nd_bool() ? NULL : &eng, c, key);
    v_inject = false;
    POST("C11: a payload is released only if its ciphertext authenticates under the payload key", !p || (c && key && p == U.parsed && U.parse_in == U.dec && U.dec_in == c && U.dec_key == key && U.only_auth && !U.enc_aad));
    POST("C16: the decrypted payload bytes are wiped", !G.watch || (G.watch_freed && !G.watch_dirty));
    POST("C25: payload_create_from_cipher leaks nothing", G.live == l0 + n_payload(p));
    REACH("decrypted", p);
#endif
}
