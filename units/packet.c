/* Contracts of transport_packet.c */
#include "gen_id.h"
#include "transport_packet.h"

static struct {
    size_t k; bool engine_failed;
    unsigned validates; bool validate_ret; const void *validated;
    unsigned verifies; bool verify_ret; bool v_args; const void *v_key;
    unsigned signs; const void *sign_id; size_t sign_len; uint8_t sign_byte, sign_first; bool sign_has_byte;
    wickr_transport_packet_t *p; wickr_ecdsa_result_t sig; uint8_t sig_digest; size_t sig_len; uint8_t sig_byte;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); }

static bool e_verify(const wickr_ecdsa_result_t *s, const wickr_ec_key_t *key, const wickr_buffer_t *data)
{
    const wickr_buffer_t *net = U.p->network_buffer, *mac = U.p->mac;
    U.verifies++; U.v_key = key;
    U.v_args = data->bytes == net->bytes && data->length == net->length - mac->length && ok_ecdsa(s)
        && s->digest_mode.digest_id == (mac->bytes[0] & 15) && s->sig_data->length + 2 + mac->bytes[1] == mac->length
        && (U.k >= s->sig_data->length || s->sig_data->bytes[U.k] == mac->bytes[2 + mac->bytes[1] + U.k]);
    return U.verify_ret = nd_bool();
}
static wickr_crypto_engine_t mk_engine(void)
{
    wickr_crypto_engine_t e; memset(&e, 0, sizeof e);
    e.default_curve = EC_CURVE_NIST_P521; e.wickr_crypto_engine_ec_verify = e_verify;
    return e;
}
/* contracts proved in units/identity.c */
bool wickr_identity_chain_validate(wickr_identity_chain_t *c, const wickr_crypto_engine_t *e)
{
    U.validates++; U.validated = c;
    return U.validate_ret = c && e && nd_bool();
}
wickr_ecdsa_result_t *wickr_identity_sign(const wickr_identity_t *id, const wickr_crypto_engine_t *e, const wickr_buffer_t *data)
{
    U.signs++; U.sign_id = id;
    if (!id || !e || !data || nd_bool()) { U.engine_failed = true; return NULL; }
    U.sign_len = data->length; U.sign_first = data->bytes[0];
    if (U.k < data->length) U.sign_byte = data->bytes[U.k];
    wickr_ecdsa_result_t *r = mk_ecdsa();
    U.sig_digest = r->digest_mode.digest_id; U.sig_len = r->sig_data->length; if (U.k < P521_SIGNATURE_MAX_SIZE && U.k >= P521_SIGNATURE_MAX_SIZE - U.sig_len) U.sig_byte = r->sig_data->bytes[U.k - (P521_SIGNATURE_MAX_SIZE - U.sig_len)];
    return r;
}

static wickr_transport_packet_meta_t mk_meta(void)
{
    wickr_transport_packet_meta_t m; memset(&m, 0, sizeof m);
    m.mac_type = (wickr_transport_packet_mac_type)nd_range(0, 2);
    if (nd_bool()) { m.body_type = TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT; m.body_meta.data.sequence_number = nd_u64(); }
    else { m.body_type = TRANSPORT_PAYLOAD_TYPE_HANDSHAKE; m.body_meta.handshake.protocol_version = nd_u8(); m.body_meta.handshake.flags = nd_u64(); }
    return m;
}
static bool same_meta(const wickr_transport_packet_meta_t *a, const wickr_transport_packet_meta_t *b)
{
    return a->mac_type == b->mac_type && a->body_type == b->body_type
        && (a->body_type == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT ? a->body_meta.data.sequence_number == b->body_meta.data.sequence_number
          : a->body_meta.handshake.protocol_version == b->body_meta.handshake.protocol_version && a->body_meta.handshake.flags == b->body_meta.handshake.flags);
}
static size_t meta_len(const wickr_transport_packet_meta_t *m) { return m->body_type == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT ? 9 : 10; }
static uint64_t le64(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }
/* the documented layout: type and mac nibbles, then the sequence number, or version and flags */
static bool meta_at(const wickr_transport_packet_meta_t *m, const uint8_t *b)
{
    if (b[0] >> 4 != (uint8_t)m->body_type || (b[0] & 15) != (uint8_t)m->mac_type) return false;
    return m->body_type == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT ? le64(b + 1) == m->body_meta.data.sequence_number
        : b[1] == m->body_meta.handshake.protocol_version && le64(b + 2) == m->body_meta.handshake.flags;
}
static wickr_transport_packet_t *mk_packet(bool with_mac)
{
    wickr_transport_packet_t *p = mk_mem(sizeof *p);
    p->meta = mk_meta(); p->body = mk_buffer(); p->network_buffer = NULL; p->mac = NULL;
    if (with_mac && p->meta.mac_type == TRANSPORT_MAC_TYPE_EC_P521) p->mac = mk_buffer_len(P521_SIGNATURE_MAX_SIZE);
    return p;
}
static int64_t n_packet(const wickr_transport_packet_t *p) { return p ? 1 + (p->body ? 2 : 0) + (p->mac ? 2 : 0) + (p->network_buffer ? 2 : 0) : 0; }
/* byte k of the serialized packet */
static bool packet_at(const wickr_transport_packet_t *p, const wickr_buffer_t *b, size_t k)
{
    size_t m = meta_len(&p->meta), n = p->mac ? p->mac->length : 0;
    if (b->length != m + p->body->length + n || !meta_at(&p->meta, b->bytes)) return false;
    if (k < m || k >= b->length) return true;
    if (k < m + p->body->length) return b->bytes[k] == p->body->bytes[k - m];
    return b->bytes[k] == p->mac->bytes[k - m - p->body->length];
}
#define RT_OK(b, q, k) (same_meta(&(q)->meta, &(b)->meta))

void harness(void)
{
    memset(&U, 0, sizeof U);
    U.k = G.cat_k = nd_u64();
    wickr_crypto_engine_t eng = mk_engine(); int64_t l0;
#ifdef H_META
    wickr_transport_packet_meta_t m = mk_meta();
    l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_transport_packet_meta_serialize(nd_bool() ? NULL : &m);
    v_inject = false;
    POST("C03: packet metadata is encoded as documented", !b || (ok_buffer(b) && b->length == meta_len(&m) && meta_at(&m, b->bytes)));
    POST("C25: packet_meta_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    REACH("data", b && m.body_type == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT); REACH("handshake", b && m.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE);
    if (b) {
        wickr_transport_packet_meta_t o; memset(&o, nd_u8(), sizeof o);
        int n = wickr_transport_packet_meta_initialize_buffer(&o, b);
        POST("C03: encoded metadata is parsed back", n == (int)b->length && same_meta(&o, &m));
    }
    wickr_buffer_t *x = mk_buffer_opt(); wickr_transport_packet_meta_t o; memset(&o, nd_u8(), sizeof o);
    int n = wickr_transport_packet_meta_initialize_buffer(&o, x);
    POST("C03: metadata is parsed from any input as documented or refused", n <= 0 || (x && x->length >= (size_t)n && (size_t)n == meta_len(&o) && meta_at(&o, x->bytes)
        && (o.body_type == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT || o.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE)));
    POST("C03: complete metadata of a known type is accepted", n > 0 || !x || x->bytes[0] >> 4 > 1 || x->length < 10);
    wickr_transport_packet_meta_t h, d; memset(&h, nd_u8(), sizeof h); memset(&d, nd_u8(), sizeof d);
    uint8_t ver = nd_u8(); uint64_t seq = nd_u64(); wickr_transport_packet_mac_type mt = (wickr_transport_packet_mac_type)nd_range(0, 2);
    wickr_transport_packet_meta_initialize_handshake(&h, ver, mt); wickr_transport_packet_meta_initialize_data(&d, seq, mt);
    POST("C03: handshake metadata is what it is initialized with", h.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE && h.mac_type == mt && h.body_meta.handshake.protocol_version == ver && h.body_meta.handshake.flags == 0);
    POST("C03: data metadata is what it is initialized with", d.body_type == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT && d.mac_type == mt && d.body_meta.data.sequence_number == seq);
#endif
#if defined(H_RT) || defined(H_SER)
    wickr_transport_packet_t *p = mk_packet(true);
    l0 = G.live; v_inject = true;
    wickr_buffer_t *b = wickr_transport_packet_serialize(nd_bool() ? NULL : p);
    v_inject = false;
    POST("C03: a serialized packet is its metadata, body and authenticator", !b || (ok_buffer(b) && packet_at(p, b, U.k)));
    POST("C25: packet_serialize leaks nothing", G.live == l0 + (b ? 2 : 0));
    REACH("signed", b && p->mac); REACH("unsigned", b && !p->mac);
#endif
#ifdef H_RT
    if (!b) return;
    l0 = G.live; v_inject = true;
    wickr_transport_packet_t *q = wickr_transport_packet_create_from_buffer(b);
    v_inject = false;
    POST("C03: a serialized packet is parsed back", q || G.alloc_failed || (p->meta.mac_type == TRANSPORT_MAC_TYPE_EC_P521 && !p->mac));
    if (q && (p->meta.mac_type != TRANSPORT_MAC_TYPE_EC_P521 || p->mac))
        POST("C03: a parsed packet has type, flags, number, body and authenticator of the one sent", same_meta(&q->meta, &p->meta) && same_bytes_at(q->body, p->body, U.k >= meta_len(&p->meta) ? U.k - meta_len(&p->meta) : SIZE_MAX)
            && (!p->mac ? !q->mac : q->mac && q->mac->length == p->mac->length && (U.k < b->length - p->mac->length || U.k >= b->length || q->mac->bytes[U.k - (b->length - p->mac->length)] == p->mac->bytes[U.k - (b->length - p->mac->length)])));
    POST("C25: packet_create_from_buffer leaks nothing", G.live == l0 + n_packet(q));
    REACH("parsed", q);
#endif
#ifdef H_PARSE
    wickr_buffer_t *b = mk_buffer_opt();
    l0 = G.live; v_inject = true;
    wickr_transport_packet_t *q = wickr_transport_packet_create_from_buffer(b);
    v_inject = false;
    POST("C03: a parsed packet is exactly the received bytes", !q || (b && ok_buffer(q->body) && packet_at(q, b, U.k)));
    POST("C03: a parsed packet keeps a copy of the received bytes", !q || (same_bytes_at(q->network_buffer, b, U.k) && apart_buf(q->network_buffer, b)));
    POST("C03: a packet has an authenticator exactly if its type says so", !q || (q->meta.mac_type == TRANSPORT_MAC_TYPE_EC_P521 ? q->mac && q->mac->length == P521_SIGNATURE_MAX_SIZE : !q->mac));
    POST("C03: a packet of a known type that is complete is accepted", q || !b || b->bytes[0] >> 4 > 1 || b->length < 11 + ((b->bytes[0] & 15) == TRANSPORT_MAC_TYPE_EC_P521 ? P521_SIGNATURE_MAX_SIZE : 0u) || G.alloc_failed);
    POST("C25: packet_create_from_buffer leaks nothing", G.live == l0 + n_packet(q));
    REACH("data", q && q->meta.body_type == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT); REACH("signed handshake", q && q->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE && q->mac);
    if (q) { l0 = G.live - n_packet(q); wickr_transport_packet_destroy(&q); POST("C25: packet_destroy releases everything", G.live == l0); }
#endif
#ifdef H_SIGN
    wickr_transport_packet_t *p = mk_packet(true); wickr_identity_chain_t *c = mk_chain();
    if (nd_bool()) p->network_buffer = mk_buffer();
    wickr_transport_packet_mac_type mt0 = p->meta.mac_type; const wickr_buffer_t *mac0 = p->mac;
    wickr_transport_packet_meta_t m0 = p->meta; const wickr_buffer_t *body0 = p->body;
    l0 = G.live - n_packet(p); v_inject = true;
    bool r = wickr_transport_packet_sign(p, nd_bool() ? NULL : &eng, nd_bool() ? NULL : c);
    v_inject = false;
    POST("C03: signing changes neither body nor metadata but for the kind of authenticator", p->body == body0 && (m0.mac_type = p->meta.mac_type, same_meta(&p->meta, &m0)));
    POST("C03: the signature is made by the node of the chain", !r || (U.signs == 1 && U.sign_id == c->node));
    POST("C03: the signature is over type, number and body, with the kind of authenticator set", !r || (U.sign_len == meta_len(&p->meta) + p->body->length && U.sign_first == p->network_buffer->bytes[0] && (U.k >= U.sign_len || U.sign_byte == p->network_buffer->bytes[U.k])));
    POST("C03: a signed packet carries the signature and its bytes on the network", !r || (p->meta.mac_type == TRANSPORT_MAC_TYPE_EC_P521 && p->mac && p->mac->length == P521_SIGNATURE_MAX_SIZE && p->mac->bytes[0] == U.sig_digest
        && p->mac->bytes[1] == P521_SIGNATURE_MAX_SIZE - 2 - U.sig_len && (U.k >= P521_SIGNATURE_MAX_SIZE || U.k < P521_SIGNATURE_MAX_SIZE - U.sig_len || p->mac->bytes[U.k] == U.sig_byte) && packet_at(p, p->network_buffer, U.k)));
    POST("C03: signing succeeds", r || G.alloc_failed || U.engine_failed || U.signs == 0 || p->body->length + 10 + P521_SIGNATURE_MAX_SIZE > MAX_BUFFER_SIZE);
    POST("C25: packet_sign leaks nothing", G.live == l0 + n_packet(p));
    (void)mt0; (void)mac0;
    REACH("signed", r); REACH("signed again", r && mac0); REACH_OPT("failed", !r && U.engine_failed);
#endif
#ifdef H_VERIFY
    wickr_transport_packet_t *p = mk_packet(true); wickr_identity_chain_t *c = mk_chain(); U.p = p;
    if (nd_bool()) p->mac = nd_bool() ? NULL : mk_buffer_range(1, 200);
    if (nd_bool()) p->network_buffer = mk_buffer();
    bool had = p->network_buffer != NULL;
    l0 = G.live - n_packet(p); v_inject = true;
    bool r = wickr_transport_packet_verify(nd_bool() ? NULL : p, nd_bool() ? NULL : &eng, nd_bool() ? NULL : c);
    v_inject = false;
    POST("C03: a packet verifies only under a valid chain of the sender", !r || (U.validates == 1 && U.validate_ret && U.validated == c && U.v_key == c->node->sig_key));
    POST("C03: a packet verifies only if its authenticator is a signature over exactly the received bytes before it", !r || (U.verifies == 1 && U.verify_ret && U.v_args && p->meta.mac_type == TRANSPORT_MAC_TYPE_EC_P521));
    POST("C03: a packet not received yet is verified as it would be sent", !r || had || packet_at(p, p->network_buffer, U.k));
    POST("C03: a correctly signed packet is accepted", r || U.verifies == 0 || !U.verify_ret);
    POST("C25: packet_verify leaks nothing", G.live == l0 + n_packet(p));
    REACH("verified", r && had); REACH("verified before sending", r && !had); REACH_OPT("bad signature", !r && U.verifies);
#endif
#ifdef H_COPY
    wickr_transport_packet_t *s = nd_bool() ? NULL : mk_packet(true);
    if (s && nd_bool()) s->network_buffer = mk_buffer();
    l0 = G.live; v_inject = true;
    wickr_transport_packet_t *q = wickr_transport_packet_copy(s);
    v_inject = false;
    POST("C21: a packet copy is complete", !q || (s && same_meta(&q->meta, &s->meta) && same_bytes_at(q->body, s->body, U.k) && same_bytes_at(q->mac, s->mac, U.k)));
    POST("C21: a packet copy is separate", !q || (q != s && apart_buf(q->body, s->body) && apart_buf(q->mac, s->mac) && apart_buf(q->network_buffer, s->network_buffer)));
    POST("C21: copying succeeds", q || !s || G.alloc_failed);
    POST("C25: packet_copy leaks nothing", G.live == l0 + n_packet(q));
    REACH("copied", q && q->mac);
#endif
}
