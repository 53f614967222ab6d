/* Contracts of transport_ctx.c. Handshakes, packets, streams and identity chains are used by their contracts (units
   handshake_*, packet_*, stream_*, identity_*). Every operation is started in an arbitrary state that satisfies the
   invariant of a transport (INV) and has to restore it, so the postconditions hold after any history of operations. */
#include "gen_id.h"
#include "gen_stream.h"
#include "private/transport_handshake_priv.h"
#include "private/transport_priv.h"
#include "transport_packet.h"

typedef wickr_transport_ctx_t T;
typedef wickr_transport_handshake_t HS;
typedef wickr_transport_packet_t P;
struct wickr_transport_handshake_res { int64_t x; };
#define NONE TRANSPORT_STATUS_NONE
#define INITIAL TRANSPORT_STATUS_INITIAL_HANDSHAKE
#define ACTIVE TRANSPORT_STATUS_ACTIVE
#define ERR TRANSPORT_STATUS_ERROR
#define H_FAILED TRANSPORT_HANDSHAKE_STATUS_FAILED
#define H_UNKNOWN TRANSPORT_HANDSHAKE_STATUS_UNKNOWN
#define H_IN_PROGRESS TRANSPORT_HANDSHAKE_STATUS_IN_PROGRESS
#define H_P_VERIFY TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION
#define H_P_FINAL TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION
#define H_COMPLETE TRANSPORT_HANDSHAKE_STATUS_COMPLETE

static struct {
    bool failed, force; T *ctx; uint64_t x;
    wickr_transport_status notified; unsigned states, actives;
    unsigned txs, rxs, idvs; bool tx_ok, rx_ok; wickr_transport_status tx_status, rx_status;
    bool sync, sync_valid, in_process, h_gone; wickr_transport_validate_identity_callback complete;
    wickr_transport_handshake_identity_callback id_cb;
    const wickr_identity_chain_t *copy_of[2]; const wickr_identity_chain_t *copy_is[2]; unsigned copies;
    unsigned creates; bool create_ok; const HS *created; unsigned starts, procs; bool proc_ok; unsigned verifies, finals; bool verdict;
    const P *volley; P *volley_p; unsigned volleys;
    void *res; const wickr_stream_key_t *res_key[2], *key_copy[2]; unsigned sctx; bool sctx_ok; const wickr_stream_ctx_t *sctx_is[2]; unsigned res_freed;
    unsigned parses; bool parse_ok; P *parsed; const P *ser_of; unsigned sers; wickr_buffer_t *ser_is;
    const wickr_transport_packet_meta_t *meta; unsigned metas; wickr_transport_packet_payload_type meta_body; wickr_transport_packet_mac_type meta_mac; uint64_t meta_seq; const wickr_buffer_t *aad;
    unsigned crs; const wickr_buffer_t *cr_of; wickr_cipher_result_t *cr; unsigned decodes, encodes; bool decode_ok, encode_ok; wickr_buffer_t *plain; const wickr_buffer_t *data; const wickr_buffer_t *cr_ser; unsigned packs; bool pack_ok; const P *packed;
    const wickr_stream_ctx_t *st_copy_of[2]; wickr_stream_ctx_t *st_copy[2]; unsigned st_copies; const HS *h_copy_of; HS *h_copy; void *h_user; bool user_set;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); }
static bool nd_ok(void) { if (!U.force && nd_fail()) { U.failed = true; return false; } return true; }
static int v_user;

/* ---- identity chains ---- */
static wickr_identity_chain_t *mk_chain_obj(void) { return mk_mem(sizeof(wickr_identity_chain_t)); }
wickr_identity_chain_t *wickr_identity_chain_copy(const wickr_identity_chain_t *c)
{
    if (!c || !nd_ok()) return NULL;
    wickr_identity_chain_t *n = mk_chain_obj();
    if (U.copies == 0) { U.copy_of[0] = c; U.copy_is[0] = n; }
    if (U.copies == 1) { U.copy_of[1] = c; U.copy_is[1] = n; }
    U.copies++;
    return n;
}
/* the copy made of the identity c */
static const wickr_identity_chain_t *copy_made(const wickr_identity_chain_t *c) { return !c ? NULL : U.copy_of[0] == c ? U.copy_is[0] : U.copy_of[1] == c ? U.copy_is[1] : (const void *)&U; }
static const wickr_stream_ctx_t *stream_copy(const wickr_stream_ctx_t *s) { return !s ? NULL : U.st_copy_of[0] == s ? U.st_copy[0] : U.st_copy_of[1] == s ? U.st_copy[1] : (const void *)&U; }
void wickr_identity_chain_destroy(wickr_identity_chain_t **c) { if (c && *c) { v_free(*c); *c = NULL; } }
/* ---- packets ---- */
static P *mk_packet(wickr_transport_packet_payload_type t)
{
    P *p = mk_mem(sizeof *p);
    p->network_buffer = p->mac = NULL; p->body = mk_buffer();
    p->meta.body_meta.data.sequence_number = nd_u64(); p->meta.body_type = t; p->meta.mac_type = (wickr_transport_packet_mac_type)nd_range(0, 2);
    return p;
}
P *wickr_transport_packet_create_from_buffer(const wickr_buffer_t *b)
{
    U.parses++; U.parse_ok = b && b == U.data;
    if (!b || !nd_ok()) return NULL;
    return U.parsed = mk_packet(nd_bool() ? TRANSPORT_PAYLOAD_TYPE_HANDSHAKE : TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT);
}
void wickr_transport_packet_destroy(P **p) { if (p && *p) { wickr_buffer_destroy(&(*p)->body); v_free(*p); *p = NULL; } }
wickr_buffer_t *wickr_transport_packet_serialize(const P *p)
{
    U.sers++; U.ser_of = p;
    if (!p || !nd_ok()) return NULL;
    return U.ser_is = mk_buffer();
}
wickr_buffer_t *wickr_transport_packet_meta_serialize(const wickr_transport_packet_meta_t *m)
{
    U.metas++; U.meta = m;
    if (m) { U.meta_body = m->body_type; U.meta_mac = m->mac_type; U.meta_seq = m->body_meta.data.sequence_number; }
    if (!m || !nd_ok()) return NULL;
    wickr_buffer_t *b = mk_buffer(); U.aad = b; return b;
}
void wickr_transport_packet_meta_initialize_data(wickr_transport_packet_meta_t *m, uint64_t seq, wickr_transport_packet_mac_type t)
{
    m->mac_type = t; m->body_type = TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT; m->body_meta.data.sequence_number = seq;
}
P *wickr_transport_packet_create(const wickr_transport_packet_meta_t m, wickr_buffer_t *body)
{
    U.packs++; U.pack_ok = body && body == U.cr_ser && m.body_type == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT && m.mac_type == TRANSPORT_MAC_TYPE_AUTH_CIPHER && m.body_meta.data.sequence_number == U.meta_seq;
    if (!body || !nd_ok()) return NULL;
    P *p = mk_mem(sizeof *p); p->network_buffer = p->mac = NULL; p->body = body; p->meta = m; U.packed = p;
    return p;
}
/* ---- ciphers and streams ---- */
wickr_cipher_result_t *wickr_cipher_result_from_buffer(const wickr_buffer_t *b)
{
    U.crs++; U.cr_of = b;
    if (!b || !nd_ok()) return NULL;
    return U.cr = mk_cipher_result();
}
wickr_buffer_t *wickr_cipher_result_serialize(const wickr_cipher_result_t *c)
{
    if (!c || c != U.cr || !nd_ok()) return NULL;
    wickr_buffer_t *b = mk_buffer(); U.cr_ser = b; return b;
}
static wickr_stream_key_t *mk_key_obj(void) { return mk_mem(sizeof(wickr_stream_key_t)); }
wickr_stream_key_t *wickr_stream_key_copy(const wickr_stream_key_t *k)
{
    if (!k || !nd_ok()) return NULL;
    wickr_stream_key_t *n = mk_key_obj();
    if (k == U.res_key[0]) U.key_copy[0] = n;
    if (k == U.res_key[1]) U.key_copy[1] = n;
    return n;
}
void wickr_stream_key_destroy(wickr_stream_key_t **k) { if (k && *k) { v_free(*k); *k = NULL; } }
static wickr_stream_ctx_t *mk_stream(wickr_stream_direction d) { wickr_stream_ctx_t *s = mk_mem(sizeof *s); s->key = mk_key_obj(); s->direction = d; s->last_seq = nd_u64(); return s; }
static wickr_digest_t *dummy;
static wickr_buffer_t *e_digest(const wickr_buffer_t *b, const wickr_buffer_t *s, wickr_digest_t d) { (void)dummy; return NULL; }
wickr_stream_ctx_t *wickr_stream_ctx_create(const wickr_crypto_engine_t e, wickr_stream_key_t *k, wickr_stream_direction d)
{
    /* the own key of the handshake encodes, the key of the other side decodes */
    if (k && !((d == STREAM_DIRECTION_ENCODE && k == U.key_copy[0]) || (d == STREAM_DIRECTION_DECODE && k == U.key_copy[1]))) U.sctx_ok = false;
    if (e.wickr_crypto_engine_digest != e_digest) U.sctx_ok = false;
    if (!k || !nd_ok()) return NULL;
    U.sctx++;
    wickr_stream_ctx_t *s = mk_mem(sizeof *s); s->key = k; s->direction = d; s->last_seq = 0;
    U.sctx_is[d == STREAM_DIRECTION_ENCODE ? 0 : 1] = s;
    return s;
}
void wickr_stream_ctx_destroy(wickr_stream_ctx_t **s) { if (s && *s) { wickr_stream_key_destroy(&(*s)->key); v_free(*s); *s = NULL; } }
wickr_stream_ctx_t *wickr_stream_ctx_copy(const wickr_stream_ctx_t *s)
{
    if (!s || !nd_ok()) return NULL;
    wickr_stream_ctx_t *n = mk_mem(sizeof *n); n->key = mk_key_obj(); n->direction = s->direction; n->last_seq = s->last_seq;
    if (U.st_copies == 0) { U.st_copy_of[0] = s; U.st_copy[0] = n; }
    if (U.st_copies == 1) { U.st_copy_of[1] = s; U.st_copy[1] = n; }
    U.st_copies++;
    return n;
}
wickr_buffer_t *wickr_stream_ctx_decode(wickr_stream_ctx_t *s, const wickr_cipher_result_t *c, const wickr_buffer_t *aad, uint64_t seq)
{
    U.decodes++;
    U.decode_ok = s && s == U.ctx->rx_stream && c && c == U.cr && U.parsed && U.cr_of == U.parsed->body && aad && aad == U.aad && U.meta == &U.parsed->meta
        && seq == U.parsed->meta.body_meta.data.sequence_number && U.parsed->meta.mac_type == TRANSPORT_MAC_TYPE_AUTH_CIPHER;
    if (!s || !c || !aad || !nd_ok()) return NULL;
    return U.plain = mk_buffer();
}
wickr_cipher_result_t *wickr_stream_ctx_encode(wickr_stream_ctx_t *s, const wickr_buffer_t *d, const wickr_buffer_t *aad, uint64_t seq)
{
    U.encodes++;
    U.encode_ok = s && s == U.ctx->tx_stream && d && d == U.data && aad && aad == U.aad && seq == s->last_seq + 1 && U.meta_seq == seq && U.meta_body == TRANSPORT_PAYLOAD_TYPE_CIPHERTEXT && U.meta_mac == TRANSPORT_MAC_TYPE_AUTH_CIPHER;
    if (!s || !d || !aad || !nd_ok()) return NULL;
    s->last_seq = seq;
    return U.cr = mk_cipher_result();
}
/* ---- handshakes (contracts of the handshake_* units) ---- */
static HS *mk_hs(bool initiator, wickr_identity_chain_t *loc, wickr_identity_chain_t *rem)
{
    HS *h = mk_mem(sizeof *h); memset(h, 0, sizeof *h);
    h->local_identity = loc; h->remote_identity = rem; h->is_initiator = initiator; h->status = H_UNKNOWN;
    return h;
}
HS *wickr_transport_handshake_create(wickr_crypto_engine_t e, wickr_identity_chain_t *loc, wickr_identity_chain_t *rem, wickr_transport_handshake_identity_callback cb, uint32_t evo, void *user)
{
    U.creates++; U.id_cb = cb;
    U.create_ok = e.wickr_crypto_engine_digest == e_digest && loc && loc == copy_made(U.ctx->local_identity) && rem == copy_made(U.ctx->remote_identity) && cb && evo == U.ctx->evo_count && user == U.ctx;
    if (!loc || !nd_ok()) return NULL;
    HS *h = mk_hs(false, loc, rem); h->identity_callback = cb; h->user = user;
    U.created = h;
    return h;
}
void wickr_transport_handshake_destroy(HS **h)
{
    if (!h || !*h) return;
    if (U.in_process) U.h_gone = true;
    v_free((*h)->local_identity); v_free((*h)->remote_identity); v_free(*h); *h = NULL;
}
HS *wickr_transport_handshake_copy(const HS *h)
{
    if (!h || !nd_ok()) return NULL;
    U.h_copy_of = h; U.h_copy = mk_hs(h->is_initiator, mk_chain_obj(), h->remote_identity ? mk_chain_obj() : NULL);
    U.h_copy->status = h->status; U.h_copy->user = h->user;
    return U.h_copy;
}
void wickr_transport_set_user_data(HS *h, void *user) { if (h) h->user = user; }
wickr_transport_handshake_status wickr_transport_handshake_get_status(const HS *h) { return h ? h->status : H_UNKNOWN; }
P *wickr_transport_handshake_start(HS *h)
{
    U.starts++;
    if (!h) return NULL;
    h->is_initiator = true;
    if (h->status != H_UNKNOWN || !nd_ok()) { h->status = H_FAILED; return NULL; }
    h->status = H_IN_PROGRESS; U.volleys++; P *p = mk_packet(TRANSPORT_PAYLOAD_TYPE_HANDSHAKE); U.volley = p; return p;
}
P *wickr_transport_handshake_process(HS *h, const P *p)
{
    U.procs++; U.proc_ok = h && h == U.ctx->pending_handshake && p && p == U.parsed && p->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE;
    if (!h) return NULL;
    if ((h->status != H_UNKNOWN && h->status != H_IN_PROGRESS) || !nd_ok()) { h->status = H_FAILED; return NULL; }
    if (h->remote_identity) {
        h->status = H_P_FINAL;
        if (h->is_initiator) return NULL;
        U.volleys++; P *v = mk_packet(TRANSPORT_PAYLOAD_TYPE_HANDSHAKE); U.volley = v; return v;
    }
    h->remote_identity = mk_chain_obj(); h->status = H_P_VERIFY; U.in_process = true;
    if (!h->is_initiator) { U.volley_p = mk_packet(TRANSPORT_PAYLOAD_TYPE_HANDSHAKE); h->pending_identity_verify_packet = U.volley_p; G.live -= 3; }
    bool initiator = h->is_initiator;
    h->identity_callback(h, mk_chain_obj(), h->user);
    U.in_process = false;
    if (!initiator) return NULL;
    /* the initiator goes on with the response */
    POST("C13: the handshake of the initiator is not released while it is being processed", !U.h_gone);
    if (!nd_ok()) h->status = H_FAILED;
    else if (h->status == H_IN_PROGRESS) h->status = H_P_FINAL;
    return NULL;
}
P *wickr_transport_handshake_verify_identity(const HS *ch, bool valid)
{
    HS *h = (HS *)ch;
    U.verifies++; U.verdict = valid;
    if (!h) return NULL;
    if (!valid || h->status != H_P_VERIFY) { h->status = H_FAILED; return NULL; }
    if (h->is_initiator) { h->status = U.in_process ? H_IN_PROGRESS : H_P_FINAL; return NULL; }
    h->status = H_P_FINAL; U.volleys++;
    P *v = h->pending_identity_verify_packet; h->pending_identity_verify_packet = NULL;
    if (v) G.live += 3;
    U.volley = v; return v;
}
wickr_transport_handshake_res_t *wickr_transport_handshake_finalize(HS *h)
{
    U.finals++;
    if (!h) return NULL;
    if (h->status != H_P_FINAL || !nd_ok()) { h->status = H_FAILED; return NULL; }
    h->status = H_COMPLETE;
    U.res = mk_mem(8); U.res_key[0] = mk_key_obj(); U.res_key[1] = mk_key_obj();
    return U.res;
}
const wickr_stream_key_t *wickr_transport_handshake_res_get_local_key(const wickr_transport_handshake_res_t *r) { return r && r == U.res ? U.res_key[0] : NULL; }
const wickr_stream_key_t *wickr_transport_handshake_res_get_remote_key(const wickr_transport_handshake_res_t *r) { return r && r == U.res ? U.res_key[1] : NULL; }
void wickr_transport_handshake_res_destroy(wickr_transport_handshake_res_t **r) { if (r && *r) { v_free((void *)U.res_key[0]); v_free((void *)U.res_key[1]); v_free(*r); *r = NULL; U.res_freed++; } }

/* ---- the owner of the transport ---- */
static void cb_state(const T *c, wickr_transport_status s)
{
    POST("C13: a state is reported when it has been entered", c == U.ctx && s == c->status && s != U.notified);
    POST("C13: a transport that has failed stays in the error state", U.notified != ERR);
    U.notified = s; U.states++; if (s == ACTIVE) U.actives++;
}
static void cb_tx(const T *c, wickr_buffer_t *b)
{
    POST("C13: what is sent is a packet just serialized", c == U.ctx && b && b == U.ser_is);
    POST("C13: nothing is sent in the error state", c->status != ERR);
    POST("C13: application data is sent in the active state only", U.encodes == 0 || c->status == ACTIVE);
    U.txs++; U.tx_status = c->status; U.ser_is = NULL;
    wickr_buffer_destroy(&b);
}
static void cb_rx(const T *c, wickr_buffer_t *b)
{
    POST("C13: data is delivered in the active state only", c == U.ctx && c->status == ACTIVE);
    POST("C13: what is delivered is what the stream has decoded", b && b == U.plain && U.decodes == 1 && U.decode_ok);
    U.rxs++;
    wickr_buffer_destroy(&b);
}
static void cb_verify(const T *c, wickr_identity_chain_t *id, wickr_transport_validate_identity_callback done)
{
    POST("C13: the owner is asked for the verification of an identity", c == U.ctx && id && done);
    U.idvs++; U.complete = done;
    v_free(id);
    if (U.sync) done(c, U.sync_valid);
}

static const wickr_transport_callbacks_t CALLBACKS = { cb_tx, cb_rx, cb_state, cb_verify };
static bool hs_inv(const T *c)
{
    const HS *h = c->pending_handshake;
    if (!h) return true;
    return c->status == ERR || (c->status == INITIAL ? h->is_initiator && (h->status == H_IN_PROGRESS || h->status == H_P_VERIFY) : c->status == NONE && !h->is_initiator && h->status == H_P_VERIFY);
}
static bool inv(const T *c)
{
    bool s = c->status == ACTIVE ? c->rx_stream && c->tx_stream && !c->pending_handshake : c->status == ERR ? !c->rx_stream == !c->tx_stream : !c->rx_stream && !c->tx_stream;
    return s && hs_inv(c) && (c->status != INITIAL || c->pending_handshake) && c->local_identity
        && (!c->tx_stream || (c->tx_stream->direction == STREAM_DIRECTION_ENCODE && c->rx_stream->direction == STREAM_DIRECTION_DECODE && c->tx_stream != c->rx_stream));
}
static int64_t n_ctx(const T *c)
{
    return 2 + (c->remote_identity ? 1 : 0) + (c->rx_stream ? 2 : 0) + (c->tx_stream ? 2 : 0) + (c->pending_handshake ? 2 + (c->pending_handshake->remote_identity ? 1 : 0) : 0);
}
static T *mk_ctx(void)
{
    T *c = mk_mem(sizeof *c); memset(c, 0, sizeof *c);
    c->engine.wickr_crypto_engine_digest = e_digest;
    c->status = (wickr_transport_status)nd_range(NONE, ERR);
    c->local_identity = mk_chain_obj(); c->remote_identity = nd_bool() ? NULL : mk_chain_obj();
    c->evo_count = (uint32_t)nd_range(1, PACKET_PER_EVO_MAX); c->callbacks = CALLBACKS; c->user = &v_user; c->err = (wickr_transport_error)nd_range(0, 11);
    if (c->status == ACTIVE || (c->status == ERR && nd_bool())) { c->rx_stream = mk_stream(STREAM_DIRECTION_DECODE); c->tx_stream = mk_stream(STREAM_DIRECTION_ENCODE); }
    if (c->status != ACTIVE && (c->status == INITIAL || nd_bool())) {
        HS *h = mk_hs(nd_bool(), mk_chain_obj(), c->remote_identity || nd_bool() ? mk_chain_obj() : NULL);
        h->status = (wickr_transport_handshake_status)nd_range(0, 5); h->user = c; h->identity_callback = U.id_cb;
        if (h->status == H_P_VERIFY && !h->is_initiator) { h->pending_identity_verify_packet = U.volley_p = mk_packet(TRANSPORT_PAYLOAD_TYPE_HANDSHAKE); G.live -= 3; }
        c->pending_handshake = h;
    }
    ASSUME(inv(c));
    U.ctx = c; U.notified = c->status;
    return c;
}
/* has the handshake delivered the streams the transport now uses? */
static bool streams_ok(const T *c) { return U.finals == 1 && U.sctx == 2 && U.sctx_ok && c->tx_stream == U.sctx_is[0] && c->rx_stream == U.sctx_is[1]; }
#define COMMON(name) \
    POST("C13: " name " keeps the invariant of the transport", inv(c)); \
    POST("C13: every change of the state is reported", U.notified == c->status); \
    POST("C13: a transport that has failed stays in the error state", s0 != ERR || c->status == ERR); \
    POST("C13: the transport becomes active with the streams of a finalized handshake only", c->status != ACTIVE || s0 == ACTIVE || (U.actives == 1 && streams_ok(c))); \
    POST("C13: an active transport keeps its streams", s0 != ACTIVE || (c->rx_stream == rx0 && c->tx_stream == tx0 && U.finals == 0)); \
    POST("C13: the identities of a transport do not change", c->local_identity == loc && c->remote_identity == rem); \
    POST("C25: " name " leaks nothing", G.live == l0 + n_ctx(c) - n0 + unsent)

void harness(void)
{
    v_unit_reset(); U.x = nd_u64(); U.sctx_ok = true;
    int64_t l0, n0, unsent = 0;
#ifdef H_CREATE
    wickr_crypto_engine_t e; memset(&e, 0, sizeof e); e.wickr_crypto_engine_digest = e_digest;
    wickr_identity_chain_t *loc = nd_bool() ? NULL : mk_chain_obj(), *rem = nd_bool() ? NULL : mk_chain_obj(); uint32_t evo = nd_u32();
    l0 = G.live; v_inject = true;
    T *c = wickr_transport_ctx_create(e, loc, rem, evo, CALLBACKS, &v_user);
    v_inject = false;
    POST("C13: a transport needs a local identity and a supported evolution rate", !c || (loc && evo <= PACKET_PER_EVO_MAX));
    POST("C13: a new transport has not started", !c || (c->status == NONE && !c->rx_stream && !c->tx_stream && !c->pending_handshake && c->err == TRANSPORT_ERROR_NONE && inv(c)));
    POST("C13: a new transport holds the identities and the rate given", !c || (c->local_identity == loc && c->remote_identity == rem && c->evo_count == (evo ? evo : PACKET_PER_EVO_DEFAULT) && c->user == &v_user
        && c->engine.wickr_crypto_engine_digest == e_digest && c->callbacks.tx == cb_tx && c->callbacks.rx == cb_rx && c->callbacks.on_state == cb_state && c->callbacks.on_identity_verify == cb_verify));
    POST("C25: transport_ctx_create fails only without memory", c || !loc || evo > PACKET_PER_EVO_MAX || G.alloc_failed);
    POST("C25: transport_ctx_create leaks nothing", G.live == l0 + (c ? 1 : 0));
    REACH("created", c);
    if (c) {
        POST("C13: the state of the transport is reported", wickr_transport_ctx_get_status(c) == NONE && wickr_transport_ctx_get_last_error(c) == TRANSPORT_ERROR_NONE && wickr_transport_ctx_get_local_identity_ptr(c) == loc && wickr_transport_ctx_get_remote_identity_ptr(c) == rem && wickr_transport_ctx_get_user_ctx(c) == &v_user);
        wickr_transport_ctx_set_user_ctx(c, &U);
        POST("C13: the user data is replaced", c->user == (void *)&U);
        wickr_transport_ctx_destroy(&c);
        POST("C25: transport_ctx_destroy releases everything", !c && G.live == l0 - (loc ? 1 : 0) - (rem ? 1 : 0));
    }
#endif
#ifdef H_COPY
    T *c = mk_ctx(); n0 = n_ctx(c);
    wickr_transport_status s0 = c->status; T o = *c;
    l0 = G.live; v_inject = true;
    T *n = wickr_transport_ctx_copy(c);
    v_inject = false;
    POST("C25: transport_ctx_copy fails only without memory", n || U.failed || G.alloc_failed);
    POST("C25: transport_ctx_copy leaks nothing", G.live == l0 + (n ? n0 : 0));
    POST("C21: copying leaves the original as it was", c->status == s0 && c->local_identity == o.local_identity && c->remote_identity == o.remote_identity && c->rx_stream == o.rx_stream && c->tx_stream == o.tx_stream && c->pending_handshake == o.pending_handshake
        && (!c->pending_handshake || c->pending_handshake->user == c) && U.states == 0);
    if (n) {
        POST("C21: the copy of a transport is complete", n->status == s0 && n->err == c->err && n->evo_count == c->evo_count && n->user == c->user && n->engine.wickr_crypto_engine_digest == e_digest && n->callbacks.tx == cb_tx && n->callbacks.rx == cb_rx && n->callbacks.on_state == cb_state && n->callbacks.on_identity_verify == cb_verify
            && n->local_identity == copy_made(c->local_identity) && n->remote_identity == copy_made(c->remote_identity) && n->tx_stream == stream_copy(c->tx_stream) && n->rx_stream == stream_copy(c->rx_stream)
            && (c->pending_handshake ? n->pending_handshake == U.h_copy && U.h_copy_of == c->pending_handshake : !n->pending_handshake));
        POST("C21: the handshake of the copy reports to the copy", !n->pending_handshake || n->pending_handshake->user == n);
        wickr_transport_ctx_destroy(&n);
        POST("C25: transport_ctx_destroy releases everything", !n && G.live == l0);
    }
    REACH_OPT("copied with a handshake", n == NULL && U.h_copy);
    REACH_OPT("copied with streams", c->status == ACTIVE && !U.failed);
    POST("C21: no transport, no copy", !wickr_transport_ctx_copy(NULL));
#endif
#if defined(H_START) || defined(H_TX) || defined(H_RX) || defined(H_VALIDATE)
#if defined(H_RX) || defined(H_VALIDATE)
    /* a first transport, to get hold of the callbacks the transport hands out */
    T a; memset(&a, 0, sizeof a); a.callbacks = CALLBACKS; a.local_identity = mk_chain_obj(); a.evo_count = 1; a.engine.wickr_crypto_engine_digest = e_digest;
    U.ctx = &a; U.notified = NONE; U.force = true;
    wickr_transport_ctx_start(&a);
    wickr_transport_handshake_identity_callback id_cb = U.id_cb;
    POST("C13: a transport can be started", id_cb && a.pending_handshake && a.status == INITIAL && U.txs == 1);
    id_cb(a.pending_handshake, mk_chain_obj(), &a);
    wickr_transport_validate_identity_callback complete = U.complete;
    POST("C13: the owner is asked for the verification of an identity", complete && U.idvs == 1);
    int64_t live = G.live; v_unit_reset(); G.live = live; U.sctx_ok = true; U.id_cb = id_cb;
#endif
    T *c = mk_ctx(); wickr_transport_status s0 = c->status; n0 = n_ctx(c);
    const wickr_stream_ctx_t *rx0 = c->rx_stream, *tx0 = c->tx_stream; const wickr_identity_chain_t *loc = c->local_identity, *rem = c->remote_identity;
    uint64_t seq0 = tx0 ? tx0->last_seq : 0; const HS *h0 = c->pending_handshake; wickr_transport_handshake_status hs0 = h0 ? h0->status : H_UNKNOWN; bool init0 = h0 && h0->is_initiator;
    U.sync = nd_bool(); U.sync_valid = nd_bool();
#endif
#ifdef H_START
    l0 = G.live; v_inject = true;
    wickr_transport_ctx_start(c);
    v_inject = false;
    COMMON("starting");
    POST("C13: only a new transport can be started", (s0 == NONE && !h0) || (c->status == ERR && U.txs == 0 && U.creates == 0 && c->pending_handshake == h0));
    POST("C13: a started transport has sent the first message of a handshake between its identities", c->status != INITIAL || s0 == INITIAL || (U.creates == 1 && U.create_ok && U.starts == 1 && U.txs == 1 && U.ser_of == U.volley && c->pending_handshake == U.created && U.tx_status == INITIAL));
    POST("C13: starting leads to the handshake or to the error state", c->status == INITIAL || c->status == ERR);
    POST("C13: starting succeeds", c->status == INITIAL || s0 != NONE || h0 || U.failed || G.alloc_failed);
    POST("C13: nothing is sent when starting fails", c->status != ERR || U.txs == 0);
    REACH("started", c->status == INITIAL);
#endif
#ifdef H_TX
    U.data = nd_bool() ? NULL : mk_buffer();
    l0 = G.live; v_inject = true;
    wickr_transport_ctx_process_tx_buffer(c, U.data);
    v_inject = false;
    COMMON("sending");
    POST("C13: data is sent in the active state only, or the transport fails", U.txs == 1 ? s0 == ACTIVE && c->status == ACTIVE && U.data : U.txs == 0 && c->status == ERR);
    POST("C13: data is encoded with the next sequence number and the packet header authenticated", U.txs == 0 || (U.encodes == 1 && U.encode_ok && U.packs == 1 && U.pack_ok && U.ser_of == U.packed && U.meta_seq == seq0 + 1));
    POST("C13: nothing is encoded outside the active state", s0 == ACTIVE || U.encodes == 0);
    POST("C13: sending succeeds", U.txs == 1 || !U.data || s0 != ACTIVE || U.failed || G.alloc_failed);
    REACH("sent", U.txs == 1);
#endif
#ifdef H_RX
    U.data = nd_bool() ? NULL : mk_buffer();
    l0 = G.live; v_inject = true;
    wickr_transport_ctx_process_rx_buffer(c, U.data);
    v_inject = false;
    if (c->pending_handshake && c->status == NONE && U.procs) { } /* waiting for the verdict of the owner */
    COMMON("receiving");
    POST("C13: a transport that has failed processes nothing", s0 != ERR || (U.parses == 0 && U.procs == 0 && U.decodes == 0 && U.txs == 0 && U.rxs == 0 && U.idvs == 0));
    POST("C13: data is delivered in the active state only", U.rxs == 0 || (s0 == ACTIVE && c->status == ACTIVE && U.rxs == 1 && U.procs == 0));
    POST("C13: data is decoded with the sequence number received and the packet header authenticated", U.decodes == 0 || (s0 == ACTIVE && U.decode_ok && U.parse_ok));
    POST("C13: received data is delivered, or the transport fails", s0 != ACTIVE || U.rxs == 1 || c->status == ERR);
    POST("C13: delivering succeeds", s0 != ACTIVE || U.rxs == 1 || U.failed || G.alloc_failed || !U.data || (U.parsed && U.metas == 0));
    POST("C13: a handshake message is processed by the pending handshake, or by a new one between the identities of the transport", U.procs == 0 || (U.procs == 1 && U.proc_ok && (h0 ? U.creates == 0 : s0 == NONE && U.creates == 1 && U.create_ok)));
    POST("C13: data before the end of the handshake fails the transport", s0 == ACTIVE || U.procs || c->status == ERR);
    POST("C13: an answer of the handshake is sent once and unchanged", U.txs == 0 || (U.txs == 1 && U.volleys == 1 && U.ser_of == U.volley && U.tx_status == ACTIVE));
    POST("C13: an answer of the handshake is sent, or the transport fails", U.volleys == 0 || U.txs == 1 || c->status == ERR);
    POST("C13: the owner is asked about unknown identities only", U.idvs == 0 || (U.idvs == 1 && U.procs == 1 && !rem));
    POST("C13: a transport is not active before the identity of the other side is accepted", c->status != ACTIVE || s0 == ACTIVE || U.idvs == 0 || (U.sync && U.sync_valid && U.verifies == 1));
    POST("C13: a finished handshake makes the transport active, or fail", U.finals == 0 || c->status == ACTIVE || c->status == ERR);
    REACH("delivered", U.rxs == 1);
    REACH("responder active", s0 == NONE && c->status == ACTIVE && U.txs == 1 && U.idvs == 0);
    REACH("responder active after a verdict", s0 == NONE && c->status == ACTIVE && U.idvs == 1);
    REACH("initiator active", s0 == INITIAL && c->status == ACTIVE && U.idvs == 0);
    REACH("initiator active after a verdict", s0 == INITIAL && c->status == ACTIVE && U.idvs == 1);
    REACH("waiting for a verdict", c->status == NONE && c->pending_handshake);
#endif
#ifdef H_VALIDATE
    bool valid = nd_bool();
    l0 = G.live; v_inject = true;
    complete(c, valid);
    v_inject = false;
    COMMON("a verdict");
    POST("C13: a verdict has no effect on an active or failed transport", (s0 != ACTIVE && s0 != ERR) || (c->status == s0 && U.txs == 0 && U.finals == 0));
    POST("C13: only a positive verdict that was asked for activates the transport", c->status != ACTIVE || s0 == ACTIVE || (valid && hs0 == H_P_VERIFY && U.verifies == 1 && U.verdict));
    POST("C13: the verdict is passed on", !h0 || s0 == ERR || (U.verifies == 1 && U.verdict == valid));
    POST("C13: a refused identity fails the transport", valid || !h0 || c->status == ERR);
    POST("C13: an answer of the handshake is sent once, after the identity is accepted", U.txs == (valid && h0 && !init0 && c->status == ACTIVE ? 1 : 0) && (U.txs == 0 || (U.ser_of == U.volley && U.tx_status == ACTIVE)));
    POST("C13: an accepted identity activates the transport", !valid || !h0 || s0 == ERR || hs0 != H_P_VERIFY || c->status == ACTIVE || U.failed || G.alloc_failed);
    REACH("accepted", c->status == ACTIVE && s0 == NONE);
    REACH("accepted by the initiator", c->status == ACTIVE && s0 == INITIAL);
    REACH_OPT("refused", c->status == ERR && s0 == NONE);
    complete(NULL, valid);
#endif
}
