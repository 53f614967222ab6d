#ifndef GEN_MSG_H
#define GEN_MSG_H
#include "gen_kex.h"
#include "payload.h"
#include "packet_meta.h"
static inline wickr_packet_meta_t *mk_pmeta(void)
{
    wickr_packet_meta_t *m = mk_mem(sizeof *m);
    m->ephemerality_settings.ttl = nd_u64(); m->ephemerality_settings.bor = nd_u64(); m->channel_tag = mk_buffer(); m->content_type = (uint16_t)nd_u64();
    return m;
}
static inline wickr_payload_t *mk_payload(void)
{
    wickr_payload_t *p = mk_mem(sizeof *p);
    p->meta = mk_pmeta(); p->body = mk_buffer();
    return p;
}
static inline int64_t n_payload(const wickr_payload_t *p) { return p ? 6 : 0; }
static inline bool same_pmeta(const wickr_packet_meta_t *a, const wickr_packet_meta_t *b, size_t k)
{
    return a->ephemerality_settings.ttl == b->ephemerality_settings.ttl && a->ephemerality_settings.bor == b->ephemerality_settings.bor && a->content_type == b->content_type && same_bytes_at(a->channel_tag, b->channel_tag, k);
}
static inline bool same_payload(const wickr_payload_t *a, const wickr_payload_t *b, size_t k) { return same_pmeta(a->meta, b->meta, k) && same_bytes_at(a->body, b->body, k); }
static inline bool apart_payload(const wickr_payload_t *a, const wickr_payload_t *b) { return a != b && a->meta != b->meta && apart_buf(a->meta->channel_tag, b->meta->channel_tag) && apart_buf(a->body, b->body); }
#endif
