/* Contracts of the generated protobuf functions (protobuf-c itself is trusted). pack writes exactly the packed size,
   unpack yields NULL or an arbitrary message as protobuf-c can produce it (unknown values, absent optional fields,
   empty fields without data, required submessages present), free_unpacked releases it.
   The unit supplies: mk_pb_X (arbitrary message), free_pb_X, and on_pack_X (checks the message handed to pack). */
#ifndef V_PB_H
#define V_PB_H
#include "v.h"
#include <protobuf-c/protobuf-c.h>
static struct { size_t size; bool sized; size_t k; uint8_t byte; unsigned packs, unpacks, frees; const uint8_t *in; size_t in_len; const uint8_t *out; const void *msg, *got; } PB;
static size_t pb_size(void)
{
    if (!PB.sized) { PB.size = nd_len(1, (size_t)INT32_MAX + 1); PB.sized = true; }
    return PB.size;
}
static inline ProtobufCBinaryData pb_bytes(size_t max)
{
    ProtobufCBinaryData d;
    d.len = nd_len(0, max); d.data = d.len ? mk_mem(d.len) : NULL;
    if (d.len) { d.data[0] = nd_u8(); if (d.len > 1) d.data[1] = nd_u8(); }
    return d;
}
#define PB_OPT(m, f, max) do { (m)->has_##f = nd_bool(); if ((m)->has_##f) (m)->f = pb_bytes(max); else { (m)->f.len = 0; (m)->f.data = NULL; } } while (0)
#define PB_FREE(m, f) v_free((m)->f.data)
/* is the message field exactly the buffer b (absent: NULL)? */
#define PB_IS(m, f, b) ((b) ? (m)->has_##f && (m)->f.len == (b)->length && (m)->f.data == (b)->bytes : !(m)->has_##f)
static inline bool pb_same(ProtobufCBinaryData d, const uint8_t *bytes, size_t len, size_t k)
{
    if (d.len != len) return false;
#ifdef __CPROVER
    return k >= len || d.data[k] == bytes[k];
#else
    return memcmp(d.data, bytes, len) == 0;
#endif
}
static inline bool pb_is_copy(ProtobufCBinaryData d, const wickr_buffer_t *b, size_t k) { return b && pb_same(d, b->bytes, b->length, k); }
#define PB_MSG(T, t, INIT) \
void wickr__proto__##t##__init(T *m) { T i = INIT; *m = i; } \
size_t wickr__proto__##t##__get_packed_size(const T *m) { POST("C25: message handed to protobuf is valid", R_OK(m, sizeof *m)); return pb_size(); } \
size_t wickr__proto__##t##__pack(const T *m, uint8_t *out) \
{ size_t n = pb_size(); POST("C25: output of pack has the packed size", R_OK(m, sizeof *m) && RW_OK(out, n)); on_pack_##t(m); PB.packs++; PB.msg = m; PB.out = out; PB.byte = nd_u8(); \
  NATIVE_ONLY(memset(out, PB.byte, n);) if (PB.k < n) out[PB.k] = PB.byte; return n; } \
T *wickr__proto__##t##__unpack(ProtobufCAllocator *a, size_t len, const uint8_t *data) \
{ POST("C25: input of unpack is readable", R_OK(data, len)); PB.unpacks++; PB.in = data; PB.in_len = len; if (nd_fail()) return NULL; T *m = mk_pb_##t(); PB.got = m; return m; } \
void wickr__proto__##t##__free_unpacked(T *m, ProtobufCAllocator *a) { if (!m) return; PB.frees++; free_pb_##t(m); }
/* the buffer returned by a serializer is the output of the one pack call */
#define PB_OUT_OK(b) ((b)->length == PB.size && PB.packs == 1 && (b)->bytes == PB.out && (PB.k >= (b)->length || (b)->bytes[PB.k] == PB.byte))
#endif
