/* Contracts of buffer.c / buffer_priv.c (constructors, copies, sections, concatenation, comparison) and memory.c */
#include "gen.h"
#include "memory.h"
#include "private/buffer_priv.h"

static bool fresh_copy(const wickr_buffer_t *r, const uint8_t *src, size_t n, size_t k, uint8_t src_k)
{
    (void)src;
    return ok_buffer(r) && r->length == n && r->bytes != src && (k >= n || r->bytes[k] == src_k);
}
static void destroy(wickr_buffer_t *b)
{
    wickr_buffer_t *p = b;
    if (nd_bool()) wickr_buffer_destroy(&p); else wickr_buffer_destroy_zero(&p);
    POST("C01: destroy clears the reference", p == NULL);
}
/* a raw byte range of len bytes, possibly of length 0; G.watch_k style ghost byte */
static uint8_t *mk_raw(size_t len) { uint8_t *p = mk_mem(len ? len : 1); for (int i = 0; i < 2 && (size_t)i < len; i++) p[i] = nd_u8(); return p; }

void harness(void)
{
    size_t k = nd_u64();
    int64_t l0;
#ifdef H_CREATE
    {
        size_t n = nd_len(0, MAX_BUFFER_SIZE), len = nd_bool() ? n : nd_u64();
        ASSUME(len == n || len > MAX_BUFFER_SIZE || len == 0);          /* bytes points at len bytes whenever len is admissible */
        uint8_t *src = nd_bool() ? NULL : mk_raw(n);
        uint8_t b = src && k < n ? src[k] : 0;
        l0 = G.live; v_inject = true;
        wickr_buffer_t *r = wickr_buffer_create(src, len);
        v_inject = false;
        POST("C01: create is a fresh copy of exactly the given bytes", !r || (src && fresh_copy(r, src, len, k, b)));
        POST("C01: create fails only for no bytes, length 0, a length beyond the maximum or no memory", r || !src || len == 0 || len > MAX_BUFFER_SIZE || G.alloc_failed);
        POST("C25: buffer_create leaks nothing", G.live == l0 + (r ? 2 : 0));
        REACH("created", r != NULL);
        if (r) destroy(r);
        POST("C25: destroy releases both parts", G.live == l0);
    }
    {
        size_t len = nd_bool() ? nd_len(0, MAX_BUFFER_SIZE) : nd_u64();
        NATIVE_ONLY(ASSUME(len < 100000 || len > MAX_BUFFER_SIZE);)
        l0 = G.live; G.alloc_failed = false; v_inject = true;
        bool zero = nd_bool();
        wickr_buffer_t *r = zero ? wickr_buffer_create_empty_zero(len) : wickr_buffer_create_empty(len);
        v_inject = false;
        POST("C01: create_empty yields a buffer of exactly that length", !r || (ok_buffer(r) && r->length == len));
        POST("C01: create_empty_zero yields zero bytes", !r || !zero || k >= len || r->bytes[k] == 0);
        POST("C01: create_empty fails only for length 0, beyond the maximum or no memory", r || len == 0 || len > MAX_BUFFER_SIZE || G.alloc_failed);
        POST("C25: create_empty leaks nothing", G.live == l0 + (r ? 2 : 0));
        REACH("created empty", r != NULL);
    }
#endif
#ifdef H_COPY
    wickr_buffer_t *s = mk_buffer_opt();
    uint8_t b = s && k < s->length ? s->bytes[k] : 0;
    size_t sl = s ? s->length : 0; uint8_t *sb = s ? s->bytes : NULL;
    l0 = G.live; v_inject = true;
    wickr_buffer_t *r = wickr_buffer_copy(s);
    POST("C01: copy is an equal, separate buffer", !r || (s && fresh_copy(r, s->bytes, s->length, k, b)));
    POST("C01: copy fails only for NULL or no memory", r || !s || G.alloc_failed);
    POST("C25: copy leaks nothing", G.live == l0 + (r ? 2 : 0));
    REACH("copied", r != NULL);
    G.alloc_failed = false; l0 = G.live;
    size_t start = nd_u64(), len = nd_u64();
    NATIVE_ONLY(if (s && nd_bool()) { start = nd_u64() % (s->length + 2); len = nd_u64() % (s->length + 2); })
    wickr_buffer_t *q = wickr_buffer_copy_section(s, start, len);
    v_inject = false;
    bool in = s && len > 0 && start < s->length && len <= s->length - start;
    POST("C01: copy_section copies exactly bytes [start, start+len)", !q || (in && ok_buffer(q) && q->length == len && q->bytes != s->bytes
        && (k < start || k - start >= len || q->bytes[k - start] == b)));
    POST("C01: copy_section refuses only ranges outside the source", q || !in || len >= MAX_BUFFER_SIZE || G.alloc_failed);
    POST("C25: copy_section leaks nothing", G.live == l0 + (q ? 2 : 0));
    POST("C01: the source is left alone", !s || (s->length == sl && s->bytes == sb && (k >= sl || s->bytes[k] == b)));
    REACH_OPT("section inside", q != NULL && start > 0 && start + len < s->length);
    REACH("section at the end", q != NULL && start + len == s->length);
#endif
#ifdef H_MODIFY
    wickr_buffer_t *s = mk_buffer_opt();
    size_t n = nd_len(0, MAX_BUFFER_SIZE); uint8_t *src = nd_bool() ? NULL : mk_raw(n);
    size_t start = nd_u64(), len = nd_u64();
    NATIVE_ONLY(if (s && nd_bool()) { start = nd_u64() % (s->length + 2); len = nd_u64() % (s->length + 2); })
    ASSUME(len <= n || len > MAX_BUFFER_SIZE);
    size_t sl = s ? s->length : 0;
    bool in = s && src && len > 0 && start < sl && len <= sl - start;
    bool hit = in && k >= start && k - start < len;
    uint8_t want = hit ? src[k - start] : s && k < sl ? s->bytes[k] : 0, old = s && k < sl ? s->bytes[k] : 0;
    bool ok = wickr_buffer_modify_section(s, src, start, len);
    POST("C01: modify_section succeeds exactly for ranges inside the buffer", ok == (in && len < MAX_BUFFER_SIZE));
    POST("C01: modify_section writes exactly bytes [start, start+len)", !s || k >= sl || s->bytes[k] == (ok ? want : old));
    POST("C01: modify_section never resizes", !s || s->length == sl);
    REACH("modified", ok && start > 0 && start + len < sl);
#endif
#ifdef H_CONCAT
    wickr_buffer_t *a = mk_buffer_opt(), *b = mk_buffer_opt();
    size_t al = a ? a->length : 0, bl = b ? b->length : 0;
    uint8_t want = k < al ? a->bytes[k] : k - al < bl ? b->bytes[k - al] : 0;
    l0 = G.live; v_inject = true;
    wickr_buffer_t *r = wickr_buffer_concat(a, b);
    v_inject = false;
    POST("C01: concat is the bytes of the first followed by the bytes of the second", !r || (a && b && ok_buffer(r) && r->length == al + bl && (k >= r->length || r->bytes[k] == want)));
    POST("C01: concat fails only for NULL, overflow of the maximum or no memory", r || !a || !b || al + bl > MAX_BUFFER_SIZE || G.alloc_failed);
    POST("C01: concat leaves its inputs alone", (!a || a->length == al) && (!b || b->length == bl) && (!a || k >= al || a->bytes[k] == want));
    POST("C25: concat leaks nothing", G.live == l0 + (r ? 2 : 0));
    REACH("concatenated", r != NULL);
#endif
#ifdef H_EQUAL
    /* memcmp and the constant-time comparison of the crypto engine agree with byte equality */
    wickr_buffer_t *a = mk_buffer_opt(), *b = nd_bool() ? a : mk_buffer_opt();
    G.cmp_k = k;
    bool eq = wickr_buffer_is_equal(a, b, NULL);
    POST("C01: equal buffers have equal lengths and equal bytes", !eq || (a && b && a->length == b->length && (k >= a->length || a->bytes[k] == b->bytes[k])));
    POST("C01: a buffer equals itself", a != b || !a || eq);
    POST("C01: one-byte buffers are compared by their byte", !a || !b || a->length != 1 || b->length != 1 || eq == (a->bytes[0] == b->bytes[0]));
    REACH("equal", eq && a != b); REACH("different", !eq && a && b);
#endif
#ifdef H_PROTO
    wickr_buffer_t *s = mk_buffer_opt();
    uint8_t b = s && k < s->length ? s->bytes[k] : 0;
    ProtobufCBinaryData d = { 0, NULL };
    l0 = G.live; v_inject = true;
    bool ok = wickr_buffer_to_protobytes(nd_bool() ? &d : NULL, s);
    v_inject = false;
    POST("C01: to_protobytes is a separate copy", !d.data || (ok && d.len == s->length && d.data != s->bytes && (k >= d.len || d.data[k] == b)));
    POST("C01: to_protobytes reports success truthfully", !ok || d.data);
    POST("C25: to_protobytes leaks nothing", G.live == l0 + (d.data ? 1 : 0));
    if (d.data) {
        wickr_buffer_t *r = wickr_buffer_from_protobytes(d);
        POST("C01: from_protobytes inverts to_protobytes", r && fresh_copy(r, d.data, d.len, k, b));
        REACH("round trip", r);
    }
    ProtobufCBinaryData e = { 0, NULL };
    POST("C01: an empty field is no buffer", wickr_buffer_from_protobytes(e) == NULL);
#endif
#ifdef H_MEM
    size_t n = nd_u64(); NATIVE_ONLY(n %= 5000;) ASSUME(n <= MAX_BUFFER_SIZE);
    bool z = nd_bool(); v_inject = true;
    uint8_t *p = z ? wickr_alloc_zero(n) : wickr_alloc(n);
    v_inject = false;
    POST("C01: allocation yields n bytes, zeroed where promised, and NULL for 0", n == 0 ? p == NULL : p == NULL ? G.alloc_failed : (RW_OK(p, n) && (!z || k >= n || p[k] == 0)));
    POST("C25: one allocation", G.live == (p ? 1 : 0));
    wickr_free(p);
    POST("C25: free releases it", G.live == 0);
    REACH("allocated", n > 1);
#endif
}
