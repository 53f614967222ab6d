/* Contracts of util.c (base64, hex) and b32.c (base32). For any length: the loops carry contracts, and the text and the
   bytes are followed at an arbitrary position. The specification functions are the bit-level definitions. */
#include "gen.h"
#include "loopc.h"
#include "util.h"
#include "b32.h"
static struct {
    unsigned v1, v2, v3; size_t g; unsigned s; size_t n; size_t b; unsigned pos; size_t o, q; size_t it; const wickr_buffer_t *in; size_t x, slen; bool shifted; size_t t[4]; size_t T, pad, tot; size_t m; uint8_t spec;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); }

/* ---- specification: RFC 4648 base64, Crockford base32, hex ---- */
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char A32[] = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";
static int val64(uint8_t c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
static int val16(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int val32(uint8_t c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c < 'A' || c > 'Z' || c == 'I' || c == 'L' || c == 'O' || c == 'U') return -1;
    return c - 'A' + 10 - (c > 'I') - (c > 'L') - (c > 'O') - (c > 'U');
}
static inline uint8_t at(const wickr_buffer_t *b, size_t i) { return i < b->length ? b->bytes[i] : 0; }
/* character pos of base64 group b of data */
static uint8_t enc64(const wickr_buffer_t *d, size_t b, unsigned pos)
{
    uint32_t w = ((uint32_t)at(d, 3 * b) << 16) | ((uint32_t)at(d, 3 * b + 1) << 8) | at(d, 3 * b + 2);
    if (3 * b + pos > d->length) return '=';          /* group of k bytes: k + 1 characters */
    return (uint8_t)A64[(w >> (6 * (3 - pos))) & 63];
}
static uint8_t dec64(uint8_t c0, uint8_t c1, unsigned pos) { int a = val64(c0), b = val64(c1); return (uint8_t)((a << (2 + 2 * pos)) | (b >> (4 - 2 * pos))); }
static uint8_t enc32v(const wickr_buffer_t *d, size_t b, unsigned pos)
{
    uint64_t w = 0;
    for (unsigned i = 0; i < 5; i++) w = (w << 8) | at(d, 5 * b + i);
    return (uint8_t)((w >> (5 * (7 - pos))) & 31);
}
static uint8_t dec32(const uint8_t v[8], unsigned pos)
{
    uint64_t w = 0;
    for (unsigned i = 0; i < 8; i++) w = (w << 5) | v[i];
    return (uint8_t)(w >> (8 * (4 - pos)));
}
/* ---- contracts of strlen, memchr, strtol ---- */
size_t v_strlen(const char *s)
{
#ifdef __CPROVER
    /* the first zero byte is where it is expected (slen) or earlier: then the ghost position o is one choice of it */
    POST("C15: text is terminated", R_OK(s, U.slen + 1) && s[U.slen] == 0);
    return U.o < U.slen && s[U.o] == 0 ? U.o : U.slen;
#else
    return strlen(s);
#endif
}
void *v_memchr(const void *s, int c, size_t n)
{
#ifdef __CPROVER
    POST("C15: text is searched in bounds", n == 0 || R_OK(s, n));
    if (n == 0 || nd_bool()) {
#ifdef H_B64_DEC
        if (U.T + U.pad < n) ASSUME(((const uint8_t *)s)[U.T + U.pad] != (uint8_t)c);      /* NULL: c is nowhere, in particular not here */
#endif
        U.m = n; return NULL;
    }
    U.m = (size_t)nd_range(0, n - 1);
#ifdef H_B64_DEC
    ASSUME(U.m >= U.T + U.pad);         /* precondition: no terminator inside the text */
#endif
    ASSUME(((const uint8_t *)s)[U.m] == (uint8_t)c);
    return (void *)((const uint8_t *)s + U.m);
#else
    return memchr(s, c, n);
#endif
}
/* memmove of a few bytes, byte by byte (what the verifier's own memmove does for any size, at a much higher price) */
void *v_memmove(void *d, const void *s, size_t n)
{
#ifdef __CPROVER
    if (n <= 8) {
        uint8_t t[8];
        POST("C15: memmove stays in bounds", n == 0 || (R_OK(s, n) && RW_OK(d, n)));
        for (unsigned i = 0; i < 8; i++) if (i < n) t[i] = ((const uint8_t *)s)[i];
        for (unsigned i = 0; i < 8; i++) if (i < n) ((uint8_t *)d)[i] = t[i];
        return d;
    }
#endif
    return (memmove)(d, s, n);
}
long v_strtol(const char *s, char **end, int base)
{
#ifdef __CPROVER
    POST("C15: strtol gets a terminated string", R_OK(s, 3) && s[2] == 0 && base == 16 && !end);
    int a = val16((uint8_t)s[0]), b = val16((uint8_t)s[1]);
    if (a >= 0 && b >= 0) return 16 * a + b;
    return (long)nd_range(0, 510) - 255;
#else
    return strtol(s, end, base);
#endif
}
static uint8_t want32(void)
{
    uint8_t v[8] = {0};
    for (unsigned k = 0; k < 8; k++) { size_t p = 8 * U.b + k; for (int c = 0; c < 3; c++) if (U.t[c] == p && p < U.n) v[k] = (uint8_t)val32(U.in->bytes[p]); }
    return dec32(v, U.pos);
}
#ifdef V_LOOPS
/* ---- loop contracts ---- */
static bool enc64_inv(char *p, const unsigned char *raw, size_t len, wickr_buffer_t *r)
{
    return U.it <= U.g && len == U.n - 3 * U.it && (uint8_t *)p == r->bytes + 4 * U.it && raw == U.in->bytes + 3 * U.it && (U.b >= U.it || U.b >= U.g || r->bytes[U.o] == U.spec);
}
void v_loop_enc64(char **p, const unsigned char **raw, size_t *len, wickr_buffer_t *r)
{
    if (LOOP_STEP(U.v1)) {
        POST("C15: base64 encoder loop invariant on entry", enc64_inv(*p, *raw, *len, r));
        U.it = (size_t)nd_range(0, U.g); *len = U.n - 3 * U.it; *p = (char *)r->bytes + 4 * U.it; *raw = U.in->bytes + 3 * U.it;
        if (U.b < U.it) r->bytes[U.o] = U.spec;
    } else { U.it++; POST("C15: base64 encoder loop invariant preserved", enc64_inv(*p, *raw, *len, r)); LOOP_END(); }
}
/* decoder: i characters of the alphabet were seen, j bytes are complete; bytes[j] holds the bits of a byte in progress */
static bool dec64_inv(int i, int j, const char *p, size_t left, wickr_buffer_t *r)
{
    if (i < 0 || j < 0 || (size_t)i > U.it || U.it > U.tot || left != U.tot - U.it || p != (const char *)U.in->bytes + U.it) return false;
    if (j != 3 * (i / 4) + (i % 4 > 1 ? i % 4 - 1 : 0)) return false;
#ifdef H_B64_DEC
    const uint8_t *t = U.in->bytes;
    if ((size_t)i != (U.it < U.T ? U.it : U.T)) return false;
    if (U.q < (size_t)j && r->bytes[U.q] != dec64(t[4 * U.b + U.pos], t[4 * U.b + U.pos + 1], U.pos)) return false;
    if (i % 4) {
        int v = val64(t[i - 1]);
        if (r->bytes[j] != (i % 4 == 1 ? (uint8_t)(v << 2) : i % 4 == 2 ? (uint8_t)((v & 15) << 4) : (uint8_t)((v & 3) << 6))) return false;
    }
#endif
    return true;
}
void v_loop_dec64(int *i, int *j, const char **p, size_t *left, int *cur, wickr_buffer_t **pr)
{
    wickr_buffer_t *r = *pr;
    if (LOOP_STEP(U.v1)) {
        U.it = 0; U.tot = *left;
        POST("C15: base64 decoder loop invariant on entry", dec64_inv(*i, *j, *p, *left, r) && r->length >= U.tot && U.tot <= U.in->length);
#ifdef H_B64_DEC
        POST("C15: the whole text is decoded", U.tot == U.T + U.pad);
#endif
        U.it = (size_t)nd_range(0, U.tot); *i = (int)nd_range(0, U.it); *j = 3 * (*i / 4) + (*i % 4 > 1 ? *i % 4 - 1 : 0); *p = (const char *)U.in->bytes + U.it; *left = U.tot - U.it; *cur = (int)nd_u32();
#ifdef H_B64_DEC
        const uint8_t *t = U.in->bytes;
        ASSUME((size_t)*i == (U.it < U.T ? U.it : U.T));
        /* the precondition at the positions looked at, and the contract of memchr there */
        if (*i > 0) ASSUME(val64(t[*i - 1]) >= 0);
        if (U.it < U.T) ASSUME(val64(t[U.it]) >= 0); else if (U.it < U.tot) ASSUME(t[U.it] == '=');
        if (U.it + 1 < U.T) ASSUME(val64(t[U.it + 1]) >= 0); else if (U.it + 1 < U.tot) ASSUME(t[U.it + 1] == '=');
        if (U.q < (size_t)*j) r->bytes[U.q] = dec64(t[4 * U.b + U.pos], t[4 * U.b + U.pos + 1], U.pos);
#endif
        if ((size_t)*j < r->length) {
            uint8_t v = nd_u8();
#ifdef H_B64_DEC
            if (*i % 4) { int w = val64(t[*i - 1]); v = *i % 4 == 1 ? (uint8_t)(w << 2) : *i % 4 == 2 ? (uint8_t)((w & 15) << 4) : (uint8_t)((w & 3) << 6); }
#endif
            r->bytes[*j] = v;
        }
    } else { U.it++; POST("C15: base64 decoder loop invariant preserved", dec64_inv(*i, *j, *p, *left, r)); LOOP_END(); }
}
static uint8_t hexc(unsigned v) { return (uint8_t)(v < 10 ? '0' + v : 'a' + v - 10); }
void v_loop_hexenc(unsigned int *i, wickr_buffer_t *r)
{
    bool inv = *i <= U.n && (U.b >= *i || U.b >= U.n || r->bytes[U.o] == hexc(U.pos ? U.in->bytes[U.b] & 15 : U.in->bytes[U.b] >> 4));
    if (LOOP_STEP(U.v1)) {
        POST("C15: hex encoder loop invariant on entry", inv && *i == 0);
        U.it = *i = (unsigned)nd_range(0, U.n);
        if (U.b < U.it) r->bytes[U.o] = hexc(U.pos ? U.in->bytes[U.b] & 15 : U.in->bytes[U.b] >> 4);
    } else { POST("C15: hex encoder loop invariant preserved", inv && *i == U.it + 1); LOOP_END(); }
}
static uint8_t hexv(size_t q) { return (uint8_t)(val16(U.in->bytes[2 * q]) * 16 + val16(U.in->bytes[2 * q + 1])); }
static bool hexok(size_t q) { return 2 * q + 1 < U.in->length && val16(U.in->bytes[2 * q]) >= 0 && val16(U.in->bytes[2 * q + 1]) >= 0; }
void v_loop_hexdec(size_t *i, unsigned char **index, size_t length, wickr_buffer_t *r)
{
    bool inv = *i % 2 == 0 && *i <= length && length <= U.in->length && *index == r->bytes + *i / 2 && r->length == length / 2 && (U.q >= *i / 2 || !hexok(U.q) || r->bytes[U.q] == hexv(U.q));
    if (LOOP_STEP(U.v1)) {
        POST("C15: hex decoder loop invariant on entry", inv && *i == 0);
        *i = (size_t)nd_range(0, length); ASSUME(*i % 2 == 0); U.it = *i; *index = r->bytes + *i / 2;
        if (U.q < *i / 2) { uint8_t v = nd_u8(); r->bytes[U.q] = v; ASSUME(!hexok(U.q) || v == hexv(U.q)); }
    } else { POST("C15: hex decoder loop invariant preserved", inv && *i == U.it + 2); LOOP_END(); }
}
/* base32 encoder: blocks of 5 bytes to 8 values, then values to characters */
void v_loop_enc32(size_t *j, unsigned char *out)
{
    bool inv = *j <= U.g && (U.b >= *j || out[U.o] == U.spec);
    if (LOOP_STEP(U.v1)) {
        POST("C15: base32 encoder loop invariant on entry", inv && *j == 0);
        U.it = *j = (size_t)nd_range(0, U.g);
        if (U.b < *j) out[U.o] = U.spec;
    } else { POST("C15: base32 encoder loop invariant preserved", inv && *j == U.it + 1); LOOP_END(); }
}
void v_loop_map32(int *i, unsigned char *io, size_t len)
{
    if (LOOP_STEP(U.v2)) {
        POST("C15: every character of the text is encoded", *i == 0 && (U.o >= len || io[U.o] == U.spec));
        U.it = (size_t)(*i = (int)nd_range(0, len));
        if (U.o < len) io[U.o] = U.o < U.it ? (uint8_t)A32[U.spec] : U.spec;
        if (U.it < len && U.it != U.o) ASSUME(io[U.it] < 32);       /* what was just shown, o being arbitrary */
    } else { POST("C15: base32 alphabet loop invariant preserved", (size_t)*i == U.it + 1 && (U.o >= len || io[U.o] == (U.o < U.it + 1 ? A32[U.spec] : U.spec))); LOOP_END(); }
}
/* base32 decoder: characters to values in place, followed at the positions t */
void v_loop_unmap32(size_t *i, unsigned char *io, size_t len)
{
    if (LOOP_STEP(U.v1)) {
        POST("C15: base32 unmap loop invariant on entry", *i == 0 && len == U.n);
        for (int k = 0; k < 4; k++) POST("C15: the text is decoded as given", U.t[k] >= len || io[U.t[k]] == U.in->bytes[U.t[k]]);
        U.it = *i = (size_t)nd_range(0, len);
        for (int k = 0; k < 4; k++) if (U.t[k] < len) { int v = val32(U.in->bytes[U.t[k]]); if (U.t[k] < U.it) ASSUME(v >= 0); io[U.t[k]] = U.t[k] < U.it ? (uint8_t)v : U.in->bytes[U.t[k]]; }
    } else {
        POST("C15: base32 unmap loop invariant preserved", *i == U.it + 1);
        for (int k = 0; k < 4; k++) POST("C15: base32 unmap loop invariant preserved", U.t[k] >= len || (U.t[k] < *i ? val32(U.in->bytes[U.t[k]]) >= 0 && io[U.t[k]] == val32(U.in->bytes[U.t[k]]) : io[U.t[k]] == U.in->bytes[U.t[k]]));
        LOOP_END();
    }
}
void v_loop_dec32(size_t *j, const unsigned char *in, unsigned char *out)
{
    bool inv = *j <= U.g && (U.b >= *j || out[U.q] == U.spec);
    if (LOOP_STEP(U.v2)) {
        POST("C15: base32 decoder loop invariant on entry", inv && *j == 0);
        POST("C15: values are in range", U.t[3] >= U.n || in[U.t[3]] < 32);
        U.it = *j = (size_t)nd_range(0, U.g);
        /* what was just shown, t[3] being arbitrary */
        for (unsigned k = 0; k < 8; k++) { if (8 * U.it + k < U.n) ASSUME(in[8 * U.it + k] < 32); if (8 * U.g + k < U.n) ASSUME(in[8 * U.g + k] < 32); }
        if (U.b < *j) out[U.q] = U.spec;
    } else { POST("C15: base32 decoder loop invariant preserved", inv && *j == U.it + 1); LOOP_END(); }
}
#endif

#ifdef __CPROVER
 #define LIM(x, y) (x)
#else
 #define LIM(x, y) (y)
#endif
#ifdef V_LOOPS
 #define CAP(big, small) (big)
#elif defined(__CPROVER)
 #define CAP(big, small) (small)
#else
 #define CAP(big, small) (big)
#endif
void harness(void)
{
    memset(&U, 0, sizeof U); int64_t l0;
#ifdef H_B64_ENC
    U.g = nd_len(0, CAP(MAX_BUFFER_SIZE / 3, 1)); U.s = (unsigned)nd_range(0, 2); U.n = 3 * U.g + U.s; ASSUME(U.n >= 1 && U.n <= MAX_BUFFER_SIZE);
    U.b = (size_t)nd_range(0, MAX_BUFFER_SIZE / 3); U.pos = (unsigned)nd_range(0, 3); U.o = 4 * U.b + U.pos; size_t L = 4 * (U.g + (U.s ? 1 : 0)); U.slen = L;
    wickr_buffer_t *d = mk_buffer_len(U.n); U.in = d; U.spec = enc64(d, U.b, U.pos);
    l0 = G.live; v_inject = true;
    wickr_buffer_t *r = getBase64FromData(d);
    v_inject = false;
    POST("C15: base64 text has four characters per three bytes", !r || (r->length == L && RW_OK(r->bytes, L + 1) && r->bytes[L] == 0));
    POST("C15: base64 text is the encoding of the data", !r || U.o >= L || r->bytes[U.o] == U.spec);
    NATIVE_ONLY(if (r) for (size_t o = 0; o < L; o++) POST("C15: base64 text is the encoding of the data", r->bytes[o] == enc64(d, o / 4, o % 4));)
    POST("C15: data of any length can be encoded", r || G.alloc_failed || L + 1 > MAX_BUFFER_SIZE);
    POST("C25: getBase64FromData leaks nothing", G.live == l0 + (r ? 2 : 0));
    POST("C15: nothing has no base64 text", getBase64FromData(NULL) == NULL);
    REACH("encoded", r && U.s == 1); REACH("encoded whole", r && U.g > 0 && U.b < U.g);
#endif
#ifdef H_B64_DEC
    /* a text of T characters of the alphabet, padded or not, terminated or not */
    U.g = nd_len(0, CAP(MAX_BUFFER_SIZE / 4 - 2, 1)); U.s = (unsigned)nd_range(0, 2); U.T = 4 * U.g + (U.s ? U.s + 1 : 0); U.pad = U.s && nd_bool() ? 3 - U.s : 0; ASSUME(U.T >= 1);
    U.b = (size_t)nd_range(0, MAX_BUFFER_SIZE / 4); U.pos = (unsigned)nd_range(0, 2); U.q = 3 * U.b + U.pos;
    bool term = nd_bool();
    wickr_buffer_t *t = mk_buffer_len(U.T + U.pad + (term ? 1 : 0)); U.in = t;
    if (term) t->bytes[U.T + U.pad] = 0;
#ifdef V_LOOPS
    /* the precondition at the positions of byte q */
    if (4 * U.b + U.pos < U.T) ASSUME(val64(t->bytes[4 * U.b + U.pos]) >= 0);
    if (4 * U.b + U.pos + 1 < U.T) ASSUME(val64(t->bytes[4 * U.b + U.pos + 1]) >= 0);
#else
    for (size_t i = 0; i < U.T; i++) t->bytes[i] = (uint8_t)A64[nd_u8() & 63];
    for (size_t i = 0; i < U.pad; i++) t->bytes[U.T + i] = '=';
#endif
    size_t n = 3 * U.g + U.s;
    l0 = G.live; v_inject = true;
    wickr_buffer_t *r = getDataFromBase64(t);
    v_inject = false;
    POST("C15: base64 text gives three bytes per four characters", !r || (r->length == n && (n == 0 || RW_OK(r->bytes, n))));
    POST("C15: base64 text gives the bytes it encodes", !r || U.q >= n || r->bytes[U.q] == dec64(t->bytes[4 * U.b + U.pos], t->bytes[4 * U.b + U.pos + 1], U.pos));
    NATIVE_ONLY(if (r) for (size_t q = 0; q < n; q++) POST("C15: base64 text gives the bytes it encodes", r->bytes[q] == dec64(t->bytes[4 * (q / 3) + q % 3], t->bytes[4 * (q / 3) + q % 3 + 1], q % 3));)
    POST("C15: base64 text can be decoded", r || G.alloc_failed);
    POST("C25: getDataFromBase64 leaks nothing", G.live == l0 + (r ? 2 : 0));
    REACH("decoded", r && U.s == 1 && U.pad); REACH("decoded unterminated", r && !term && U.g > 0 && U.q < n);
#endif
#ifdef H_B64_ANY
    wickr_buffer_t *t = nd_bool() ? NULL : mk_buffer_len(nd_len(1, CAP(MAX_BUFFER_SIZE, 4))); U.in = t;
    NATIVE_ONLY(if (t && nd_bool()) for (size_t i = 0; i < t->length; i++) t->bytes[i] = (uint8_t)A64[nd_u8() & 63];)
    l0 = G.live; v_inject = true;
    wickr_buffer_t *r = getDataFromBase64(t);
    v_inject = false;
    POST("C15: decoding any base64 text gives at most three bytes per four characters", !r || (r->length <= t->length && (r->length == 0 || RW_OK(r->bytes, r->length))));
    POST("C25: getDataFromBase64 leaks nothing", G.live == l0 + (r ? 2 : 0));
    REACH("decoded", r && r->length > 1); REACH_OPT("refused", t && !r && !G.alloc_failed);
#endif
#ifdef H_HEX_ENC
    wickr_buffer_t *d = mk_buffer_len(nd_len(1, CAP(MAX_BUFFER_SIZE, 3))); U.in = d; U.n = d->length; U.b = (size_t)nd_range(0, MAX_BUFFER_SIZE); U.pos = nd_bool(); U.o = 2 * U.b + U.pos;
    l0 = G.live; v_inject = true;
    wickr_buffer_t *r = getHexStringFromData(d);
    v_inject = false;
    POST("C15: hex text has two characters per byte", !r || (r->length == 2 * U.n && RW_OK(r->bytes, 2 * U.n + 1) && r->bytes[2 * U.n] == 0));
    POST("C15: hex text is the encoding of the data", !r || U.b >= U.n || val16(r->bytes[U.o]) == (U.pos ? U.in->bytes[U.b] & 15 : U.in->bytes[U.b] >> 4));
    NATIVE_ONLY(if (r) for (size_t b = 0; b < U.n; b++) POST("C15: hex text is the encoding of the data", val16(r->bytes[2 * b]) == d->bytes[b] >> 4 && val16(r->bytes[2 * b + 1]) == (d->bytes[b] & 15));)
    POST("C15: data of any length can be encoded", r || G.alloc_failed || 2 * U.n + 1 > MAX_BUFFER_SIZE);
    POST("C25: getHexStringFromData leaks nothing", G.live == l0 + (r ? 2 : 0));
    POST("C15: nothing has no hex text", getHexStringFromData(NULL) == NULL);
    REACH("encoded", r && U.b < U.n && U.b > 0);
#endif
#ifdef H_HEX_DEC
    wickr_buffer_t *t = nd_bool() ? NULL : mk_buffer_len(nd_len(1, CAP(MAX_BUFFER_SIZE, 5))); U.in = t; U.q = (size_t)nd_range(0, MAX_BUFFER_SIZE);
    NATIVE_ONLY(if (t && nd_bool()) for (size_t i = 0; i < t->length; i++) t->bytes[i] = (uint8_t)"0123456789abcdefABCDEF"[nd_u8() % 22];)
    l0 = G.live; v_inject = true;
    wickr_buffer_t *r = getDataFromHexString(t);
    v_inject = false;
    size_t L = U.m;
    NATIVE_ONLY(if (t) { const uint8_t *e = memchr(t->bytes, 0, t->length); L = e ? (size_t)(e - t->bytes) : t->length; })
    POST("C15: hex text gives a byte per two characters", !r || (r->length == L / 2 && RW_OK(r->bytes, r->length)));
    POST("C15: hex text gives the bytes it encodes", !r || U.q >= r->length || val16(t->bytes[2 * U.q]) < 0 || val16(t->bytes[2 * U.q + 1]) < 0 || r->bytes[U.q] == val16(t->bytes[2 * U.q]) * 16 + val16(t->bytes[2 * U.q + 1]));
    NATIVE_ONLY(if (r && r->length == L / 2) for (size_t q = 0; q < r->length; q++) POST("C15: hex text gives the bytes it encodes", val16(t->bytes[2 * q]) < 0 || val16(t->bytes[2 * q + 1]) < 0 || r->bytes[q] == val16(t->bytes[2 * q]) * 16 + val16(t->bytes[2 * q + 1]));)
    POST("C15: hex text can be decoded", r || !t || G.alloc_failed || L < 2);
    POST("C25: getDataFromHexString leaks nothing", G.live == l0 + (r ? 2 : 0));
    REACH("decoded", r && r->length > 1 && U.q < r->length);
#endif
#ifdef H_B32_ENC
    U.g = nd_len(0, CAP(MAX_BUFFER_SIZE / 5, 1)); U.s = (unsigned)nd_range(0, 4); U.n = 5 * U.g + U.s; ASSUME(U.n >= 1 && U.n <= MAX_BUFFER_SIZE);
    U.b = (size_t)nd_range(0, MAX_BUFFER_SIZE / 5); U.pos = (unsigned)nd_range(0, 7); U.o = 8 * U.b + U.pos; size_t L = 8 * U.g + (U.s == 0 ? 0 : U.s == 1 ? 2 : U.s == 2 ? 4 : U.s == 3 ? 5 : 7);
    wickr_buffer_t *d = mk_buffer_len(U.n); U.in = d; U.spec = enc32v(d, U.b, U.pos);
    l0 = G.live; v_inject = true;
    wickr_buffer_t *r = base32_encode(d);
    v_inject = false;
    POST("C15: base32 text has a character per five bits", !r || (r->length == L && RW_OK(r->bytes, L)));
    POST("C15: base32 text is the encoding of the data", !r || U.o >= L || r->bytes[U.o] == A32[U.spec]);
    NATIVE_ONLY(if (r && r->length == L) for (size_t o = 0; o < L; o++) POST("C15: base32 text is the encoding of the data", r->bytes[o] == A32[enc32v(d, o / 8, o % 8)]);)
    POST("C15: data of any length can be encoded", r || G.alloc_failed || L > MAX_BUFFER_SIZE);
    POST("C25: base32_encode leaks nothing", G.live == l0 + (r ? 2 : 0));
    POST("C15: nothing has no base32 text", base32_encode(NULL) == NULL);
    REACH("encoded", r && U.s == 1 && U.b == U.g); REACH("encoded whole", r && U.g > 0 && U.b < U.g);
#endif
#ifdef H_B32_DEC
    U.g = nd_len(0, CAP(MAX_BUFFER_SIZE / 8, 1)); U.s = (unsigned)nd_range(0, 7); U.n = 8 * U.g + U.s; ASSUME(U.n >= 1 && U.n <= MAX_BUFFER_SIZE);
    U.b = (size_t)nd_range(0, MAX_BUFFER_SIZE / 8); U.pos = (unsigned)nd_range(0, 4); U.q = 5 * U.b + U.pos; size_t L = 5 * U.g + (U.s * 5) / 8;
    U.t[0] = 8 * U.b + (8 * U.pos) / 5; U.t[1] = U.t[0] + 1; U.t[2] = U.t[0] + 2; U.t[3] = nd_u64();
    wickr_buffer_t *t = mk_buffer_len(U.n); U.in = t;
    NATIVE_ONLY(U.t[3] = U.n; if (nd_bool()) for (size_t i = 0; i < U.n; i++) t->bytes[i] = (uint8_t)A32[nd_u8() & 31];)
    U.spec = want32();
    l0 = G.live; v_inject = true;
    wickr_buffer_t *r = base32_decode(t);
    v_inject = false;
    POST("C15: base32 text gives a byte per eight bits", !r || (r->length == L && RW_OK(r->bytes, L)));
    POST("C15: base32 text gives the bytes it encodes", !r || U.q >= L || r->bytes[U.q] == U.spec);
    NATIVE_ONLY(if (r && r->length == L) for (size_t b = 0; b < L / 5; b++) for (unsigned p = 0; p < 5; p++) { uint8_t v[8]; for (int j = 0; j < 8; j++) v[j] = (uint8_t)val32(t->bytes[8 * b + j]); POST("C15: base32 text gives the bytes it encodes", r->bytes[5 * b + p] == dec32(v, p)); })
    POST("C15: base32 text with other characters is refused", !r || U.t[3] >= U.n || val32(t->bytes[U.t[3]]) >= 0);
    NATIVE_ONLY(for (size_t i = 0; i < U.n; i++) POST("C15: base32 text with other characters is refused", !r || val32(t->bytes[i]) >= 0);)
    POST("C25: base32_decode leaks nothing", G.live == l0 + (r ? 2 : 0));
    POST("C15: nothing has no data", base32_decode(NULL) == NULL);
    REACH("decoded", r && U.s == 4 && U.b == U.g); REACH("decoded whole", r && U.g > 0 && U.b < U.g);
#endif
#ifdef H_LEMMA
    /* the specified decodings invert the specified encodings, group by group, for whole and partial groups */
    wickr_buffer_t *d = mk_buffer_len((size_t)nd_range(1, 5)); unsigned pos;
    for (size_t i = 0; i < d->length; i++) d->bytes[i] = nd_u8();
    if (d->length <= 3) for (pos = 0; pos < d->length; pos++) { uint8_t a = enc64(d, 0, pos), b = enc64(d, 0, pos + 1); POST("C15: decoding base64 inverts encoding", val64(a) >= 0 && val64(b) >= 0 && dec64(a, b, pos) == d->bytes[pos]); }
    uint8_t v[8]; size_t L = d->length == 1 ? 2 : d->length == 2 ? 4 : d->length == 3 ? 5 : d->length == 4 ? 7 : 8;
    POST("C15: the length of base32 text tells the length of the data", (5 * L) / 8 == d->length);
    for (unsigned i = 0; i < 8; i++) { v[i] = i < L ? enc32v(d, 0, i) : 0; POST("C15: base32 characters decode to their values", v[i] < 32 && val32((uint8_t)A32[v[i]]) == v[i]); }
    for (pos = 0; pos < d->length; pos++) POST("C15: decoding base32 inverts encoding", dec32(v, pos) == d->bytes[pos]);
    for (unsigned i = 0; i < 64; i++) POST("C15: base64 characters decode to their values", val64((uint8_t)A64[i]) == (int)i);
    REACH("lemmas", d->length == 5);
#endif
}
