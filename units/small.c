/* Contracts of the small object types: EC keys, encoder results, and the typed arrays of nodes and key exchanges (array.c by its contract). */
#include "gen_node.h"
#include "gen_msg.h"
#include "encoder_result.h"
#include "array.h"

static struct {
    size_t k; bool failed;
    const wickr_packet_t *packet_of; wickr_packet_t *packet_copy;
    uint32_t count, index; const void *arr, *item, *item_copied, *item_freed, *item_copy; bool new_ok, set_ok, fetch_ok, copy_ok, free_ok, deep_free, ret;
    unsigned news, sets, fetches, copies, frees;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); }
static void watch(const wickr_buffer_t *b) { G.watch = b->bytes; G.watch_len = b->length; G.watch_k = U.k; G.watch_freed = G.watch_dirty = false; }
#define WIPED (G.watch_freed && !G.watch_dirty)
#ifdef H_ENC
/* contract of packet copies (unit proto_pkt_copy): a new packet, or nothing */
wickr_packet_t *wickr_packet_copy(const wickr_packet_t *p)
{
    if (!p) return NULL;
    U.packet_of = p;
    if (nd_fail()) { U.failed = true; return NULL; }
    return U.packet_copy = mk_mem(sizeof *p);
}
void wickr_packet_destroy(wickr_packet_t **p) { if (!p || !*p) return; v_free(*p); *p = NULL; }
#endif
#if defined(H_NARR) || defined(H_XARR)
#ifdef H_NARR
#define ITEM wickr_node_t
#define ITEM_COPY wickr_node_copy
#define ITEM_DESTROY wickr_node_destroy
#else
#define ITEM wickr_key_exchange_t
#define ITEM_COPY wickr_key_exchange_copy
#define ITEM_DESTROY wickr_key_exchange_destroy
#endif
ITEM *ITEM_COPY(const ITEM *i) { U.item_copied = i; return (ITEM *)U.item_copy; }
void ITEM_DESTROY(ITEM **i) { if (i && *i) { U.item_freed = *i; *i = NULL; } }
/* contracts of arrays (units array_*): they use the item functions they are given */
wickr_array_t *wickr_array_new(uint32_t n, uint8_t type, wickr_array_copy_func copy, wickr_array_destroy_func destroy)
{
    (void)type;
    U.news++;
    /* an item handed to these functions has to end up copied, or released */
    static int tok;
    const void *c = copy(&tok); void *d = &tok;
    U.new_ok = n == U.count && U.item_copied == &tok && c == U.item_copy;
    destroy(&d);
    U.new_ok = U.new_ok && U.item_freed == &tok;
    if (nd_fail()) { U.failed = true; return NULL; }
    return (wickr_array_t *)U.arr;
}
bool wickr_array_set_item(wickr_array_t *a, uint32_t i, void *item, bool deep)
{
    U.sets++; U.set_ok = a == U.arr && i == U.index && item == U.item && !deep;
    return U.ret = nd_bool();
}
void *wickr_array_fetch_item(const wickr_array_t *a, uint32_t i, bool deep)
{
    U.fetches++; U.fetch_ok = a == U.arr && i == U.index && !deep;
    return (void *)U.item;
}
wickr_array_t *wickr_array_copy(const wickr_array_t *a, bool deep)
{
    U.copies++; U.copy_ok = a == U.arr && deep;
    return (wickr_array_t *)U.item;
}
void wickr_array_destroy(wickr_array_t **a, bool deep)
{
    U.frees++; U.free_ok = a && *a == U.arr; U.deep_free = deep;
    if (a) *a = NULL;
}
#endif

void harness(void)
{
    U.k = nd_u64();
    int64_t l0;
#ifdef H_ECKEY
    wickr_buffer_t *pub = mk_buffer_opt(), *pri = mk_buffer_opt();
    bool given = nd_bool();
    l0 = G.live; v_inject = true;
    wickr_ec_key_t *x = given ? wickr_ec_key_create(EC_CURVE_NIST_P521, pub, pri) : NULL;
    v_inject = false;
    POST("C21: a key is made of the parts given", !x || (pub && x->pub_data == pub && x->pri_data == pri && x->curve.identifier == EC_CURVE_NIST_P521.identifier && x->curve.max_pub_size == EC_CURVE_NIST_P521.max_pub_size));
    POST("C21: a key is made", x || !given || !pub || G.alloc_failed);
    POST("C25: ec_key_create takes nothing over when it fails", G.live == l0 + (x ? 1 : 0));
    uint8_t p0 = x && U.k < pub->length ? pub->bytes[U.k] : 0;
    l0 = G.live; v_inject = true;
    wickr_ec_key_t *c = wickr_ec_key_copy(x);
    v_inject = false;
    POST("C21: a copied key is the same key", !c || (x && same_ec_key(c, x, U.k) && (c->pri_data != NULL) == (x->pri_data != NULL)));
    POST("C21: a copied key shares nothing with the original", !c || apart_ec_key(c, x));
    POST("C21: the original key stays as it was", !x || (x->pub_data == pub && x->pri_data == pri && (U.k >= pub->length || pub->bytes[U.k] == p0)));
    POST("C21: a key is copied", c || !x || G.alloc_failed);
    POST("C25: ec_key_copy leaks nothing", G.live == l0 + n_ec_key(c));
    REACH("copied private key", c && c->pri_data); REACH("copied public key", c && !c->pri_data); REACH_OPT("not copied", x && !c);
    if (c) {
        bool pr = c->pri_data; if (pr) watch(c->pri_data);
        wickr_ec_key_destroy(&c);
        POST("C25: ec_key_destroy releases everything", !c && G.live == l0);
        POST("C16: the private key is wiped", !pr || WIPED);
    }
    wickr_ec_key_destroy(&c); wickr_ec_key_destroy(NULL);
#endif
#ifdef H_ENC
    wickr_cipher_key_t *key = nd_bool() ? NULL : mk_cipher_key(); wickr_packet_t *p = nd_bool() ? NULL : mk_mem(sizeof *p);
    l0 = G.live; v_inject = true;
    wickr_encoder_result_t *r = wickr_encoder_result_create(key, p);
    v_inject = false;
    POST("C21: an encoder result is made of the parts given", !r || (key && p && r->packet_key == key && r->packet == p));
    POST("C21: an encoder result is made", r || !key || !p || G.alloc_failed);
    POST("C25: encoder_result_create takes nothing over when it fails", G.live == l0 + (r ? 1 : 0));
    l0 = G.live; v_inject = true;
    wickr_encoder_result_t *c = wickr_encoder_result_copy(r);
    v_inject = false;
    POST("C21: a copied encoder result has copies of its packet key and its packet", !c || (r && c != r && c->packet_key != key && same_cipher(&c->packet_key->cipher, &key->cipher) && same_bytes_at(c->packet_key->key_data, key->key_data, U.k)
        && apart_buf(c->packet_key->key_data, key->key_data) && U.packet_of == p && c->packet == U.packet_copy));
    POST("C21: the original encoder result stays as it was", !r || (r->packet_key == key && r->packet == p));
    POST("C21: an encoder result is copied", c || !r || U.failed || G.alloc_failed);
    POST("C25: encoder_result_copy leaks nothing", G.live == l0 + (c ? 1 + 3 + 1 : 0));
    REACH("copied", c); REACH_OPT("not copied", r && !c);
    if (c) {
        watch(c->packet_key->key_data);
        wickr_encoder_result_destroy(&c);
        POST("C25: encoder_result_destroy releases everything", !c && G.live == l0);
        POST("C16: the packet key is wiped", WIPED);
    }
    wickr_encoder_result_destroy(&c); wickr_encoder_result_destroy(NULL);
#endif
#if defined(H_NARR) || defined(H_XARR)
    static int a, b, d;
    U.arr = &a; U.item = nd_bool() ? NULL : &b; U.item_copy = &d; U.count = nd_u32(); U.index = nd_u32();
    wickr_array_t *arr = (wickr_array_t *)&a;
#ifdef H_NARR
    wickr_array_t *n = wickr_node_array_new(U.count);
    bool s = wickr_node_array_set_item(arr, U.index, (wickr_node_t *)U.item); void *f = wickr_node_array_fetch_item(arr, U.index); wickr_array_t *c = wickr_node_array_copy(arr);
    wickr_node_array_destroy(&arr);
    const bool deep = false;    /* documented: the nodes stay */
#else
    wickr_array_t *n = wickr_exchange_array_new(U.count);
    bool s = wickr_exchange_array_set_item(arr, U.index, (wickr_key_exchange_t *)U.item); void *f = wickr_exchange_array_fetch_item(arr, U.index); wickr_array_t *c = wickr_exchange_array_copy(arr);
    wickr_exchange_array_destroy(&arr);
    const bool deep = true;
#endif
    POST("C14: a typed array has the given size, and copies and releases its items as items of its type", n ? U.news == 1 && U.new_ok && n == U.arr : U.failed);
    POST("C14: an item is stored as it is in the slot given", U.sets == 1 && U.set_ok && s == U.ret);
    POST("C14: an item is fetched from the slot given", U.fetches == 1 && U.fetch_ok && f == U.item);
    POST("C14: a copied array has copies of the items", U.copies == 1 && U.copy_ok && c == U.item);
    POST("C14: an array is released once", U.frees == 1 && U.free_ok && U.deep_free == deep && !arr);
    REACH("array", n);
#endif
}
