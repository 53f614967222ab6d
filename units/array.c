/* Contracts of array.c. Items are opaque: the array only hands them to its copy and destroy functions. The ghost slot
   K is arbitrary, so what holds for slot K holds for every slot; the items of the source are pairwise different. */
#include "gen.h"
#include "array.h"
#include "loopc.h"
#include "private/buffer_priv.h"

static struct {
    uint32_t k, size; bool arbitrary; wickr_buffer_t *store[3]; unsigned stores;
    uintptr_t item;                  /* item of slot k of the first array */
    unsigned copies, destroys; uintptr_t copy_of_item; unsigned visits, dvisits, i0; uintptr_t copied_as; uint32_t other; uintptr_t other_item;
    uintptr_t last_copied, last_destroyed, last_copy; bool copy_failed;
    bool destroy_stub; wickr_array_t *destroyed; bool destroyed_deep; uintptr_t dk; bool d_empty; unsigned ddestroys;
    wickr_array_t *arr;
} U;
void v_unit_reset(void) { memset(&U, 0, sizeof U); }
static inline uintptr_t slot(const wickr_buffer_t *b, uint32_t i) { return ((const uintptr_t *)b->bytes)[i]; }
static inline void put(wickr_buffer_t *b, uint32_t i, uintptr_t v) { ((uintptr_t *)b->bytes)[i] = v; }

/* contract of the zeroing constructor (proved by unit buffer_create); the first store may have arbitrary content: an array in any state */
wickr_buffer_t *wickr_buffer_create_empty_zero(size_t n)
{
    if (n == 0 || n > MAX_BUFFER_SIZE || (v_inject && nd_bool())) { if (n && n <= MAX_BUFFER_SIZE) G.alloc_failed = true; return NULL; }
    wickr_buffer_t *b = mk_mem(sizeof *b);
    b->length = n;
    if (U.arbitrary && U.stores == 0) {
        b->bytes = mk_mem(n);
        NATIVE_ONLY(for (size_t i = 0; i < n / 8; i++) put(b, i, nd_bool() ? 0 : 0x1000 + 16 * i);)
    } else { b->bytes = calloc(1, n); ASSUME(b->bytes != NULL); G.live++; }
    if (U.stores < 3) U.store[U.stores] = b;
    U.stores++;
    return b;
}
static void *e_copy(void *p)
{
    uintptr_t v = (uintptr_t)p;
    POST("C14: only items are copied", v != 0);
    U.last_copied = v;
    if (nd_bool()) { U.copy_failed = true; return NULL; }
    uintptr_t c = nd_u64(); ASSUME(c != 0);
    if (v == U.item && U.item) { U.copies++; U.copied_as = c; }
    U.last_copy = c;
    return (void *)c;
}
static void e_destroy(void **p)
{
    uintptr_t v = (uintptr_t)*p;
    POST("C14: only items are released", v != 0);
    U.last_destroyed = v;
    if (v == U.item && U.item) U.destroys++;
    *p = NULL;
}
#ifdef S_DESTROY
/* contract of wickr_array_destroy (proved by unit array_destroy): releases store, array and, when asked, the items */
void wickr_array_destroy(wickr_array_t **a, bool deep)
{
    if (!a || !*a) return;
    U.destroyed = *a; U.destroyed_deep = deep; U.ddestroys++;
    wickr_buffer_t *b = U.store[U.stores - 1];
    U.d_empty = U.k >= U.size || slot(b, U.k) == 0; U.dk = U.k < U.size ? slot(b, U.k) : 0;
    v_free(b->bytes); v_free(b); v_free(*a); *a = NULL;
}
#endif
#ifdef V_LOOPS
static unsigned copies_at;
/* slots below i of the copy hold the item (or its one copy), the others are empty */
void v_loop_copy(wickr_array_t **copy, unsigned *i, const wickr_array_t *src, bool deep)
{
    if (!*copy) { ASSUME(U.visits == 0); U.visits++; return; }     /* no copy array: the first iteration must leave the loop */
    wickr_buffer_t *s = U.store[0], *c = U.store[1];
    uintptr_t want = deep ? (U.item ? U.copied_as : 0) : U.item;
    bool inv = *i <= U.size && (U.k >= U.size || (U.k < *i ? slot(c, U.k) == want && U.copies == ((deep && U.item) ? 1u : 0u) : slot(c, U.k) == 0 && U.copies == 0)) && U.destroys == 0 && !U.copy_failed;
    if (LOOP_STEP(U.visits)) {
        POST("C14: copy loop invariant on entry", inv);
        *i = (unsigned)nd_range(0, U.size);
#ifdef __CPROVER
        __CPROVER_havoc_object(c->bytes);
#endif
        if (U.k < *i) { U.copies = (deep && U.item) ? 1 : 0; U.copied_as = nd_u64(); ASSUME(U.copied_as != 0); }
        ASSUME(U.k >= U.size || slot(c, U.k) == (U.k < *i ? (deep ? (U.item ? U.copied_as : 0) : U.item) : 0));
        /* an item of the copy that is not a copy of slot k; the items of the source are pairwise different */
        if (*i < U.size && *i != U.k) { ASSUME(slot(c, *i) == 0); ASSUME(slot(s, *i) != U.item || !U.item); }
    } else { POST("C14: copy loop invariant preserved", inv); LOOP_END(); }
}
void v_loop_destroy(wickr_array_t *a, unsigned *i)
{
    wickr_buffer_t *s = U.store[0];
    bool inv = *i <= U.size && U.destroys == ((U.item && U.k < *i) ? 1u : 0u) && (U.k >= U.size || slot(s, U.k) == U.item);
    if (LOOP_STEP(U.dvisits)) {
        POST("C14: destroy loop invariant on entry", inv);
        *i = (unsigned)nd_range(0, U.size); U.destroys = (U.item && U.k < *i) ? 1 : 0;
        if (*i < U.size && *i != U.k) ASSUME(slot(s, *i) != U.item || !U.item);
    } else { POST("C14: destroy loop invariant preserved", inv); LOOP_END(); }
}
#endif
/* an array in an arbitrary state */
static wickr_array_t *mk_array(void)
{
    U.arbitrary = true; U.size = (uint32_t)nd_len(0, MAX_BUFFER_SIZE / sizeof(uintptr_t)); U.k = nd_u32();
    NATIVE_ONLY(if (U.size) U.k %= U.size;)
    U.arr = wickr_array_new(U.size, nd_u8(), e_copy, e_destroy);
    ASSUME(U.arr != NULL);
    if (U.size == 0) U.stores = 1;                     /* no store */
    if (U.k < U.size) U.item = slot(U.store[0], U.k);
#if defined(__CPROVER) && !defined(V_LOOPS) && !defined(H_ITEM)
    for (uint32_t i = 0; i < 3 && i < U.size; i++) if (i != U.k) ASSUME(slot(U.store[0], i) != U.item || !U.item);    /* pairwise different, as in the loop contracts */
#endif
    return U.arr;
}
#define N_ARR (1 + (U.size ? 2 : 0))

void harness(void)
{
    memset(&U, 0, sizeof U); int64_t l0;
#ifdef H_NEW
    uint32_t n = nd_u32();
    NATIVE_ONLY(n %= 70;)
    U.k = nd_u32(); uint8_t t = nd_u8(); bool c = nd_bool(), d = nd_bool();
    l0 = G.live; v_inject = true;
    wickr_array_t *a = wickr_array_new(n, t, c ? e_copy : NULL, d ? e_destroy : NULL);
    v_inject = false;
    POST("C14: a new array has the requested size and only empty slots", !a || (c && d && wickr_array_get_item_count(a) == n && (U.k >= n || wickr_array_fetch_item(a, U.k, false) == NULL)));
    POST("C14: an array can be created", a || !c || !d || G.alloc_failed || n > MAX_BUFFER_SIZE / sizeof(uintptr_t));
    POST("C25: array_new leaks nothing", G.live == l0 + (a ? 1 + (n ? 2 : 0) : 0));
    POST("C14: a missing array has no items", wickr_array_get_item_count(NULL) == 0 && wickr_array_fetch_item(NULL, n, false) == NULL && !wickr_array_set_item(NULL, n, (void *)(uintptr_t)8, false));
    REACH("created", a && n > 3); REACH("created empty", a && n == 0);
#endif
#ifdef H_ITEM
    wickr_array_t *a = mk_array(); uint32_t i = nd_u32(); bool cp = nd_bool(), cf = nd_bool(); uintptr_t v = nd_u64();
    NATIVE_ONLY(if (nd_bool() && U.size) i %= U.size;)
    uintptr_t before = i < U.size ? slot(U.store[0], i) : 0;
    if (i != U.k) ASSUME(before != U.item || !U.item);
    ASSUME(v != U.item || !v);                         /* a new item */
    l0 = G.live; v_inject = true;
    void *f = wickr_array_fetch_item(a, i, cf);
    uintptr_t fc = U.last_copy; bool ff = U.copy_failed; U.copy_failed = false; U.copies = 0;
    POST("C14: fetching gives the item of the slot or one copy of it", (uintptr_t)f == (i >= U.size || !before ? 0 : cf ? (ff ? 0 : fc) : before));
    POST("C14: fetching copies only when asked", (U.last_copied != 0) == (cf && i < U.size && before) && (U.last_copied == 0 || U.last_copied == before));
    U.last_copied = 0;
    bool r = wickr_array_set_item(a, i, (void *)v, cp);
    v_inject = false;
    POST("C14: storing succeeds exactly inside the array", r == (i < U.size && !U.copy_failed));
    POST("C14: the slot holds the item or its copy", !r || slot(U.store[0], i) == (v ? (cp ? U.last_copy : v) : 0));
    POST("C14: only given items are copied, only when asked", (U.last_copied == (cp && v && i < U.size ? v : 0)));
    POST("C14: the replaced item is released exactly when the array owns its items", U.last_destroyed == (r && cp ? before : 0));
    POST("C14: every other slot keeps its item", U.k >= U.size || (U.k == i && r) || (slot(U.store[0], U.k) == U.item && U.destroys == 0));
    POST("C14: the size does not change", wickr_array_get_item_count(a) == U.size);
    POST("C25: array items leak nothing", G.live == l0);
    REACH("stored", r && cp && before && v); REACH("fetched copy", f && cf); REACH_OPT("refused", !r && i >= U.size);
#endif
#ifdef H_COPY
    wickr_array_t *a = mk_array(); bool deep = nd_bool();
    l0 = G.live; v_inject = true;
    wickr_array_t *c = wickr_array_copy(nd_bool() ? a : NULL, deep);
    v_inject = false;
    POST("C14: a copy has the same size", !c || (c != a && wickr_array_get_item_count(c) == U.size));
    POST("C14: each slot of a copy holds the item or, for a deep copy, its own one copy", !c || U.k >= U.size || slot(U.store[1], U.k) == (U.item ? (deep ? U.copied_as : U.item) : 0));
    POST("C14: items are copied exactly once, for deep copies only", !c || U.k >= U.size || U.copies == ((deep && U.item) ? 1u : 0u));
    POST("C14: the original keeps its items", U.k >= U.size || slot(U.store[0], U.k) == U.item);
    POST("C21: an array copy has a store of its own", !c || U.size == 0 || (U.stores == 2 && U.store[0]->bytes != U.store[1]->bytes));
    POST("C14: an incomplete copy is released with exactly the items copied so far", U.ddestroys == 0 || (!c && U.ddestroys == 1 && U.destroyed_deep == deep && (U.k >= U.size || U.dk == ((deep ? U.copies : U.dk) ? (deep ? U.copied_as : U.item) : 0))));
    POST("C25: array_copy leaks nothing", G.live == l0 + (c ? N_ARR : 0));
    REACH("deep copy", c && deep && U.size > 1 && U.item); REACH("shallow copy", c && !deep && U.item); REACH_OPT("failed halfway", !c && U.ddestroys && U.dk);
#endif
#ifdef H_DESTROY
    wickr_array_t *a = mk_array(); bool deep = nd_bool();
    l0 = G.live;
    wickr_array_destroy(NULL, deep); { wickr_array_t *z = NULL; wickr_array_destroy(&z, deep); }
    wickr_array_destroy(&a, deep);
    POST("C14: every item is released exactly once when asked, never otherwise", U.k >= U.size || U.destroys == ((deep && U.item) ? 1u : 0u));
    POST("C25: array_destroy releases everything", !a && G.live == l0 - N_ARR);
    REACH("destroyed with items", deep && U.destroys); REACH_OPT("destroyed without items", !deep && U.item);
#endif
}
