#include <stdint.h>
#include <stddef.h>
#include "key_exchange.h"
#include "key_exchange.pb-c.h"
void v_loop_find(uint32_t *i, const wickr_key_exchange_set_t *s);
void v_loop_parse(uint32_t *i, wickr_array_t **a, const Wickr__Proto__KeyExchangeSet *m);
void v_loop_ser(uint32_t *i, Wickr__Proto__KeyExchangeSet__Exchange **x, uint32_t n);
void v_loop_free(size_t *i, Wickr__Proto__KeyExchangeSet__Exchange **x, size_t n);
