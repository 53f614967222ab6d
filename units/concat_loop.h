#include <stdint.h>
#include "buffer.h"
void v_loop_count(wickr_buffer_t **b, uint8_t *i, uint8_t n, size_t *count);
void v_loop_merge(wickr_buffer_t **b, uint8_t *i, uint8_t n, size_t *count, wickr_buffer_t *merged);
