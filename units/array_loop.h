#include <stdint.h>
#include <stdbool.h>
#include "array.h"
void v_loop_copy(wickr_array_t **copy, unsigned *i, const wickr_array_t *src, bool deep);
void v_loop_destroy(wickr_array_t *a, unsigned *i);
