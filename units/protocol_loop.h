#include <stdint.h>
#include "array.h"
void v_loop_validate(int *i, const wickr_array_t *a, uint32_t n);
void v_loop_wrap(int *i, wickr_array_t **a, uint32_t n);
