#include <stddef.h>
void v_loop_zero(volatile unsigned char *b, size_t *i, size_t len);
