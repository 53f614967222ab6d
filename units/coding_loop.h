#include <stdint.h>
#include <stddef.h>
#include "buffer.h"
void v_loop_enc64(char **p, const unsigned char **raw, size_t *len, wickr_buffer_t *r);
void v_loop_dec64(int *i, int *j, const char **p, size_t *left, int *cur, wickr_buffer_t **r);
void v_loop_hexenc(unsigned int *i, wickr_buffer_t *r);
void v_loop_hexdec(size_t *i, unsigned char **index, size_t length, wickr_buffer_t *r);
void v_loop_enc32(size_t *j, unsigned char *out);
void v_loop_map32(int *i, unsigned char *io, size_t len);
void v_loop_unmap32(size_t *i, unsigned char *io, size_t len);
void v_loop_dec32(size_t *j, const unsigned char *in, unsigned char *out);
