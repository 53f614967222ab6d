#include <stdint.h>
void v_loop_sha(void *c, void *hash);
void v_loop_enc(int *outl, void *ctx);
void v_loop_dec(int *outl, void *ctx);
