#include "stream_key.h"
void v_loop_evolve(wickr_stream_key_t **pk, uint64_t *pe, uint64_t seq_evo);
