/* loop contract of the search for the first difference of two fingerprints (see loopc.h) */
#ifndef FINGERPRINT_LOOP_H
#define FINGERPRINT_LOOP_H
#include "buffer.h"
#include "fingerprint.h"
void v_loop_order(unsigned *i, wickr_buffer_t **concat_buffer, const wickr_fingerprint_t *f1, const wickr_fingerprint_t *f2);
#endif
