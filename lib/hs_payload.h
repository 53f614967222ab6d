#ifdef V_PAYLOAD_STRUCT
/* cbmc loses the pointer in the second member of the payload union of a handshake message: for the functions that only
   read messages, the members are laid out apart and the unit stores the same pointer in both */
#define union struct
#include "stream.pb-c.h"
#undef union
#endif
