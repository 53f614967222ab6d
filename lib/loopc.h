/* Loop contracts. The driver inserts a call to the unit's macro at the head of the named loop of /repo (scratch copy);
   1st visit: the invariant is asserted for the entry state, the loop state is replaced by an arbitrary state satisfying
   it; 2nd visit (after one arbitrary iteration): the invariant is asserted again and the path ends. The verifier's
   unwinding assertion for the loop (bound 2) fails if a third visit were possible, so this is the full induction. */
#ifndef LOOPC_H
#define LOOPC_H
#include "v.h"
#define LOOP_STEP(visits) ((visits)++ == 0)
#define LOOP_END() ASSUME(false)
#endif
