/* takes the address of header functions, so that clang emits them */
#include <clb_pstacks.h>
#include <clb_pqueue.h>
#include <clb_pdarrays.h>
void *ecv_probe_basics[] = {
   PStackAlloc, PStackVarAlloc, PStackFree, PStackCopy, PStackReset, PStackPushInt, PStackPushP, PStackPop, PStackDiscardTop,
   PStackTop, PStackBelowTop, PStackElement, PStackElementRef, PStackFindP,
   PQueueAlloc, PQueueFree, PQueueReset, PQueueStoreInt, PQueueStoreP, PQueueBuryInt, PQueueBuryP, PQueueGetNext, PQueueGetLast,
   PQueueLook, PQueueLookLast, PDArrayElementRef
};
