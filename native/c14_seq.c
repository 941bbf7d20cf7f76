/* C14: random operation histories on stacks, queues and growable arrays against plain reference arrays */
#include "h.h"
#include <clb_pstacks.h>
#include <clb_pqueue.h>
#include <clb_pdarrays.h>

#define N 40000
static long ref[N], lo, hi, nextv;      /* live elements ref[lo..hi-1] */
static char hist[300];
static void fail(char *what, long got, long want)
{
   FAIL_BEGIN;
   printf("property=C14 %s (%s): got %ld, expected %ld", hist, what, got, want);
   FAIL_END;
}
#define EXP(what, got, want) do { long g_ = (long)(got), w_ = (long)(want); h_checked++; if(g_ != w_) fail(what, g_, w_); } while(0)

static int cmpl(const void *a, const void *b) { long x = ((IntOrP*)a)->i_val, y = ((IntOrP*)b)->i_val; return x < y ? -1 : x > y; }

static void stacks(long steps)
{
   PStack_p st = rnd(2) ? PStackAlloc() : PStackVarAlloc(1 + rnd(rnd(2) ? 4 : 300));
   long n = 0, up = 1 + rnd(3), nops = steps;
   snprintf(hist, sizeof(hist), "stack history");
   for(long k = 0; k < nops && n < N - 4; k++)
   {
      if(k % 700 == 0) up = rnd(4);
      unsigned long op = rnd(12);
      snprintf(hist, sizeof(hist), "stack history, %ld elements, operation %lu", n, op);
      if(op <= 2 + 2 * up) { if(rnd(2)) PStackPushInt(st, ref[n] = ++nextv); else PStackPushP(st, (void*)(ref[n] = ++nextv)); n++; }
      else if(op == 7 + (up == 3) && n) { n--; EXP("pop", PStackPopInt(st), ref[n]); }
      else if(op >= 8 && op <= 9 && n) { n--; if(rnd(2)) EXP("pop", PStackPopP(st), ref[n]); else PStackDiscardTop(st); }
      else if(op == 10 && n) { long i = rnd(n); EXP("element", PStackElementInt(st, i), ref[i]); EXP("top", PStackTopInt(st), ref[n - 1]); EXP("top address", PStackTopAddr(st)->i_val, ref[n - 1]);
                               if(n > 1) EXP("below top", PStackBelowTopInt(st), ref[n - 2]); EXP("element reference", PStackElementRef(st, i)->i_val, ref[i]); }
      else if(op == 11 && n)
      {
         int w = rnd(6);
         if(w == 0) { long i = rnd(n); PStackDiscardElement(st, i); n--; if(i != n) ref[i] = ref[n]; }
         else if(w == 1) { long i = rnd(n); PStackAssignInt(st, i, ref[i] = ++nextv); }
         else if(w == 2) { PStack_p c = PStackCopy(st); EXP("size of a copy", PStackGetSP(c), n); for(long i = 0; i < n; i++) if(PStackElementInt(c, i) != ref[i]) { EXP("element of a copy", PStackElementInt(c, i), ref[i]); break; }
                           PStackPushInt(c, -1); PStackDiscardTop(c); if(n) { PStackAssignInt(c, 0, -77); EXP("original after a change to its copy", PStackElementInt(st, 0), ref[0]); } PStackFree(c); }
         else if(w == 3 && n < 3000) { PStack_p c = PStackAlloc(); int m = rnd(200); for(int i = 0; i < m; i++) { PStackPushInt(c, ref[n + i] = ++nextv); } PStackPushStack(st, c); n += m;
                           EXP("source of an append", PStackGetSP(c), m); PStackFree(c); }
         else if(w == 4 && rnd(20) == 0) { PStackReset(st); n = 0; }
      }
      EXP("number of elements", PStackGetSP(st), n);
      EXP("emptiness", !!PStackEmpty(st), n == 0);
      if(k % 97 == 0) for(long i = 0; i < n; i++) if(PStackElementInt(st, i) != ref[i]) { EXP("content", PStackElementInt(st, i), ref[i]); break; }
   }
   while(n) { n--; EXP("pop", PStackPopInt(st), ref[n]); }
   PStackFree(st);
}

static void queues(long steps)
{
   PQueue_p q = PQueueAlloc();
   long up = 1;
   lo = hi = N / 2;
   for(long k = 0; k < steps && hi < N - 2 && lo > 2; k++)
   {
      if(k % 500 == 0) up = rnd(4);
      unsigned long op = rnd(14);
      long n = hi - lo;
      snprintf(hist, sizeof(hist), "queue history, %ld elements, operation %lu", n, op);
      if(op <= 1 + up) { if(rnd(2)) PQueueStoreInt(q, ref[hi++] = ++nextv); else PQueueStoreP(q, (void*)(ref[hi++] = ++nextv)); }
      else if(op == 5) { if(rnd(2)) PQueueBuryInt(q, ref[--lo] = ++nextv); else PQueueBuryP(q, (void*)(ref[--lo] = ++nextv)); }
      else if(op >= 6 && op <= 8 && n) EXP("next", rnd(2) ? PQueueGetNextInt(q) : (long)PQueueGetNextP(q), ref[lo++]);
      else if(op == 9 && n) EXP("last", PQueueGetLastInt(q), ref[--hi]);
      else if(op == 10 && n) { EXP("look", PQueueLookInt(q), ref[lo]); EXP("look last", PQueueLookLastInt(q), ref[hi - 1]); }
      else if(op == 11)
      {
         long i = PQueueTailIndex(q), j = lo, c = 0;
         if(n == 0) EXP("index of an empty queue", i, -1);
         while(i != -1 && j < hi && c++ <= n) { if(PQueueElementInt(q, i) != ref[j]) { EXP("element by index", PQueueElementInt(q, i), ref[j]); break; } j++; i = PQueueIncIndex(q, i); }
         EXP("end of the traversal", i, -1); EXP("elements traversed", j, hi);
      }
      else if(op == 12 && rnd(100) == 0) { PQueueReset(q); lo = hi = N / 2; }
      EXP("number of elements", PQueueCardinality(q), hi - lo);
      EXP("emptiness", !!PQueueEmpty(q), hi == lo);
   }
   while(hi > lo) EXP("next", PQueueGetNextInt(q), ref[lo++]);
   EXP("emptiness", !!PQueueEmpty(q), 1);
   PQueueFree(q);
}

/* growth with the oldest element in a chosen slot, by storing at the end or burying at the front */
static void queue_growth(void)
{
   for(int front = 0; front < 2; front++)
      for(long off = 0; off < PQUEUE_DEFAULT_SIZE; off += (off < 3 || off > PQUEUE_DEFAULT_SIZE - 4) ? 1 : 1 + rnd(9))
      {
         PQueue_p q = PQueueAlloc();
         long total = PQUEUE_DEFAULT_SIZE - 2 + rnd(4 * PQUEUE_DEFAULT_SIZE);
         snprintf(hist, sizeof(hist), "queue with %ld elements stored and taken, then %ld elements %s", off, total, front ? "put in front" : "stored");
         for(long i = 0; i < off; i++) { PQueueStoreInt(q, 7 + i); EXP("next", PQueueGetNextInt(q), 7 + i); }
         for(long i = 0; i < total; i++) { if(front) PQueueBuryInt(q, 1000 + i); else PQueueStoreInt(q, 1000 + i); }
         EXP("number of elements", PQueueCardinality(q), total);
         for(long i = 0; i < total; i++) { long v = front ? PQueueGetLastInt(q) : PQueueGetNextInt(q); if(v != 1000 + i) { EXP("element", v, 1000 + i); break; } }
         EXP("emptiness", !!PQueueEmpty(q), 1);
         PQueueFree(q);
      }
}

#define AM 5000
static void arrays(long steps)
{
   int ints = rnd(2);
   long grow = rnd(2) ? GROW_EXPONENTIAL : 1 + rnd(60), init = 1 + rnd(50), used = 0;
   PDArray_p a = ints ? PDIntArrayAlloc(init, grow) : PDArrayAlloc(init, grow);
   memset(ref, 0, sizeof(long) * (AM + 10));
   long lim = 10 + rnd(AM - 10);
   for(long k = 0; k < steps; k++)
   {
      unsigned long op = rnd(12); long i = rnd(4) ? rnd(lim < 60 ? lim : 60) : rnd(lim);
      snprintf(hist, sizeof(hist), "growable array history (%s, initial size %ld, growth %ld), operation %lu, index %ld", ints ? "integers" : "pointers", init, grow, op, i);
      if(op <= 3) { ref[i] = ++nextv; if(ints) PDArrayAssignInt(a, i, ref[i]); else PDArrayAssignP(a, i, (void*)ref[i]); }
      else if(op <= 6) { if(ints) EXP("element", PDArrayElementInt(a, i), ref[i]); else EXP("element", PDArrayElementP(a, i), ref[i]); }
      else if(op == 7) { if(i >= a->size) continue; if(ints) PDArrayElementDeleteInt(a, i); else PDArrayElementDeleteP(a, i); ref[i] = 0; }
      else if(op == 8 && ints) { EXP("increment", PDArrayElementIncInt(a, i, 5), ref[i] + 5); ref[i] += 5; }
      else if(op == 9 && !ints) { long m = 0, f; for(long j = 0; j < AM; j++) m += ref[j] != 0; EXP("members", PDArrayMembers(a), m); for(f = AM; f && !ref[f - 1]; f--); { EXP("first unused", PDArrayFirstUnused(a), f); } }
      else if(op == 10 && !ints) { long f; for(f = AM; f && !ref[f - 1]; f--); if(f >= lim) continue; ref[f] = ++nextv; EXP("place of a stored value", PDArrayStoreP(a, (void*)ref[f]), f); }
      else if(op == 11 && rnd(10) == 0)
      {
         PDArray_p c = PDArrayCopy(a);
         for(long j = 0; j < a->size && j < AM; j++) if(c->array[j].i_val != ref[j]) { EXP("element of a copy", c->array[j].i_val, ref[j]); break; }
         PDArrayAssignInt(c, 0, -9); EXP("original after a change to its copy", a->array[0].i_val, ref[0]);
         if(ints) { long l = rnd(a->size); PDArrayAssignInt(c, 0, ref[0]); PDArrayAdd(a, c, l); for(long j = 0; j < l; j++) ref[j] *= 2; }
         PDArrayFree(c);
      }
   }
   for(long j = 0; j < lim; j++) if(PDArrayElementInt(a, j) != ref[j]) { EXP("content", PDArrayElementInt(a, j), ref[j]); break; }
   PDArrayFree(a);
}

int main(int argc, char **argv)
{
   long rounds = argc > 1 ? atol(argv[1]) : 120, steps = argc > 2 ? atol(argv[2]) : 4000;
   h_init();
   queue_growth();
   for(long r = 0; r < rounds; r++) { stacks(steps / (1 + rnd(8))); queues(steps / (1 + rnd(8))); arrays(steps / (2 + rnd(8))); }
   return h_done();
}
