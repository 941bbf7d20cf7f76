/* random clauses and orderings over the world, with finite interpretations */
#ifndef CLAUSE_H
#define CLAUSE_H
#include "world.h"
#include "model.h"

static OCB_p cl_ocb;
static FunCode cl_prop[2];
static int cl_wide = 1;

static void cl_init(void)
{
   w_init();
   for(int i = 0; i < 2; i++) { cl_prop[i] = SigInsertId(h_sig, i ? "r" : "o", 0, false); SigDeclareType(h_sig, cl_prop[i], h_types->bool_type); }
}
static Term_p cl_const(int i)
{
   Term_p t = TermTopAlloc(cl_prop[i], 0); t->type = h_types->bool_type; TermCellSetProp(t, TPPredPos);
   return TBTermTopInsert(h_tb, t);
}
static Term_p cl_atom(int d, int lo, int nv) { return rnd(8) == 0 ? cl_const(rnd(2)) : w_mk(d ? d : 1, 2, lo, nv); }
static Eqn_p cl_lit(int d, int lo, int nv)
{
   int pos = rnd(2), k = rnd(20);
   if(k == 0) return EqnAlloc(h_tb->true_term, h_tb->true_term, h_tb, pos);
   if(k < 11) return EqnAlloc(cl_atom(d, lo, nv), rnd(16) ? h_tb->true_term : h_tb->false_term, h_tb, pos);
   int s = rnd(4) == 0;
   Term_p l = w_mk(rnd(d + 1), s, lo, nv), r = rnd(8) ? w_mk(rnd(d + 1), s, lo, nv) : rnd(2) ? l : w_mutate(l, s, lo, nv);
   return EqnAlloc(l, r, h_tb, pos);
}
/* n literals, some of them repetitions, complements or variations of others */
static Eqn_p cl_lits(int n, int d, int lo, int nv)
{
   Eqn_p arr[64], res = NULL;
   for(int i = 0; i < n; i++)
   {
      if(i && rnd(4) == 0)
      {
         Eqn_p o = arr[rnd(i)];
         int k = rnd(4);
         Term_p l = o->lterm, r = o->rterm;
         bool pos = EqnIsPositive(o);
         if(k == 1) { Term_p x = l; l = r; r = x; }
         if(k == 2) pos = !pos;
         if(k == 3 && !(r == h_tb->true_term) && l->type != h_types->bool_type) l = w_mutate(l, l->type == w_sort[1], lo, nv);
         arr[i] = EqnAlloc(l, r, h_tb, pos);
      }
      else arr[i] = cl_lit(d, lo, nv);
      arr[i]->next = NULL;
   }
   for(int i = n - 1; i >= 0; i--) { arr[i]->next = res; res = arr[i]; }
   return res;
}
static Clause_p cl_mk(int n, int d, int lo, int nv) { return ClauseAlloc(cl_lits(n, d, lo, nv)); }

/* a random ordering: kind & 1 by weights, kind & 2 total, kind & 4 LPO4 instead of KBO6 */
static void cl_order(int kind)
{
   static FunCode fs[WSYM + 2]; static int ar[WSYM + 2];
   int n = 0;
   for(int i = 0; i < WSYM; i++) { fs[n] = w_sym[i].f; ar[n++] = w_sym[i].ar; }
   for(int i = 0; i < 2; i++) { fs[n] = cl_prop[i]; ar[n++] = 0; }
   if(cl_ocb) OCBFree(cl_ocb);
   int use_w = kind & 1;
   cl_ocb = OCBAlloc(kind & 4 ? LPO4 : KBO6, use_w, h_sig, 0);
   int perm[32], z = -1;
   for(int i = 0; i < n; i++) perm[i] = i;
   for(int i = n - 1; i > 0; i--) { int j = rnd(i + 1); int x = perm[i]; perm[i] = perm[j]; perm[j] = x; }
   if(!(kind & 4))
   {
      cl_ocb->var_weight = 1 + rnd(2);
      for(long f = 1; f <= cl_ocb->sig_size; f++) *OCBFunWeightPos(cl_ocb, f) = 1;
      for(int i = 0; i < n; i++)
      {
         long w = ar[i] == 0 ? cl_ocb->var_weight + rnd(3) : 1 + rnd(3);
         if(i == perm[n - 1] && ar[i] == 1 && rnd(2)) { w = 0; z = i; }
         *OCBFunWeightPos(cl_ocb, fs[i]) = w;
      }
   }
   if(use_w) { for(long f = 1; f <= cl_ocb->sig_size; f++) cl_ocb->prec_weights[f] = f == SIG_TRUE_CODE ? -1000 : 0; for(int i = 0; i < n; i++) cl_ocb->prec_weights[fs[perm[i]]] = 10 + i; }
   else for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) if((kind & 2) || (z >= 0 && perm[i] == z) || rnd(3)) OCBPrecedenceAddTuple(cl_ocb, fs[perm[i]], fs[perm[j]], to_greater);
}

/* a plain copy of a literal list */
typedef struct { Node *l, *r; int pos; Eqn_p cell; EqnProperties p; } PL;
static int pl_of(Eqn_p l, PL *x) { int n = 0; for(; l && n < 64; l = l->next) { x[n].l = tree(l->lterm); x[n].r = tree(l->rterm); x[n].pos = !!EqnIsPositive(l); x[n].p = l->properties; x[n++].cell = l; } return n; }
static int pl_inst(Eqn_p l, PL *x) { int n = 0; for(; l && n < 64; l = l->next) { x[n].l = inst(l->lterm, 0); x[n].r = inst(l->rterm, 0); if(!x[n].l || !x[n].r) return -1; x[n].pos = !!EqnIsPositive(l); x[n++].cell = l; } return n; }
static int pl_same(PL *a, PL *b) { return a->pos == b->pos && ((treesame(a->l, b->l) && treesame(a->r, b->r)) || (treesame(a->l, b->r) && treesame(a->r, b->l))); }

static void cl_put(Eqn_p l) { if(!l) printf("<empty>"); m_put(l); }
#endif
