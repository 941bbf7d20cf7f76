/* C01: KBO6 of the current tree against a textbook KBO over expanded terms */
#include "h.h"

typedef struct node { long f; int n; struct node *a[4]; } Node;
static Node pool[1 << 16]; static int npool;

static Node *expand(Term_p t, int d)
{
   while(d && t->binding) { t = t->binding; if(d == 1) d = 0; }
   Node *r = &pool[npool++];
   r->f = t->f_code; r->n = t->arity;
   for(int i = 0; i < t->arity; i++) r->a[i] = expand(t->args[i], d);
   return r;
}

static OCB_p ocb;
static int NSYM; static long fs[32];
static long wt[64]; static long pw[64]; static int prec[64][64]; static int use_w;

static long weight(Node *t)
{
   long r = t->f < 0 ? ocb->var_weight : wt[t->f];
   for(int i = 0; i < t->n; i++) r += weight(t->a[i]);
   return r;
}
static void count(Node *t, int s, int *c)
{
   if(t->f < 0) c[-t->f] += s;
   for(int i = 0; i < t->n; i++) count(t->a[i], s, c);
}
static int same(Node *s, Node *t)
{
   if(s->f != t->f || s->n != t->n) return 0;
   for(int i = 0; i < s->n; i++) if(!same(s->a[i], t->a[i])) return 0;
   return 1;
}
static int symgt(long f, long g)
{
   if(f == g) return 0;
   if(g == SIG_TRUE_CODE) return 1;
   if(f == SIG_TRUE_CODE) return 0;
   return use_w ? pw[f] > pw[g] : prec[f][g];
}
static int gt(Node *s, Node *t)
{
   int c[4096];
   if(s->f < 0) return 0;
   memset(c, 0, sizeof(c)); count(s, 1, c); count(t, -1, c);
   for(int i = 0; i < 4096; i++) if(c[i] < 0) return 0;
   if(t->f < 0) return c[-t->f] >= 0;
   long ws = weight(s), w2 = weight(t);
   if(ws != w2) return ws > w2;
   if(s->f != t->f) return symgt(s->f, t->f);
   for(int i = 0; i < s->n; i++)
   {
      if(same(s->a[i], t->a[i])) continue;
      return gt(s->a[i], t->a[i]);
   }
   return 0;
}

static char *nm[] = {"uncomparable?", "uncomparable", "equal", "greater", "lesser"};
static char *wit_ctx = "";

static void check(Term_p s, Term_p t, int ds, int dt)
{
   npool = 0;
   Node *ns = expand(s, ds), *nt = expand(t, dt);
   CompareResult ref = same(ns, nt) ? to_equal : gt(ns, nt) ? to_greater : gt(nt, ns) ? to_lesser : to_uncomparable;
   CompareResult got = TOCompare(ocb, s, t, ds, dt);
   bool g = TOGreater(ocb, s, t, ds, dt);
   h_checked++;
   if(got != ref || g != (ref == to_greater))
   {
      FAIL_BEGIN;
      printf("property=C01 compare "); h_put(stdout, s, ds); printf(" with "); h_put(stdout, t, dt);
      printf(" : the ordering says %s (greater-test %d), the Knuth-Bendix ordering says %s; %s weights", nm[got], g, nm[ref],
             use_w ? "precedence by weight" : "precedence by matrix");
      for(int i = 0; i < NSYM; i++) printf(" %s=%ld", SigFindName(h_sig, fs[i]), wt[fs[i]]);
      printf(" precedence:");
      for(int i = 0; i < NSYM; i++) for(int j = 0; j < NSYM; j++) if(symgt(fs[i], fs[j])) printf(" %s>%s", SigFindName(h_sig, fs[i]), SigFindName(h_sig, fs[j]));
      FAIL_END;
   }
}

static Term_p var[80];
static int ar[32];
static Term_p mk(int depth, int nv)
{
   if(depth == 0 || rnd(5) == 0)
   {
      if(nv && rnd(2)) return var[rnd(nv)];
   }
   for(;;)
   {
      int k = rnd(NSYM);
      if(depth == 0 && ar[k]) continue;
      Term_p t = TermDefaultCellAlloc();
      TermTopFree(t);
      t = TermTopAlloc(fs[k], ar[k]);
      t->type = var[0]->type;
      for(int i = 0; i < ar[k]; i++) t->args[i] = mk(depth - 1, nv);
      return TBTermTopInsert(h_tb, t);
   }
}

static void setup(int kind)
{
   if(ocb) OCBFree(ocb);
   use_w = kind & 1;
   ocb = OCBAlloc(KBO6, use_w, h_sig, 0);
   ocb->var_weight = 1 + rnd(2);
   for(long f = 1; f <= h_sig->f_count; f++) { wt[f] = 1; pw[f] = 0; for(long g = 1; g <= h_sig->f_count; g++) prec[f][g] = 0; }
   for(int i = 0; i < NSYM; i++)
   {
      wt[fs[i]] = ar[i] == 0 ? ocb->var_weight + rnd(3) : rnd(4);
      if(ar[i] == 1 && wt[fs[i]] == 0 && rnd(2)) wt[fs[i]] = 1;
   }
   /* precedence: random total (weights) or random partial order */
   int perm[32];
   for(int i = 0; i < NSYM; i++) perm[i] = i;
   for(int i = NSYM - 1; i > 0; i--) { int j = rnd(i + 1); int x = perm[i]; perm[i] = perm[j]; perm[j] = x; }
   /* a unary symbol of weight 0 has to be the largest one */
   int z = -1;
   for(int i = 0; i < NSYM; i++) if(ar[i] == 1 && wt[fs[i]] == 0) { if(z >= 0) wt[fs[i]] = 1; else z = i; }
   if(z >= 0) for(int i = 0; i < NSYM; i++) if(perm[i] == z) { int x = perm[NSYM - 1]; perm[NSYM - 1] = perm[i]; perm[i] = x; }
   for(int i = 0; i < NSYM; i++) pw[fs[perm[i]]] = i + 10;
   for(long f = 1; f <= ocb->sig_size; f++) *OCBFunWeightPos(ocb, f) = wt[f];
   if(use_w) { for(long f = 1; f <= ocb->sig_size; f++) ocb->prec_weights[f] = pw[f]; }
   else
   {
      for(int i = 0; i < NSYM; i++) for(int j = 0; j < i; j++)
         if((kind & 2) || (z >= 0 && perm[i] == z) || rnd(3))
            OCBPrecedenceAddTuple(ocb, fs[perm[i]], fs[perm[j]], to_greater);
      for(long f = 1; f <= ocb->sig_size; f++) for(long g = 1; g <= ocb->sig_size; g++)
         prec[f][g] = f != g && *OCBFunComparePos(ocb, f, g) == to_greater;
   }
}

int main(int argc, char **argv)
{
   long rounds = argc > 1 ? atol(argv[1]) : 60, per = argc > 2 ? atol(argv[2]) : 4000;
   char *def[] = {"a", "b", "c", "u(a)", "v(a)", "f(a,b)", "g(a,b)", "h(a,b,c)"};
   h_init();
   for(int i = 0; i < 8; i++) { Term_p t = h_term(def[i]); fs[i] = t->f_code; ar[i] = t->arity; }
   NSYM = 8;
   for(int i = 0; i < 80; i++) { char b[16]; sprintf(b, "X%d", i); var[i] = h_term(b); }
   Term_p small[4000]; int ns = 0;
   /* all terms up to depth 2 over a reduced signature, all pairs */
   { Term_p l0[64]; int n0 = 0;
     l0[n0++] = var[0]; l0[n0++] = var[1]; l0[n0++] = h_term("a"); l0[n0++] = h_term("b");
     for(int i = 0; i < n0; i++) small[ns++] = l0[i];
     for(int k = 3; k < 6; k++) for(int i = 0; i < n0; i++)
     { for(int j = 0; j < (ar[k] > 1 ? n0 : 1); j++)
       { Term_p t = TermTopAlloc(fs[k], ar[k]); t->type = var[0]->type; t->args[0] = l0[i]; if(ar[k] > 1) t->args[1] = l0[j]; small[ns++] = TBTermTopInsert(h_tb, t); } }
     int n1 = ns;
     for(int i = 4; i < n1; i++) { Term_p t = TermTopAlloc(fs[3], 1); t->type = var[0]->type; t->args[0] = small[i]; small[ns++] = TBTermTopInsert(h_tb, t); }
     for(int i = 4; i < n1; i++) for(int j = 0; j < 4; j++) for(int o = 0; o < 2; o++)
     { Term_p t = TermTopAlloc(fs[5], 2); t->type = var[0]->type; t->args[o] = small[i]; t->args[1 - o] = l0[j]; small[ns++] = TBTermTopInsert(h_tb, t); }
   }
   for(int k = 0; k < 4; k++) { setup(k); for(int i = 0; i < ns; i++) for(int j = 0; j < ns; j++) check(small[i], small[j], 0, 0); }
   for(long r = 0; r < rounds; r++)
   {
      setup(r % 4);
      for(int i = 0; i < 80; i++) var[i]->binding = NULL;
      int nv = r % 3 == 0 ? 3 : r % 3 == 1 ? 6 : 80;
      if(r & 4)
      {  /* acyclic bindings: variable i is bound to a term over the later ones */
         for(int i = 0; i < nv - 1; i++) if(rnd(2))
         { Term_p sv[80]; memcpy(sv, var, sizeof(sv)); memmove(var, var + i + 1, (79 - i) * sizeof(Term_p));
           Term_p b = mk(1, nv - i - 1); memcpy(var, sv, sizeof(sv)); var[i]->binding = b; }
      }
      for(long k = 0; k < per; k++)
      {
         int dep = 1 + rnd(4);
         Term_p s = mk(dep, nv), t = rnd(3) ? mk(dep, nv) : s;
         if(t == s && s->arity) { t = TermTopCopyWithoutArgs(s); for(int i = 0; i < s->arity; i++) t->args[i] = rnd(2) ? s->args[i] : mk(dep - 1, nv); t = TBTermTopInsert(h_tb, t); }
         npool = 0;
         int ds = r & 4 ? rnd(3) : 0, dt = r & 4 ? rnd(3) : 0;
         expand(s, ds); if(npool > 2000) continue;
         npool = 0; expand(t, dt); if(npool > 2000) continue;
         check(s, t, ds, dt);
      }
   }
   return h_done();
}
