/* C02: the lexicographic path orderings of the current tree against the textbook definition over expanded terms */
#include "h.h"

typedef struct node { long f; int n; struct node *a[4]; } Node;
static Node pool[1 << 16]; static int npool;

static Node *expand(Term_p t, int d)
{
   while(d && t->binding) { t = t->binding; if(d == 1) d = 0; }
   Node *r = &pool[npool++];
   r->f = t->f_code; r->n = t->arity;
   for(int i = 0; i < t->arity; i++) r->a[i] = expand(t->args[i], d);
   return r;
}

static OCB_p ocb;
static int NSYM; static long fs[32];
static long pw[64]; static int prec[64][64]; static int use_w;

static int same(Node *s, Node *t)
{
   if(s->f != t->f || s->n != t->n) return 0;
   for(int i = 0; i < s->n; i++) if(!same(s->a[i], t->a[i])) return 0;
   return 1;
}
static int symgt(long f, long g)
{
   if(f == g) return 0;
   if(g == SIG_TRUE_CODE) return 1;
   if(f == SIG_TRUE_CODE) return 0;
   return use_w ? pw[f] > pw[g] : prec[f][g];
}
static int occurs(long v, Node *t)
{
   if(t->f == v) return 1;
   for(int i = 0; i < t->n; i++) if(occurs(v, t->a[i])) return 1;
   return 0;
}
/* the textbook definition: (1) an argument is at least t, or (2) s is above all arguments of t and the symbol is larger or the arguments are lexicographically larger */
#define MM 1200
static signed char memo[MM][MM];
static int gt0(Node *s, Node *t);
static int gt(Node *s, Node *t)
{
   long i = s - pool, j = t - pool;
   if(i >= MM || j >= MM) return gt0(s, t);
   if(memo[i][j] == 0) memo[i][j] = gt0(s, t) ? 1 : -1;
   return memo[i][j] > 0;
}
static void forget(void) { for(int i = 0; i < MM && i < npool; i++) memset(memo[i], 0, npool < MM ? npool : MM); }
static int gt0(Node *s, Node *t)
{
   if(s->f < 0) return 0;
   if(t->f < 0) return occurs(t->f, s);
   for(int i = 0; i < s->n; i++) if(same(s->a[i], t) || gt(s->a[i], t)) return 1;
   if(s->f == t->f)
   {
      int i = 0;
      while(i < s->n && same(s->a[i], t->a[i])) i++;
      if(i == s->n || !gt(s->a[i], t->a[i])) return 0;
   }
   else if(!symgt(s->f, t->f)) return 0;
   for(int i = 0; i < t->n; i++) if(!gt(s, t->a[i])) return 0;
   return 1;
}

static TermOrdering kinds[] = {LPO4, LPO, LPO4Copy, LPOCopy};
static char *oname[] = {"LPO4", "LPO", "LPO4Copy", "LPOCopy"};
static char *nm[] = {"uncomparable?", "uncomparable", "equal", "greater", "lesser"};
static char *wit_ctx = "";

static void check(Term_p s, Term_p t, int ds, int dt)
{
   npool = 0;
   Node *ns = expand(s, ds), *nt = expand(t, dt);
   forget();
   CompareResult ref = same(ns, nt) ? to_equal : gt(ns, nt) ? to_greater : gt(nt, ns) ? to_lesser : to_uncomparable;
   CompareResult got = TOCompare(ocb, s, t, ds, dt);
   bool g = TOGreater(ocb, s, t, ds, dt);
   h_checked++;
   if(got != ref || g != (ref == to_greater))
   {
      FAIL_BEGIN;
      printf("property=C02 %s compare ", oname[ocb->type == LPO4 ? 0 : ocb->type == LPO ? 1 : ocb->type == LPO4Copy ? 2 : 3]); h_put(stdout, s, ds); printf(" with "); h_put(stdout, t, dt);
      printf(" : the ordering says %s (greater-test %d), the lexicographic path ordering says %s; %s;", nm[got], g, nm[ref],
             use_w ? "precedence by weight" : "precedence by matrix");
      printf(" precedence:");
      for(int i = 0; i < NSYM; i++) for(int j = 0; j < NSYM; j++) if(symgt(fs[i], fs[j])) printf(" %s>%s", SigFindName(h_sig, fs[i]), SigFindName(h_sig, fs[j]));
      FAIL_END;
   }
}

static Term_p var[80];
static int ar[32];
static Term_p mk(int depth, int nv)
{
   if(depth == 0 || rnd(5) == 0)
   {
      if(nv && rnd(2)) return var[rnd(nv)];
   }
   for(;;)
   {
      int k = rnd(NSYM);
      if(depth == 0 && ar[k]) continue;
      Term_p t = TermDefaultCellAlloc();
      TermTopFree(t);
      t = TermTopAlloc(fs[k], ar[k]);
      t->type = var[0]->type;
      for(int i = 0; i < ar[k]; i++) t->args[i] = mk(depth - 1, nv);
      return TBTermTopInsert(h_tb, t);
   }
}

static void setup(int kind)
{
   if(ocb) OCBFree(ocb);
   use_w = kind & 1;
   ocb = OCBAlloc(kinds[kind >> 2], use_w, h_sig, 0);
   for(long f = 1; f <= h_sig->f_count; f++) { pw[f] = 0; for(long g = 1; g <= h_sig->f_count; g++) prec[f][g] = 0; }
   /* precedence: random total (weights) or random partial order */
   int perm[32];
   for(int i = 0; i < NSYM; i++) perm[i] = i;
   for(int i = NSYM - 1; i > 0; i--) { int j = rnd(i + 1); int x = perm[i]; perm[i] = perm[j]; perm[j] = x; }
   for(int i = 0; i < NSYM; i++) pw[fs[perm[i]]] = i + 10;
   if(use_w) { for(long f = 1; f <= ocb->sig_size; f++) ocb->prec_weights[f] = pw[f]; }
   else
   {
      for(int i = 0; i < NSYM; i++) for(int j = 0; j < i; j++)
         if((kind & 2) || rnd(3))
            OCBPrecedenceAddTuple(ocb, fs[perm[i]], fs[perm[j]], to_greater);
      for(long f = 1; f <= ocb->sig_size; f++) for(long g = 1; g <= ocb->sig_size; g++)
         prec[f][g] = f != g && *OCBFunComparePos(ocb, f, g) == to_greater;
   }
}

int main(int argc, char **argv)
{
   long rounds = argc > 1 ? atol(argv[1]) : 60, per = argc > 2 ? atol(argv[2]) : 4000;
   char *def[] = {"a", "b", "c", "u(a)", "v(a)", "f(a,b)", "g(a,b)", "h(a,b,c)"};
   h_init();
   for(int i = 0; i < 8; i++) { Term_p t = h_term(def[i]); fs[i] = t->f_code; ar[i] = t->arity; }
   NSYM = 8;
   for(int i = 0; i < 80; i++) { char b[16]; sprintf(b, "X%d", i); var[i] = h_term(b); }
   Term_p small[4000]; int ns = 0;
   /* all terms up to depth 2 over a reduced signature, all pairs */
   { Term_p l0[64]; int n0 = 0;
     l0[n0++] = var[0]; l0[n0++] = var[1]; l0[n0++] = h_term("a"); l0[n0++] = h_term("b");
     for(int i = 0; i < n0; i++) small[ns++] = l0[i];
     for(int k = 3; k < 6; k++) for(int i = 0; i < n0; i++)
     { for(int j = 0; j < (ar[k] > 1 ? n0 : 1); j++)
       { Term_p t = TermTopAlloc(fs[k], ar[k]); t->type = var[0]->type; t->args[0] = l0[i]; if(ar[k] > 1) t->args[1] = l0[j]; small[ns++] = TBTermTopInsert(h_tb, t); } }
     int n1 = ns;
     for(int i = 4; i < n1; i++) { Term_p t = TermTopAlloc(fs[3], 1); t->type = var[0]->type; t->args[0] = small[i]; small[ns++] = TBTermTopInsert(h_tb, t); }
     for(int i = 4; i < n1; i++) for(int j = 0; j < 4; j++) for(int o = 0; o < 2; o++)
     { Term_p t = TermTopAlloc(fs[5], 2); t->type = var[0]->type; t->args[o] = small[i]; t->args[1 - o] = l0[j]; small[ns++] = TBTermTopInsert(h_tb, t); }
   }
   for(int k = 0; k < 8; k++) { setup(k); for(int i = 0; i < ns; i++) for(int j = 0; j < ns; j++) check(small[i], small[j], 0, 0); }
   for(long r = 0; r < rounds; r++)
   {
      setup(r % 4 + 4 * (r & 8 ? rnd(4) : 0));
      for(int i = 0; i < 80; i++) var[i]->binding = NULL;
      int nv = r % 3 == 0 ? 3 : r % 3 == 1 ? 6 : 80;
      if(r & 4)
      {  /* acyclic bindings: variable i is bound to a term over the later ones */
         for(int i = 0; i < nv - 1; i++) if(rnd(2))
         { Term_p sv[80]; memcpy(sv, var, sizeof(sv)); memmove(var, var + i + 1, (79 - i) * sizeof(Term_p));
           Term_p b = mk(1, nv - i - 1); memcpy(var, sv, sizeof(sv)); var[i]->binding = b; }
      }
      for(long k = 0; k < per; k++)
      {
         int dep = 1 + rnd(4);
         Term_p s = mk(dep, nv), t = rnd(3) ? mk(dep, nv) : s;
         if(t == s && s->arity) { t = TermTopCopyWithoutArgs(s); for(int i = 0; i < s->arity; i++) t->args[i] = rnd(2) ? s->args[i] : mk(dep - 1, nv); t = TBTermTopInsert(h_tb, t); }
         npool = 0;
         int ds = r & 4 ? rnd(3) : 0, dt = r & 4 ? rnd(3) : 0;
         expand(s, ds); if(npool > 600) continue;
         npool = 0; expand(t, dt); if(npool > 600) continue;
         check(s, t, ds, dt);
      }
   }
   /* deep terms: below the limit the answer is exact, beyond it never wrong */
   for(long r = 0; r < 40; r++)
   {
      setup(r % 4);
      for(int i = 0; i < 80; i++) var[i]->binding = NULL;
      long lim = LPORecursionDepthLimit;
      int n = 20 + rnd(60);
      Term_p s = var[0], t = rnd(2) ? var[0] : h_term("a");
      for(int i = 0; i < n; i++)
      {
         int k = 3 + rnd(3);
         Term_p x = TermTopAlloc(fs[k], ar[k]); x->type = var[0]->type; x->args[0] = s; if(ar[k] > 1) { x->args[1] = rnd(2) ? h_term("b") : var[0]; } s = TBTermTopInsert(h_tb, x);
         if(rnd(4) == 0) k = 3 + rnd(3);
         if(rnd(8) == 0) continue;
         x = TermTopAlloc(fs[k], ar[k]); x->type = var[0]->type; x->args[0] = t; if(ar[k] > 1) { x->args[1] = rnd(2) ? h_term("b") : var[0]; } t = TBTermTopInsert(h_tb, x);
      }
      check(s, t, 0, 0); check(t, s, 0, 0);
      LPORecursionDepthLimit = rnd(n);
      npool = 0;
      Node *ns2 = expand(s, 0), *nt = expand(t, 0);
      forget();
      CompareResult got = TOCompare(ocb, s, t, 0, 0);
      if((got == to_equal && !same(ns2, nt)) || (got == to_greater && !gt(ns2, nt)) || (got == to_lesser && !gt(nt, ns2)))
      { FAIL_BEGIN; printf("property=C02 with recursion limit %ld, compare ", LPORecursionDepthLimit); h_put(stdout, s, 0); printf(" with "); h_put(stdout, t, 0); printf(" : wrong answer %s", nm[got]); FAIL_END; }
      /* the limit that is just enough, also after earlier comparisons ran into the limit */
      LPORecursionDepthLimit = TermDepth(s) + TermDepth(t);
      check(s, t, 0, 0); check(t, s, 0, 0);
      LPORecursionDepthLimit = lim;
   }
   return h_done();
}
