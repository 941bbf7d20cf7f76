/* C16: orientation, comparison of literals and maximal literals against the definitions over the term ordering */
#include "clause.h"

static Eqn_p cur1, cur2; static char *what = "";
static void describe(void) { printf("%s ", what); if(cur1) cl_put(cur1); if(cur2) { printf(" with "); cl_put(cur2); } putbind(); }
static char *nm[] = {"unknown", "uncomparable", "equal", "greater", "lesser", "notgteq", "notleeq"};

static CompareResult tc(Term_p s, Term_p t) { return TOCompare(cl_ocb, s, t, DEREF_ALWAYS, DEREF_ALWAYS); }
/* multiset extension by counting */
static CompareResult ms(Term_p *M, int m, Term_p *N, int n)
{
   int cm[8], cn[8], i, j, eq = 1, gt = 1, lt = 1;
   Term_p all[8]; int na = 0;
   for(i = 0; i < m; i++) all[na++] = M[i];
   for(i = 0; i < n; i++) all[na++] = N[i];
   for(i = 0; i < na; i++)
   {
      cm[i] = cn[i] = 0;
      for(j = 0; j < m; j++) cm[i] += tc(M[j], all[i]) == to_equal;
      for(j = 0; j < n; j++) cn[i] += tc(N[j], all[i]) == to_equal;
      if(cm[i] != cn[i]) eq = 0;
   }
   if(eq) return to_equal;
   for(i = 0; i < na; i++)
   {
      int up = 0, dn = 0;
      for(j = 0; j < na; j++) { CompareResult r = tc(all[j], all[i]); if(r == to_greater) { up |= cm[j] > cn[j]; dn |= cn[j] > cm[j]; } }
      if(cn[i] > cm[i] && !up) gt = 0;
      if(cm[i] > cn[i] && !dn) lt = 0;
   }
   return gt ? to_greater : lt ? to_lesser : to_uncomparable;
}
static CompareResult inv(CompareResult r) { return r == to_greater ? to_lesser : r == to_lesser ? to_greater : r; }
static CompareResult posneg(Eqn_p a, Eqn_p b)
{
   Term_p N[2] = {b->lterm, b->rterm};
   CompareResult x = ms(&a->lterm, 1, N, 2), y = ms(&a->rterm, 1, N, 2);
   return x == to_greater || y == to_greater ? to_greater : x == to_lesser && y == to_lesser ? to_lesser : to_uncomparable;
}
static CompareResult eqs(Eqn_p a, Eqn_p b) { Term_p M[2] = {a->lterm, a->rterm}, N[2] = {b->lterm, b->rterm}; return ms(M, 2, N, 2); }
static CompareResult ref(Eqn_p a, Eqn_p b)
{
   int pa = EqnQueryProp(a, EPPseudoLit), pb = EqnQueryProp(b, EPPseudoLit), sa = EqnIsSelected(a), sb = EqnIsSelected(b);
   if(pa != pb) return pa ? to_lesser : to_greater;
   if(sa != sb) return sa ? to_greater : to_lesser;
   bool x = EqnIsPositive(a), y = EqnIsPositive(b), ea = a->rterm != h_tb->true_term, eb = b->rterm != h_tb->true_term;
   if(sa && x != y) return to_uncomparable;
   if(cl_ocb->lit_cmp == LCNoCmp) return to_uncomparable;
   if(cl_ocb->lit_cmp == LCTFOEqMax || cl_ocb->lit_cmp == LCTFOEqMin)
   {
      if(ea != eb) return (cl_ocb->lit_cmp == LCTFOEqMax) == ea ? to_greater : to_lesser;
      if(!ea && a->lterm->f_code > 0 && b->lterm->f_code > 0) { CompareResult r = OCBFunCompare(cl_ocb, a->lterm->f_code, b->lterm->f_code); if(r == to_greater || r == to_lesser) return r; }
   }
   return x == y ? eqs(a, b) : x ? posneg(a, b) : inv(posneg(b, a));
}
static void bad(char *msg, CompareResult got, CompareResult want) { FAIL_BEGIN; printf("property=C16 %s: got %s, expected %s: ", msg, nm[got], nm[want]); describe(); FAIL_END; }
static void say(char *msg) { FAIL_BEGIN; printf("property=C16 %s: ", msg); describe(); FAIL_END; }

static void orient(Eqn_p e)
{
   Term_p l = e->lterm, r = e->rterm;
   EqnProperties p = e->properties;
   CompareResult c = l == r ? to_equal : l == h_tb->true_term ? to_lesser : r == h_tb->true_term ? to_greater : tc(l, r);
   cur1 = e; cur2 = NULL; what = "orient";
   bool swapped = EqnOrient(cl_ocb, e);
   h_checked++;
   int sw = e->lterm == r && e->rterm == l && l != r;
   if(!sw && (e->lterm != l || e->rterm != r)) say("orientation changed the sides");
   if(swapped != sw || sw != (c == to_lesser)) bad("sides exchanged wrongly or not reported", swapped ? to_lesser : to_greater, c);
   if(!!EqnIsOriented(e) != (c == to_greater || c == to_lesser)) bad("wrong orientation mark", EqnIsOriented(e) ? to_greater : to_uncomparable, c);
   if((e->properties ^ p) & ~(EPIsOriented | EPMaxIsUpToDate)) say("orientation changed other marks");
   if(!EqnQueryProp(e, EPMaxIsUpToDate)) say("orientation not marked up to date");
   if(EqnOrient(cl_ocb, e) || (sw ? e->lterm != r : e->lterm != l)) say("orienting twice changed the literal");
}

int main(int argc, char **argv)
{
   long rounds = argc > 1 ? atol(argv[1]) : 400, per = argc > 2 ? atol(argv[2]) : 60;
   cl_init(); h_describe = describe;
   for(long r = 0; r < rounds; r++)
   {
      cl_order(r % 8); w_clear();
      static LiteralCmp lcs[] = {LCNormal, LCNormal, LCNormal, LCNoCmp, LCTFOEqMax, LCTFOEqMin};
      cl_ocb->lit_cmp = lcs[rnd(r % 4 ? 6 : 4)];     /* comparing predicates first needs a total precedence */
      if(r & 8) for(int i = 0; i < 3; i++) if(rnd(2)) { int s = rnd(4) == 0; w_var[s][i]->binding = w_mk(1, s, i + 1, 3); }
      for(long k = 0; k < per; k++)
      {
         int n = 1 + rnd(rnd(4) ? 5 : 9), d = 1 + rnd(3), nv = 1 + rnd(3);
         Eqn_p ls = cl_lits(n, d, 0, nv), arr[16], e; int m = 0;
         for(e = ls; e; e = e->next) arr[m++] = e;
         int small = 1;
         for(int i = 0; i < m; i++) { Node *x = inst(arr[i]->lterm, 0), *y = inst(arr[i]->rterm, 0); if(!x || !y) small = 0; }
         if(!small || npool > npmax / 2) { npool = 0; if(!small) { EqnListFree(ls); continue; } }
         if(rnd(6) == 0) for(int i = 0; i < m; i++) { if(rnd(4) == 0) EqnSetProp(arr[i], EPIsSelected); }
         if(rnd(10) == 0) EqnSetProp(arr[rnd(m)], EPPseudoLit);
         if(rnd(2)) for(int i = 0; i < m; i++) orient(arr[i]);
         else
         {
            PL before[16]; pl_of(ls, before);
            what = "orient the list"; cur1 = ls; cur2 = NULL;
            int sw = EqnListOrient(cl_ocb, ls), cnt = 0;
            for(int i = 0; i < m; i++) { PL a; Eqn_p nx = arr[i]->next; arr[i]->next = NULL; pl_of(arr[i], &a); arr[i]->next = nx; if(!pl_same(&a, &before[i])) say("orientation changed a literal");
               CompareResult c = arr[i]->lterm == arr[i]->rterm ? to_equal : arr[i]->rterm == h_tb->true_term ? to_greater : tc(arr[i]->lterm, arr[i]->rterm);
               if(!EqnQueryProp(arr[i], EPMaxIsUpToDate) || !!EqnIsOriented(arr[i]) != (c == to_greater) || c == to_lesser) { cur1 = arr[i]; nx = cur1->next; cur1->next = NULL; bad("wrong orientation after orienting a list", EqnIsOriented(arr[i]) ? to_greater : to_uncomparable, c); cur1->next = nx; cur1 = ls; }
               if(!treesame(a.l, before[i].l)) cnt++; }
            if(cnt != sw) say("number of exchanged literals is wrong");
            h_checked++;
         }
         CompareResult rl[16][16];
         for(int i = 0; i < m; i++) for(int j = 0; j < m; j++)
         {
            Eqn_p a = arr[i], b = arr[j], na = a->next, nb = b->next;
            rl[i][j] = ref(a, b);
            a->next = NULL; b->next = NULL; cur1 = a; cur2 = b; what = "compare";
            CompareResult got = LiteralCompare(cl_ocb, a, b);
            h_checked++;
            if(got != rl[i][j]) bad("literal comparison", got, rl[i][j]);
            if(LiteralGreater(cl_ocb, a, b) != (rl[i][j] == to_greater)) say("LiteralGreater disagrees");
            if(got != inv(LiteralCompare(cl_ocb, b, a))) say("comparing the other way round is not the mirrored answer");
            if(i == j && cl_ocb->lit_cmp != LCNoCmp && got != to_equal) say("a literal does not equal itself");
            CompareResult ge = EqnCompare(cl_ocb, a, b), we = eqs(a, b);
            if(ge != we) bad("comparison of equations", ge, we);
            if(EqnGreater(cl_ocb, a, b) != (we == to_greater)) say("EqnGreater disagrees");
            b->next = nb; a->next = na;
         }
         cur1 = ls; cur2 = NULL; what = "maximal literals of";
         EqnProperties pr[16]; for(int i = 0; i < m; i++) { if(rnd(2)) EqnSetProp(arr[i], EPIsMaximal | EPIsStrictlyMaximal); pr[i] = arr[i]->properties; }
         Clause_p c = NULL;
         int cnt, mx = 0;
         cnt = EqnListMaximalLiterals(cl_ocb, ls);
         e = ls;
         for(int i = 0; i < m; i++, e = e->next)
         {
            h_checked++;
            if(e != arr[i]) { FAIL_BEGIN; printf("property=C16 marking maximal literals changed the list of literals"); FAIL_END; break; }
            int max = 1, st = 1;
            for(int j = 0; j < m; j++) if(j != i) { if(rl[j][i] == to_greater) max = st = 0; if(rl[j][i] == to_equal) st = 0; }
            mx += max;
            if(!!EqnIsMaximal(e) != max || !!EqnIsStrictlyMaximal(e) != st)
            { FAIL_BEGIN; printf("property=C16 literal %d is marked %s%s, but it is %s%s, in ", i + 1, EqnIsMaximal(e) ? "maximal" : "not maximal", EqnIsStrictlyMaximal(e) ? " and strictly maximal" : "",
               max ? "maximal" : "not maximal", st ? " and strictly maximal" : ""); describe(); FAIL_END; }
            if((e->properties ^ pr[i]) & ~(EPIsMaximal | EPIsStrictlyMaximal)) say("marking maximal literals changed other marks");
         }
         if(e && e == arr[m - 1] && e->next) say("marking maximal literals added literals");
         if(cnt != mx) say("number of maximal literals is wrong");
         for(int i = 0; i < m; i++)
         {
            int max = 1, st = 1;
            for(int j = 0; j < m; j++) if(j != i && EqnIsMaximal(arr[j])) { if(rl[j][i] == to_greater) max = st = 0; if(rl[j][i] == to_equal) st = 0; }
            what = "is it maximal in";
            if(EqnListEqnIsMaximal(cl_ocb, ls, arr[i]) != max) say("the test for a maximal literal is wrong");
            if(EqnListEqnIsStrictlyMaximal(cl_ocb, ls, arr[i]) != st) say("the test for a strictly maximal literal is wrong");
            h_checked++;
         }
         (void)c;
         EqnListFree(ls);
      }
      if(r % 50 == 49) { TBGCSweep(h_tb); for(int s = 0; s < WSORTS; s++) for(int i = 0; i < WV; i++) ; }
   }
   return h_done();
}
