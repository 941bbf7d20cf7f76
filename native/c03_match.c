/* C03: matching of the current tree against matching on trees */
#include "world.h"
#include <cte_match_mgu_1-1.h>

static void fail(char *what, Term_p p, Term_p t)
{
   FAIL_BEGIN;
   printf("property=C03 match pattern "); h_put(stdout, p, 0); printf(" onto "); h_put(stdout, t, 0);
   printf(": %s; bindings now:", what); putbind();
   FAIL_END;
}

static int check(Term_p p, Term_p t, Subst_p sub)
{
   Snap pre, post;
   TS ref; ref.n = 0;
   npool = 0;
   snap(&pre, sub);
   for(int k = 0; k < WSORTS; k++) for(int i = 0; i < WV; i++) if(w_var[k][i]->binding) { ref.dom[ref.n] = w_var[k][i]->f_code; ref.im[ref.n++] = tree(w_var[k][i]->binding); }
   int want = ts_match(&ref, tree(p), tree(t));
   if(TermCellQueryProp(t, TPPredPos) && t->f_code >= 0 && p->f_code < 0) want = 0;
   bool got = SubstMatchComplete(p, t, sub);
   h_checked++;
   snap(&post, sub);
   if(got != want) fail(got ? "claims a match, there is none" : "finds no match, there is one", p, t);
   if(!got)
   {
      if(!snapsame(&pre, &post)) fail("failed, but changed bindings or the substitution", p, t);
      return 0;
   }
   for(int k = 0; k < WSORTS; k++) for(int i = 0; i < WV; i++)
   {
      Term_p v = w_var[k][i];
      Node *r = ts_get(&ref, v->f_code);
      if(want && ((v->binding != NULL) != (r != NULL) || (r && !treesame(r, tree(v->binding))))) { fail("the computed substitution is not the matching one", p, t); break; }
   }
   return 1;
}

int main(int argc, char **argv)
{
   long rounds = argc > 1 ? atol(argv[1]) : 400, per = argc > 2 ? atol(argv[2]) : 400;
   w_init();
   Subst_p sub = SubstAlloc();
   for(long r = 0; r < rounds; r++)
   {
      int nv = 1 + rnd(4);
      for(long k = 0; k < per; k++)
      {
         w_clear(); PStackReset(sub);
         int so = rnd(8) == 0 ? 2 : rnd(4) == 0, dep = 1 + rnd(3);
         /* a chain of matches under one substitution, as in clause subsumption */
         for(int n = 1 + rnd(3); n > 0; n--)
         {
            Term_p p = w_mk(dep, so, 0, nv), t;
            if(rnd(60) == 0) p = w_comb(20 + rnd(160), 0, 20, rnd(2));
            int lo = rnd(3) == 0 ? 0 : 20;
            if(rnd(4)) { /* an instance of p */
               Subst_p s2 = SubstAlloc();
               Snap sv; snap(&sv, sub);
               for(int s = 0; s < WSORTS; s++) for(int i = 0; i < 20; i++) if(!w_var[s][i]->binding || rnd(8) == 0) w_var[s][i]->binding = w_mk(rnd(3), s, lo ? lo : 20, 4);
               t = TBInsertInstantiated(h_tb, p);
               for(int s = 0; s < WSORTS; s++) for(int i = 0; i < WV; i++) w_var[s][i]->binding = sv.b[s][i];
               SubstDelete(s2);
               if(rnd(3) == 0) t = w_mutate(t, so, lo, 3);
            } else t = w_mk(dep, rnd(10) ? so : rnd(3), lo, 4);
            if(!check(p, t, sub)) { if(rnd(2)) break; }
         }
         Snap empty, now;
         SubstBacktrack(sub);
         snap(&now, sub); memset(&empty, 0, sizeof(empty));
         if(!snapsame(&empty, &now)) fail("undoing the substitution leaves bindings", w_var[0][0], w_var[0][0]);
      }
   }
   return h_done();
}
