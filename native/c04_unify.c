/* C04/C05: unification of the current tree against Robinson's algorithm on trees */
#include "world.h"
#include <cte_match_mgu_1-1.h>

static void fail(char *what, Term_p s, Term_p t, Snap *pre)
{
   FAIL_BEGIN;
   printf("property=C04,C05 unify "); h_put(stdout, s, 0); printf(" with "); h_put(stdout, t, 0);
   printf(": %s; bindings now:", what); putbind();
   printf(" (bindings on entry: %ld)", pre->sp);
   FAIL_END;
}

static Term_p cs, ct;
static void describe(void) { printf("property=C04 unify "); h_put(stdout, cs, 0); printf(" with "); h_put(stdout, ct, 0); }

static void check(Term_p s, Term_p t, Subst_p sub)
{
   Snap pre, post;
   npool = 0;
   cs = s; ct = t; h_describe = describe;
   snap(&pre, sub);
   Node *ns = inst(s, 0), *nt = inst(t, 0);
   TS ref; ref.n = 0;
   int want = ts_unify(&ref, ns, nt);
   bool got = SubstMguComplete(s, t, sub);
   h_checked++;
   snap(&post, sub);
   if((TermCellQueryProp(s, TPPredPos) && s->f_code >= 0 && t->f_code < 0) || (TermCellQueryProp(t, TPPredPos) && t->f_code >= 0 && s->f_code < 0)) want = 0;
   if(got != want) { fail(got ? "claims a unifier, there is none" : "finds no unifier, there is one", s, t, &pre); }
   if(!got)
   {
      if(!snapsame(&pre, &post)) fail("failed, but changed bindings or the substitution", s, t, &pre);
      return;
   }
   if(want)
   {
      Node *a = inst(s, 0), *b = inst(t, 0);
      if(!a || !b) fail("bindings are cyclic", s, t, &pre);
      else if(!treesame(a, b)) fail("the computed substitution does not make the terms equal", s, t, &pre);
      /* most general: the reference mgu is an instance, i.e. respects every new binding */
      for(int k = 0; k < WSORTS; k++) for(int i = 0; i < WV; i++)
      {
         Term_p v = w_var[k][i];
         if(v->binding && !pre.b[k][i])
         {
            if(v->type != v->binding->type) fail("a binding is not well-sorted", s, t, &pre);
            Term_p sb = v->binding;
            /* instance under the old bindings, then the reference unifier */
            Snap now; memcpy(now.b, post.b, sizeof(now.b));
            for(int k2 = 0; k2 < WSORTS; k2++) for(int j = 0; j < WV; j++) w_var[k2][j]->binding = pre.b[k2][j];
            Node *l = ts_app(&ref, inst(v, 0)), *r = ts_app(&ref, inst(sb, 0));
            for(int k2 = 0; k2 < WSORTS; k2++) for(int j = 0; j < WV; j++) w_var[k2][j]->binding = now.b[k2][j];
            if(!treesame(l, r)) { fail("the computed unifier is not most general", s, t, &pre); return; }
         }
         if(pre.b[k][i] && v->binding != pre.b[k][i]) fail("a binding that was there before has changed", s, t, &pre);
      }
   }
   SubstBacktrackToPos(sub, pre.sp);
   snap(&post, sub);
   if(!snapsame(&pre, &post)) fail("backtracking does not restore the bindings", s, t, &pre);
}

int main(int argc, char **argv)
{
   long rounds = argc > 1 ? atol(argv[1]) : 300, per = argc > 2 ? atol(argv[2]) : 400;
   w_init();
   Subst_p sub = SubstAlloc();
   for(long r = 0; r < rounds; r++)
   {
      w_clear(); PStackReset(sub);
      int nv = 1 + rnd(4);
      if(r % 3 == 1)
      {  /* earlier unifications left bindings */
         for(int k = 0; k < 2; k++) SubstMguComplete(w_mk(2, 0, 0, nv), w_mk(2, 0, 0, nv), sub);
         Node *x = NULL; int bad = 0;
         for(int k = 0; k < WSORTS; k++) for(int i = 0; i < WV; i++) if(!inst(w_var[k][i], 0)) bad = 1;
         if(bad) { fail("bindings are cyclic", w_var[0][0], w_var[0][1], &(Snap){0}); w_clear(); PStackReset(sub); }
      }
      for(long k = 0; k < per; k++)
      {
         int so = rnd(8) == 0 ? 2 : rnd(4) == 0, dep = 1 + rnd(4), share = rnd(2);
         Term_p s = w_mk(dep, so, 0, nv), t = rnd(3) == 0 ? w_mk(dep, so, share ? 0 : nv, nv) : w_mutate(s, so, share ? 0 : nv, nv);
         for(int m = rnd(3); m > 0; m--) t = w_mutate(t, so, share ? 0 : nv, nv);
         if(rnd(40) == 0) { int l = 20 + rnd(160), lf = rnd(2); s = w_comb(l, 0, 20, lf); t = w_comb(l + (rnd(4) == 0), 20, 20, lf); }
         if(rnd(16) == 0) t = w_mk(dep, rnd(3), 0, nv);
         if(rnd(2)) { Term_p x = s; s = t; t = x; }
         npool = 0;
         Node *a = inst(s, 0), *b = inst(t, 0);
         if(!a || !b || npool > 3000) continue;
         check(s, t, sub);
      }
   }
   return h_done();
}
