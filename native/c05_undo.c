/* C05: random histories of binding, unification, matching, renaming and undoing against snapshots */
#include "world.h"
#include <cte_match_mgu_1-1.h>

static void fail(char *what, char *hist)
{
   FAIL_BEGIN;
   printf("property=C05 %s after the history %s; bindings now:", what, hist); putbind();
   FAIL_END;
}

int main(int argc, char **argv)
{
   long rounds = argc > 1 ? atol(argv[1]) : 8000, per = argc > 2 ? atol(argv[2]) : 25;
   w_init();
   Subst_p sub = SubstAlloc();
   static Snap sn[600];
   for(long r = 0; r < rounds; r++)
   {
      char hist[4096]; int hl = 0, nv = 2 + rnd(6), top = 0;
      hist[0] = 0;
      w_clear(); PStackReset(sub);
      snap(&sn[0], sub);
      for(long k = 0; k < per; k++)
      {
         Snap now;
         int op = rnd(9);
         long before = sub->current;
         if(hl > 3900) break;
         if(op <= 2)
         {  /* one binding, to a term whose variables are of a later range: acyclic */
            int s = rnd(WSORTS), i = rnd(10);
            if(w_var[s][i]->binding) continue;
            Term_p t = w_mk(rnd(3), s, 10, nv);
            PStackPointer p = SubstAddBinding(sub, w_var[s][i], t);
            hl += snprintf(hist + hl, 90, " bind X%ld", (long)-w_var[s][i]->f_code);
            if(p != before) fail("the position returned by adding a binding is not the one to undo to", hist);
            if(w_var[s][i]->binding != t || sub->current != before + 1) fail("adding a binding did not add it", hist);
         } else if(op == 3 || op == 4)
         {
            int so = rnd(3);
            Term_p s = w_mk(2, so, 0, nv), t = w_mutate(s, so, 10, nv);
            npool = 0;
            if(!inst(s, 0) || !inst(t, 0)) continue;
            Snap pre; snap(&pre, sub);
            bool u = SubstMguComplete(s, t, sub);
            hl += snprintf(hist + hl, 90, " unify(%s)", u ? "succeeds" : "fails");
            snap(&now, sub);
            if(!u && !snapsame(&pre, &now)) fail("a failed unification left traces", hist);
         } else if(op == 5)
         {
            int so = rnd(3);
            Term_p p = w_mk(2, so, 10 + nv, nv), t = w_mk(2, so, 30, 4);
            int free = 1;
            for(int s = 0; s < WSORTS; s++) for(int i = 10 + nv; i < 10 + 2 * nv; i++) if(w_var[s][i]->binding) free = 0;
            if(!free) continue;
            Snap pre; snap(&pre, sub);
            if(rnd(2)) t = w_mutate(p, so, 30, 4);
            bool u = SubstMatchComplete(p, t, sub);
            hl += snprintf(hist + hl, 90, " match(%s)", u ? "succeeds" : "fails");
            snap(&now, sub);
            if(!u && !snapsame(&pre, &now)) fail("a failed match left traces", hist);
         } else if(op == 6 && top + 1 < 600)
         {
            snap(&sn[++top], sub);
            hl += snprintf(hist + hl, 90, " mark");
            continue;
         } else if(op == 7 && top)
         {
            int m = rnd(top + 1);
            long had = sub->current;
            int n = SubstBacktrackToPos(sub, sn[m].sp);
            hl += snprintf(hist + hl, 90, " undo-to(%ld)", sn[m].sp);
            snap(&now, sub);
            if(!snapsame(&sn[m], &now)) fail("undoing does not restore the bindings of the marked position", hist);
            if(n != had - sn[m].sp) fail("undoing returns a wrong number of bindings", hist);
            top = m;
         } else if(op == 8 && rnd(4) == 0)
         {
            if(rnd(2)) {
               bool any = sub->current > 0;
               Term_p v = any ? sub->stack[sub->current - 1].p_val : NULL;
               while(top && sn[top].sp >= before) top--;
               if(sn[top].sp > before - 1) { if(!any && SubstBacktrackSingle(sub)) fail("undoing an empty substitution claims success", hist); continue; }
               if(SubstBacktrackSingle(sub) != any) fail("undoing one binding returns a wrong result", hist);
               hl += snprintf(hist + hl, 90, " undo-one");
               if(any && (v->binding || sub->current != before - 1)) fail("undoing one binding did not undo it", hist);
            } else {
               long n = SubstBacktrack(sub);
               hl += snprintf(hist + hl, 90, " undo-all");
               snap(&now, sub); top = 0;
               if(!snapsame(&sn[0], &now) || n != before) fail("undoing everything leaves bindings", hist);
            }
         }
         h_checked++;
         /* the substitution lists exactly the bound variables, each once */
         int nb = 0, bad = 0;
         for(int s = 0; s < WSORTS; s++) for(int i = 0; i < WV; i++) if(w_var[s][i]->binding) nb++;
         for(long i = 0; i < sub->current; i++) if(!((Term_p)sub->stack[i].p_val)->binding) bad = 1;
         if(nb != sub->current || bad) fail("the substitution does not list exactly the bound variables", hist);
      }
      SubstBacktrackToPos(sub, 0);
      Snap now; snap(&now, sub);
      if(!snapsame(&sn[0], &now)) fail("undoing everything leaves bindings", hist);
   }
   return h_done();
}
