/* C10: histories of normalising clauses and adding demodulators, against rewriting on plain trees */
#define W_FRESH
#include "clause.h"
#include <ccl_rewrite.h>
#include <cco_simplification.h>
#include <ccl_global_indices.h>
#include <ccl_derivation.h>
#include <cte_idx_fp.h>

#define MD 64
typedef struct { Node *l, *r; int oriented, live; Clause_p c; } Dem;
static Dem dem[MD]; static int nd;
static ClauseSet_p demods[2], others, tmp, archive; static struct global_indices_cell gi;
static const char *what = ""; static char fpn[40]; static PL oldl[64]; static int oldn; static Clause_p cur;

static void nput(Node *t)
{
   if(t->f < 0) { printf("X%ld", -t->f); return; }
   printf("%s", SigFindName(h_sig, t->f));
   for(int i = 0; i < t->n; i++) { printf(i ? "," : "("); nput(t->a[i]); }
   if(t->n) printf(")");
}
static void describe(void)
{
   printf("(index %s) %s", fpn, what);
   if(cur) { printf(": "); for(int i = 0; i < oldn; i++) { if(i) printf(" | "); nput(oldl[i].l); printf(oldl[i].pos ? " = " : " != "); nput(oldl[i].r); } printf(", which becomes "); cl_put(cur->literals); }
   printf(", demodulators:");
   for(int i = 0; i < nd; i++) { printf(" [%d%s] ", i, dem[i].live ? "" : " removed"); nput(dem[i].l); printf(dem[i].oriented ? " -> " : " = "); nput(dem[i].r); }
}
static void say(const char *m) { FAIL_BEGIN; describe(); printf(": %s", m); FAIL_END; }

static Term_p build(Node *t)
{
   if(t->f < 0) return VarBankVarAssertAlloc(h_tb->vars, t->f, t->ty);
   if(t->f == SIG_TRUE_CODE) return h_tb->true_term;
   if(t->f == SIG_FALSE_CODE) return h_tb->false_term;
   Term_p x = TermTopAlloc(t->f, t->n);
   x->type = t->ty;
   if(t->ty == h_types->bool_type) TermCellSetProp(x, TPPredPos);
   for(int i = 0; i < t->n; i++) x->args[i] = build(t->a[i]);
   return TBTermTopInsert(h_tb, x);
}
static int covered(TS *s, Node *t) { if(t->f < 0) return ts_get(s, t->f) != NULL; for(int i = 0; i < t->n; i++) if(!covered(s, t->a[i])) return 0; return 1; }
static void complete(TS *s, Node *t)
{
   if(t->f < 0) { if(!ts_get(s, t->f)) { s->dom[s->n] = t->f; s->im[s->n++] = tree(OCBDesignatedMinTerm(cl_ocb, h_tb, t->ty)); } return; }
   for(int i = 0; i < t->n; i++) complete(s, t->a[i]);
}
static int renaming(TS *s)
{
   for(int i = 0; i < s->n; i++) { if(s->im[i]->f >= 0) return 0; for(int j = 0; j < i; j++) if(s->im[i]->f == s->im[j]->f) return 0; }
   return 1;
}
/* t rewritten at the top with demodulator d read from side sd, or NULL; *ren: the match is a renaming */
static int completed;   /* variables that only occur on the other side were instantiated with the minimal term */
static Node *top(Node *t, Dem *d, int sd, int *ren)
{
   completed = 0;
   TS s = {.n = 0};
   if(sd && d->oriented) return NULL;
   Node *l = sd ? d->r : d->l, *r = sd ? d->l : d->r;
   if(t->f < 0 || !ts_match(&s, l, t)) return NULL;
   *ren = renaming(&s);
   if(d->oriented) return ts_app(&s, r);
   if(!covered(&s, r)) { if(!cl_ocb->rewrite_strong_rhs_inst) return NULL; complete(&s, r); completed = 1; }
   if((*ren = renaming(&s))) return NULL;
   Node *n = ts_app(&s, r);
   return TOGreater(cl_ocb, build(t), build(n), DEREF_NEVER, DEREF_NEVER) ? n : NULL;
}
/* all one step rewrites */
static Node *st[600]; static int ns, cap; static long ncap;
static void seen(Node *t) { for(int i = 0; i < ns; i++) if(treesame(st[i], t)) return; if(ns < 600 && npool < npmax - (1 << 17) && wpool < wpmax - (1 << 18)) st[ns++] = t; else cap = 1; }
static Node *ctx(Node **path, int *ix, int d, Node *n)
{
   while(d--) { Node *r = nnew(path[d]->n); r->f = path[d]->f; r->ty = path[d]->ty; for(int i = 0; i < r->n; i++) r->a[i] = i == ix[d] ? n : path[d]->a[i]; n = r; }
   return n;
}
static void steps(Node *t, Node **path, int *ix, int d, char *use)
{
   int ren;
   for(int k = 0; k < nd; k++) if(use[k]) for(int sd = 0; sd < 2; sd++) { Node *n = top(t, &dem[k], sd, &ren); if(n) seen(ctx(path, ix, d, n)); }
   if(d < 30) for(int i = 0; i < t->n; i++) { path[d] = t; ix[d] = i; steps(t->a[i], path, ix, d + 1, use); }
}
static int reaches(Node *a, Node *b, char *use)
{
   Node *path[32]; int ix[32];
   ns = cap = 0; seen(a);
   for(int i = 0; i < ns && !cap; i++) { if(treesame(st[i], b)) return 1; steps(st[i], path, ix, 0, use); }
   ncap += cap;
   return cap;
}
/* is some position of t reducible; restricted: 1 not the top by a renaming, 2 not the top (a link that may not be used can hide other steps there) */
static int shallow = 100;   /* positions deeper than this do not count */
static int reducible(Node *t, int restricted, int from, int to, int level, int weak)
{
   int ren;
   for(int k = from; k < to; k++) if((dem[k].live || weak == 2) && (level == FullRewrite || dem[k].oriented)) for(int sd = 0; sd < 2; sd++)
   {
      Node *n = top(t, &dem[k], sd, &ren);
      if(n && !(restricted == 1 && ren) && restricted != 2 && (weak || !completed)) return 1;
   }
   int res = 0;
   if(shallow > 0) { shallow--; for(int i = 0; i < t->n && !res; i++) res = reducible(t->a[i], 0, from, to, level, weak); shallow++; }
   return res;
}
static int limited(Eqn_p l) { return EqnIsMaximal(l) && EqnIsPositive(l) && EqnIsOriented(l); }
static int clean(void)
{
   for(int i = 0; i < PDArraySize(h_tb->vars->variables); i++) { Term_p v = PDArrayElementP(h_tb->vars->variables, i); if(v && v->binding) return 0; }
   return 1;
}
static void unbind(void) { for(int i = 0; i < PDArraySize(h_tb->vars->variables); i++) { Term_p v = PDArrayElementP(h_tb->vars->variables, i); if(v) v->binding = NULL; } }

static void normalise(Clause_p c, int level)
{
   char use[MD], lim[64], mx[64], ori[64]; int n = 0;
   what = level == FullRewrite ? "normalising" : "normalising with rules only"; cur = c;
   oldn = pl_of(c->literals, oldl);
   for(Eqn_p l = c->literals; l; l = l->next) { mx[n] = EqnIsMaximal(l) && EqnIsPositive(l); ori[n] = EqnIsOriented(l) != 0; lim[n++] = limited(l); }
   int limrw = ClauseQueryProp(c, CPLimitedRW) != 0;
   long d0 = c->derivation ? PStackGetSP(c->derivation) : 0;
   long res = ClauseComputeLINormalform(cl_ocb, h_tb, c, demods, level, rnd(2), false);
   h_checked++;
   if(!clean()) { say("bindings left behind"); unbind(); }
   /* the recorded demodulators */
   long d1 = c->derivation ? PStackGetSP(c->derivation) : 0;
   memset(use, 0, sizeof use);
   if(res * 2 != d1 - d0) say("the number of steps is not the number of recorded steps");
   for(long i = d0; i + 1 < d1; i += 2)
   {
      int k = 0;
      for(k = 0; k < nd; k++) if(dem[k].c == PStackElementP(c->derivation, i + 1)) break;
      if(PStackElementInt(c->derivation, i) != DCRewrite || k == nd) { say("the recorded justification is not a rewrite step with a demodulator"); continue; }
      use[k] = 1;
   }
   PL now[64]; int m = pl_of(c->literals, now);
   if(m != oldn) { say("literals lost"); return; }
   int touched = 0, cause = 0;
   if(limrw) for(int i = 0; i < m; i++) if(mx[i])
   {
      touched |= !treesame(now[i].l, oldl[i].l) || (!ori[i] && !treesame(now[i].r, oldl[i].r));
      cause |= reducible(oldl[i].l, lim[i], 0, nd, FullRewrite, 2) || (!ori[i] && reducible(oldl[i].r, 0, 0, nd, FullRewrite, 2));
   }
   if(touched && !cause) say("a left side that may only be rewritten by proper instances was rewritten by a variant");
   if(touched && ClauseQueryProp(c, CPLimitedRW)) say("the clause changed in a maximal side and is still marked for limited rewriting");
   for(int i = 0; i < m; i++)
   {
      if(now[i].pos != oldl[i].pos) say("a literal changed its sign");
      if(!reaches(oldl[i].l, now[i].l, use) || !reaches(oldl[i].r, now[i].r, use)) say("the new term does not result from rewriting with the recorded demodulators");
      int rs = limrw && lim[i] && ClauseQueryProp(c, CPLimitedRW) ? 2 : 0;
      if(reducible(now[i].l, rs, 0, nd, level, 0) || reducible(now[i].r, 0, 0, nd, level, 0)) say("the result is not in normal form");
   }
   if(res && ClauseQueryProp(c, CPInitial)) say("a rewritten clause is still marked as an input clause");
   cur = NULL; what = "";
}

static void orient(Clause_p c)
{
   ClauseDelProp(c, CPIsOriented);
   EqnListDelProp(c->literals, EPIsSelected);
   ClauseOrientLiterals(cl_ocb, c);
   if(rnd(3) == 0) for(Eqn_p l = c->literals; l; l = l->next) if(EqnIsNegative(l) && rnd(2)) { EqnSetProp(l, EPIsSelected); break; }
   ClauseMarkMaximalTerms(cl_ocb, c);
   c->weight = ClauseStandardWeight(c);
}
#define MC 256
static Clause_p proc[MC]; static int np;

static void backward(Clause_p c, SysDate *date, int indexed)
{
   char must[MC], in[MC];
   Node *before[MC][8][2];
   what = indexed ? "finding rewritable clauses with the last demodulator by index" : "finding rewritable clauses with the last demodulator";
   for(int i = 0; i < np; i++)
   {
      must[i] = in[i] = 0; int k = 0;
      for(Eqn_p l = proc[i]->literals; l; l = l->next, k++)
      {
         before[i][k][0] = tree(l->lterm); before[i][k][1] = tree(l->rterm);
         for(int w = 0; w < 2; w++) if(reducible(before[i][k][0], limited(l), nd - 1, nd, FullRewrite, w) || reducible(before[i][k][1], 0, nd - 1, nd, FullRewrite, w)) must[i] |= 1 << w;
         shallow = 1; if(reducible(before[i][k][0], limited(l), nd - 1, nd, FullRewrite, 0) || reducible(before[i][k][1], 0, nd - 1, nd, FullRewrite, 0)) must[i] |= 4; shallow = 100;
      }
   }
   SysDateInc(date);
   long have = tmp->members;
   if(indexed) RemoveRewritableClausesIndexed(cl_ocb, tmp, archive, c, *date, &gi, false);
   else { RemoveRewritableClauses(cl_ocb, demods[0], tmp, archive, c, *date, &gi, false); RemoveRewritableClauses(cl_ocb, demods[1], tmp, archive, c, *date, &gi, false); RemoveRewritableClauses(cl_ocb, others, tmp, archive, c, *date, &gi, false); }
   h_checked++;
   if(!clean()) { say("bindings left behind"); unbind(); }
   int gone = 0, k = 0;
   for(int i = 0; i < np; i++)
   {
      int out = proc[i]->set == archive, j = 0;
      for(Eqn_p l = proc[i]->literals; l; l = l->next, j++)
      {
         if(!treesame(tree(l->lterm), before[i][j][0]) || !treesame(tree(l->rterm), before[i][j][1])) { cur = proc[i]; oldn = 0; say("this clause was changed"); cur = NULL; }
      }
      if((must[i] & 1) && !out && indexed && !(must[i] & 4))
      {
         static int told;   /* a known finding: the index files a clause under the sides of its literals and their arguments only */
         if(!told++) { printf("WITNESS index-depth: "); cur = proc[i]; oldn = 0; describe(); cur = NULL; printf(": the clause is rewritable only below the arguments of a side and was not found\n"); }
      }
      else if((must[i] & 1) && !out) { cur = proc[i]; oldn = 0; say("this clause is rewritable and was not found"); cur = NULL; }
      if(out && (indexed ? !must[i] : 0)) { cur = proc[i]; oldn = 0; say("this clause is not rewritable and was removed"); cur = NULL; }
      gone += out;
      if(out) { for(int d = 0; d < nd; d++) if(dem[d].c == proc[i]) dem[d].live = 0; }
      else proc[k++] = proc[i];
   }
   np = k;
   if(tmp->members - have != gone) say("the number of clauses taken back differs from the number removed");
   what = "";
}

static void history(int len, int depth)
{
   static char *fps[] = {"FP0", "FPfp", "FP1", "FP2", "FP3D", "FP3W", "FP4D", "FP4W", "FP4M", "FP5M", "FP6M", "FP7", "FP7M", "FP4X2_2", "FP3DFlex", "NPDT"};
   int indexed = rnd(3) != 0; char *fp = indexed ? fps[rnd(16)] : "NoIndex"; sprintf(fpn, "%s", fp);
   GlobalIndicesNull(&gi);
   GlobalIndicesInit(&gi, h_sig, fp, "NoIndex", "NoIndex", 0);
   for(int i = 0; i < 2; i++) { demods[i] = ClauseSetAlloc(); demods[i]->demod_index = PDTreeAlloc(h_tb); }
   others = ClauseSetAlloc(); tmp = ClauseSetAlloc(); archive = ClauseSetAlloc();
   nd = np = 0;
   cl_ocb->rewrite_strong_rhs_inst = rnd(3) == 0;
   for(int k = 0; k < len && np < MC - 1; k++)
   {
      Clause_p c;
      if(tmp->members && rnd(2)) { c = tmp->anchor->succ; ClauseSetExtractEntry(c); }
      else
      {
         int unit = rnd(2);
         do { c = cl_mk(unit ? 1 : 1 + rnd(3), 1 + rnd(depth), 0, 3); }
         while(unit && rnd(20) && ((c->literals->lterm->f_code < 0 || c->literals->rterm->f_code < 0 || (c->literals->lterm->arity && c->literals->lterm->args[0]->f_code < 0 && rnd(3))) && (ClauseFree(c), 1)));   /* such equations collapse the world */
         if(unit && rnd(3)) { Eqn_p l = c->literals; EqnSetProp(l, EPIsPositive); c->pos_lit_no = 1; c->neg_lit_no = 0; }
      }
      long n0 = npool, w0 = wpool;
      if(rnd(2)) { normalise(c, RuleRewrite); npool = n0; wpool = w0; }
      normalise(c, FullRewrite); npool = n0; wpool = w0;
      if(rnd(4) == 0) { normalise(c, FullRewrite); npool = n0; wpool = w0; }
      orient(c);
      Eqn_p l = c->literals;
      if(c->pos_lit_no == 1 && !c->neg_lit_no && l->lterm == l->rterm) { ClauseFree(c); continue; }
      SysDate date = ClauseSetListGetMaxDate(demods, FullRewrite);
      int dm = ClauseIsDemodulator(c);
      if(dm)
      {
         if(nd == MD - 1) { ClauseFree(c); break; }
         dem[nd].l = tree(l->lterm); dem[nd].r = tree(l->rterm); dem[nd].oriented = EqnIsOriented(l) != 0; dem[nd].live = 1; dem[nd++].c = c;
         n0 = npool; w0 = wpool; backward(c, &date, indexed); npool = n0; wpool = w0;
      }
      c->date = date;
      ClauseSetProp(c, CPLimitedRW);
      if(dm && EqnIsOriented(l)) TermCellSetProp(l->lterm, TPIsRewritable);
      if(dm) { ClauseSet_p s = demods[!EqnIsOriented(l)]; s->date = date; ClauseSetPDTIndexedInsert(s, c); }
      else ClauseSetInsert(others, c);
      GlobalIndicesInsertClause(&gi, c, false);
      proc[np++] = c;
   }
   for(int i = 0; i < np; i++) { GlobalIndicesDeleteClause(&gi, proc[i], false); ClauseSetExtractEntry(proc[i]); ClauseFree(proc[i]); }
   for(int i = 0; i < 2; i++) ClauseSetFree(demods[i]);
   ClauseSetFreeClauses(tmp); ClauseSetFreeClauses(archive); ClauseSetFree(others); ClauseSetFree(tmp); ClauseSetFree(archive);
   GlobalIndicesFreeIndices(&gi);
   nd = np = 0;
   for(long i = 0; i < h_tb->min_terms->size; i++) PDArrayAssignP(h_tb->min_terms, i, NULL);   /* they outlive the sweep, with their links */
   TBGCSweep(h_tb);
}

int main(int argc, char **argv)
{
   long rounds = argc > 1 ? atol(argv[1]) : 200, len = argc > 2 ? atol(argv[2]) : 30;
   npmax = 1 << 22; wpmax = 1 << 20;
   cl_init(); h_describe = describe; OutputLevel = 0;
   for(long r = 0; r < rounds; r++)
   {
      npool = wpool = 0;
      cl_order(r % 8);
      history(len, 1 + rnd(3));
   }
   if(getenv("CAP")) printf("cap %ld\n", ncap);
   return h_done();
}
