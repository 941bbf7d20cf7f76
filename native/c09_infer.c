/* C09: generated clauses against conclusions computed on plain trees: every clause is one of the conclusions of its rule, every conclusion the restrictions admit is generated */
#define W_FRESH
#include "clause.h"
#include <cco_paramodulation.h>
#include <cco_factoring.h>
#include <cco_eqnresolving.h>
#include <ccl_global_indices.h>
#include <ccl_paramod.h>
#include <cte_idx_fp.h>

#define ML 20
typedef struct { int n, req, subset; struct { Node *l, *r; int pos; } l[ML]; } CC;

static Clause_p cs[8]; static int ncs; static Clause_p given; static const char *rule = "";
static CC *exp_; static int nexp, mexp = 1 << 15, over;   /* req: group of alternatives one of which is required, or 0 */
static Eqn_p bad;
static CC *lost;

static void nput(Node *t)
{
   if(t->f < 0) { printf("X%ld", -t->f); return; }
   printf("%s", SigFindName(h_sig, t->f));
   for(int i = 0; i < t->n; i++) { printf(i ? "," : "("); nput(t->a[i]); }
   if(t->n) printf(")");
}
static void ccput(CC *c) { for(int i = 0; i < c->n; i++) { if(i) printf(" | "); nput(c->l[i].l); printf(c->l[i].pos ? " = " : " != "); nput(c->l[i].r); } if(!c->n) printf("<empty>"); }
static void describe(void)
{
   printf("%s", rule);
   if(given) { printf(" given clause: "); cl_put(given->literals); }
   if(ncs) printf(" | other clauses:");
   for(int i = 0; i < ncs; i++) { printf(" [%d] ", i); cl_put(cs[i]->literals); }
}
static void say(const char *m) { FAIL_BEGIN; describe(); printf(": %s", m); if(bad) { printf(": "); cl_put(bad); } if(lost) { printf(": "); ccput(lost); } FAIL_END; }

static int lsame(CC *a, int i, CC *b, int j)
{
   return a->l[i].pos == b->l[j].pos && ((treesame(a->l[i].l, b->l[j].l) && treesame(a->l[i].r, b->l[j].r)) || (treesame(a->l[i].l, b->l[j].r) && treesame(a->l[i].r, b->l[j].l)));
}
static void add(CC *c, Node *l, Node *r, int pos) { if(c->n < ML) { c->l[c->n].l = l; c->l[c->n].r = r; c->l[c->n++].pos = pos; } }
/* drop literals s != s and repetitions */
static void norm(CC *c)
{
   int k = 0;
   for(int i = 0; i < c->n; i++)
   {
      if(!c->l[i].pos && treesame(c->l[i].l, c->l[i].r)) continue;
      int dup = 0;
      for(int j = 0; j < k && !dup; j++) dup = lsame(c, i, c, j);
      if(!dup) { c->l[k] = c->l[i]; k++; }
   }
   c->n = k;
}
static int trivial(CC *c) { for(int i = 0; i < c->n; i++) if(c->l[i].pos && treesame(c->l[i].l, c->l[i].r)) return 1; return 0; }
static void cc_of(Eqn_p l, CC *c) { c->n = 0; for(; l; l = l->next) add(c, tree(l->lterm), tree(l->rterm), !!EqnIsPositive(l)); }

/* variants */
static long vf[256], vt[256]; static int nv;
static int vterm(Node *a, Node *b)
{
   if(a->f < 0 || b->f < 0)
   {
      if(a->f >= 0 || b->f >= 0 || a->ty != b->ty) return 0;
      for(int i = 0; i < nv; i++) if(vf[i] == a->f || vt[i] == b->f) return vf[i] == a->f && vt[i] == b->f;
      vf[nv] = a->f; vt[nv++] = b->f;
      return 1;
   }
   if(a->f != b->f || a->n != b->n) return 0;
   for(int i = 0; i < a->n; i++) if(!vterm(a->a[i], b->a[i])) return 0;
   return 1;
}
static long vsteps;
static int vrec(CC *a, CC *b, int i, unsigned used)
{
   if(i == a->n) return 1;
   if(++vsteps > 20000) return 1;
   for(int j = 0; j < b->n; j++) if(!(used >> j & 1) && a->l[i].pos == b->l[j].pos)
      for(int sw = 0; sw < 2; sw++)
      {
         int m = nv;
         if(vterm(a->l[i].l, sw ? b->l[j].r : b->l[j].l) && vterm(a->l[i].r, sw ? b->l[j].l : b->l[j].r) && vrec(a, b, i + 1, used | 1u << j)) return 1;
         nv = m;
      }
   return 0;
}
static int variant(CC *a, CC *b) { nv = 0; vsteps = 0; return a->n == b->n && vrec(a, b, 0, 0); }

/* subterms and replacement on trees; occurrences are counted in reading order over a clause */
static int occ_no; static unsigned occ_mask;
static Node *repl(Node *t, Node *s, Node *by)
{
   if(treesame(t, s)) { int k = occ_no++; if(k >= 31 || (occ_mask >> k & 1)) return by; }
   if(!t->n) return t;
   Node *r = nnew(t->n);
   r->f = t->f; r->ty = t->ty;
   for(int i = 0; i < t->n; i++) r->a[i] = repl(t->a[i], s, by);
   return r;
}
static int count(Node *t, Node *s) { int n = treesame(t, s); for(int i = 0; i < t->n; i++) n += count(t->a[i], s); return n; }

static void expect(CC *c, int req, int subset)
{
   norm(c); c->req = trivial(c) ? 0 : req; c->subset = subset;
   if(nexp < mexp) exp_[nexp++] = *c; else over = 1;
}
/* superposition of literal fi (side fs) of from into the subterm st at literal ii of into; group = -1, or a number shared by alternatives one of which is required */
static int group;
static void superpose(CC *from, int fi, int fs, CC *into, Node *st, int req)
{
   TS s = {.n = 0};
   Node *l = fs ? from->l[fi].r : from->l[fi].l, *r = fs ? from->l[fi].l : from->l[fi].r;
   if(!ts_unify(&s, l, st)) return;
   Node *ls = ts_app(&s, l), *rs = ts_app(&s, r);
   CC in; in.n = 0;
   int n = 0;
   for(int i = 0; i < into->n; i++) { add(&in, ts_app(&s, into->l[i].l), ts_app(&s, into->l[i].r), into->l[i].pos); n += count(in.l[i].l, ls) + count(in.l[i].r, ls); }
   if(n > 5) { over = 1; return; }
   group++;
   int first = nexp, triv = 0;
   for(unsigned m = 1; m < 1u << n; m++)
   {
      CC c; c.n = 0;
      occ_no = 0; occ_mask = m;
      for(int i = 0; i < in.n; i++) { Node *a = repl(in.l[i].l, ls, rs), *b = repl(in.l[i].r, ls, rs); add(&c, a, b, in.l[i].pos); }
      for(int i = 0; i < from->n; i++) if(i != fi) add(&c, ts_app(&s, from->l[i].l), ts_app(&s, from->l[i].r), from->l[i].pos);
      triv |= trivial(&c);
      expect(&c, req ? group : 0, 1);
   }
   if(triv) for(int i = first; i < nexp; i++) exp_[i].req = 0;   /* some way of making this inference yields a trivial clause, which is dropped */
}

static Eqn_p nth(Clause_p c, int i) { Eqn_p l = c->literals; while(i--) l = l->next; return l; }
static Term_p side(Eqn_p l, int s) { return s ? l->rterm : l->lterm; }

/* is the overlap admitted by the marks and, after unification, by the ordering */
static int admitted(Clause_p from, int fi, int fs, Clause_p into, int ii, int is, Term_p sub, int top)
{
   Eqn_p f = nth(from, fi), t = nth(into, ii);
   if(!EqnIsPositive(f) || !EqnIsMaximal(f) || EqnIsSelected(f) || (fs && EqnIsOriented(f))) return 0;
   if(!EqnIsMaximal(t) || (is && EqnIsOriented(t)) || sub->f_code < 0) return 0;
   if(!EqnIsEquLit(f) && !(top && EqnIsNegative(t) && !EqnIsEquLit(t))) return 0;
   if(ClauseQueryProp(from, CPNoGeneration) || ClauseQueryProp(into, CPNoGeneration)) return 0;
   Subst_p s = SubstAlloc();
   int ok = SubstComputeMgu(side(f, fs), sub, s)
      && (EqnIsOriented(f) || !TOGreater(cl_ocb, side(f, !fs), side(f, fs), DEREF_ALWAYS, DEREF_ALWAYS))
      && EqnListEqnIsStrictlyMaximal(cl_ocb, from->literals, f)
      && (EqnIsOriented(t) || !TOGreater(cl_ocb, side(t, !is), side(t, is), DEREF_ALWAYS, DEREF_ALWAYS))
      && (EqnIsPositive(t) ? EqnListEqnIsStrictlyMaximal(cl_ocb, into->literals, t) : EqnListEqnIsMaximal(cl_ocb, into->literals, t));
   SubstDelete(s);
   return ok;
}

static void overlaps(Clause_p from, CC *pf, Clause_p into, CC *pi, int fi, int fs, int ii, int is, Term_p sub, int top, int complete)
{
   int req = complete && (complete == 1 || !top || !pi->l[ii].pos) && admitted(from, fi, fs, into, ii, is, sub, top);
   if(sub->f_code >= 0) superpose(pf, fi, fs, pi, tree(sub), req);
   for(int i = 0; i < sub->arity; i++) overlaps(from, pf, into, pi, fi, fs, ii, is, sub->args[i], 0, complete);
}
static void all_overlaps(Clause_p from, Clause_p into, int complete)
{
   CC pf, pi;
   cc_of(from->literals, &pf); cc_of(into->literals, &pi);
   for(int fi = 0; fi < pf.n; fi++) if(pf.l[fi].pos) for(int fs = 0; fs < 2; fs++)
      for(int ii = 0; ii < pi.n; ii++) for(int is = 0; is < 2; is++) overlaps(from, &pf, into, &pi, fi, fs, ii, is, side(nth(into, ii), is), 1, complete);
}

/* compare the generated clauses with what was expected; exact: also the number has to fit */
static void compare(ClauseSet_p store, long said)
{
   long n = 0;
   static char hit[1 << 15]; static char ghit[1 << 16];
   memset(hit, 0, nexp); memset(ghit, 0, group + 1);
   for(Clause_p c = store->anchor->succ; c != store->anchor; c = c->succ)
   {
      CC got; n++; h_checked++;
      cc_of(c->literals, &got);
      int ok = 0, pn = 0;
      for(int i = 0; i < nexp; i++) if(variant(&got, &exp_[i])) { ok = 1; hit[i] = 1; if(exp_[i].req > 0) ghit[exp_[i].req] = 1; }
      for(int i = 0; i < got.n; i++) pn += got.l[i].pos;
      if(!ok && !over) { bad = c->literals; say("generated a clause that no inference of this kind yields"); bad = NULL; }
      if(c->pos_lit_no != pn || c->neg_lit_no != got.n - pn) { bad = c->literals; say("the generated clause has wrong literal counts"); bad = NULL; }
   }
   if(n != said) say("the reported number of generated clauses is wrong");
   for(int i = 0; i < nexp; i++) if(exp_[i].req > 0 && !ghit[exp_[i].req]) { lost = &exp_[i]; say("an admitted inference was not made, one form of its conclusion"); lost = NULL; break; }
}
static void reset(void) { nexp = over = group = 0; }

static void mark(Clause_p c)
{
   ClauseDelProp(c, CPIsOriented);
   EqnListDelProp(c->literals, EPIsSelected);
   ClauseOrientLiterals(cl_ocb, c);
   if(rnd(3) == 0) for(Eqn_p l = c->literals; l; l = l->next) if(EqnIsNegative(l) && rnd(2)) { EqnSetProp(l, EPIsSelected); if(rnd(2)) break; }
   ClauseMarkMaximalTerms(cl_ocb, c);
   c->weight = ClauseStandardWeight(c);
}
static int clean(void)
{
   for(int i = 0; i < PDArraySize(h_tb->vars->variables); i++) { Term_p v = PDArrayElementP(h_tb->vars->variables, i); if(v && v->binding) return 0; }
   return 1;
}
static void unbind(void) { for(int i = 0; i < PDArraySize(h_tb->vars->variables); i++) { Term_p v = PDArrayElementP(h_tb->vars->variables, i); if(v) v->binding = NULL; } }
static void same(Clause_p c, CC *old)
{
   CC now; cc_of(c->literals, &now);
   int ok = now.n == old->n;
   for(int i = 0; ok && i < now.n; i++) ok = lsame(&now, i, old, i);
   if(!ok) say("a parent was changed");
   if(!clean()) { say("bindings left behind"); unbind(); }
}

static void unary(Clause_p c)
{
   CC old, p; cc_of(c->literals, &old); p = old;
   given = c;
   ClauseSet_p store = ClauseSetAlloc();
   rule = "equality resolution,"; reset();
   for(int i = 0; i < p.n; i++) if(!p.l[i].pos)
   {
      TS s = {.n = 0};
      Eqn_p l = nth(c, i);
      if(!ts_unify(&s, p.l[i].l, p.l[i].r)) continue;
      CC r; r.n = 0;
      for(int k = 0; k < p.n; k++) if(k != i) add(&r, ts_app(&s, p.l[k].l), ts_app(&s, p.l[k].r), p.l[k].pos);
      norm(&r); r.req = EqnIsMaximal(l) ? ++group : 0; exp_[nexp++] = r;
   }
   long n = ComputeAllEqnResolvents(h_tb, c, store, w_fresh);
   compare(store, n); same(c, &old);
   ClauseSetFreeClauses(store);

   rule = "equality factoring,"; reset();
   for(int i = 0; i < p.n; i++) if(p.l[i].pos) for(int a = 0; a < 2; a++) for(int j = 0; j < p.n; j++) if(j != i && p.l[j].pos) for(int b = 0; b < 2; b++)
   {
      TS s = {.n = 0};
      Eqn_p li = nth(c, i), lj = nth(c, j);
      Node *ms = a ? p.l[i].r : p.l[i].l, *mt = a ? p.l[i].l : p.l[i].r, *ws = b ? p.l[j].r : p.l[j].l, *wt = b ? p.l[j].l : p.l[j].r;
      if(!ts_unify(&s, ms, ws)) continue;
      int req = EqnIsMaximal(li) && !(a && EqnIsOriented(li)) && (ms->f >= 0 || EqnIsEquLit(lj)) && (ws->f >= 0 || EqnIsEquLit(li));
      if(req)
      {
         Subst_p sb = SubstAlloc();
         req = SubstComputeMgu(side(li, a), side(lj, b), sb) && !TOGreater(cl_ocb, side(li, !a), side(li, a), DEREF_ALWAYS, DEREF_ALWAYS) && EqnListEqnIsMaximal(cl_ocb, c->literals, li);
         SubstDelete(sb);
      }
      CC r; r.n = 0;
      add(&r, ts_app(&s, mt), ts_app(&s, wt), 0);
      for(int k = 0; k < p.n; k++) if(k != i) add(&r, ts_app(&s, p.l[k].l), ts_app(&s, p.l[k].r), p.l[k].pos);
      norm(&r); r.req = req ? ++group : 0; exp_[nexp++] = r;
   }
   n = ComputeAllEqualityFactors(h_tb, cl_ocb, c, store, w_fresh);
   compare(store, n); same(c, &old);
   ClauseSetFreeClauses(store);

   rule = "ordered factoring,"; reset();
   int npos = 0; for(int i = 0; i < p.n; i++) npos += p.l[i].pos;
   for(int i = 0; i < p.n; i++) for(int j = 0; j < p.n; j++) if(j != i && p.l[i].pos == p.l[j].pos) for(int b = 0; b < 2; b++)
   {
      TS s = {.n = 0};
      Eqn_p li = nth(c, i), lj = nth(c, j);
      if(!ts_unify(&s, p.l[i].l, b ? p.l[j].r : p.l[j].l) || !ts_unify(&s, p.l[i].r, b ? p.l[j].l : p.l[j].r)) continue;
      int req = p.l[i].pos && i < j && EqnIsMaximal(li) && EqnIsMaximal(lj) && !(b && EqnIsOriented(li) && EqnIsOriented(lj));
      if(req)
      {
         Subst_p sb = SubstAlloc();
         req = SubstComputeMgu(li->lterm, side(lj, b), sb) && SubstComputeMgu(li->rterm, side(lj, !b), sb) && EqnListEqnIsMaximal(cl_ocb, c->literals, li);
         SubstDelete(sb);
      }
      CC r; r.n = 0;
      for(int k = 0; k < p.n; k++) if(k != j) add(&r, ts_app(&s, p.l[k].l), ts_app(&s, p.l[k].r), p.l[k].pos);
      norm(&r); r.req = req ? ++group : 0; exp_[nexp++] = r;
   }
   n = ComputeAllOrderedFactors(h_tb, cl_ocb, c, store, w_fresh);
   compare(store, n); same(c, &old);
   ClauseSetFreeClauses(store); ClauseSetFree(store);
   given = NULL; rule = "";
}

static char *fps[] = {"FP0", "FPfp", "FP1", "FP2", "FP3D", "FP3W", "FP4D", "FP4W", "FP4M", "FP5M", "FP6M", "FP7", "FP7M", "FP4X2_2", "FP3DFlex", "NPDT"};
static ParamodulationType pms[] = {ParamodPlain, ParamodSim, ParamodOrientedSim, ParamodSuperSim, ParamodOrientedSuperSim, ParamodDecreasingSim, ParamodSizeDecreasingSim};

static void binary(int d)
{
   static char what[200];
   struct global_indices_cell gi;
   char *fp1 = fps[rnd(16)], *fp2 = fps[rnd(16)];
   ParamodulationType pm = pms[rnd(7)];
   CC old[8];
   GlobalIndicesInit(&gi, h_sig, "FP6M", fp1, fp2, 0);
   ClauseSet_p set = ClauseSetAlloc(), store = ClauseSetAlloc();
   int total = 1 + rnd(3);
   ncs = 0;
   for(int i = 0; i < total; i++)
   {
      Clause_p c = cl_mk(1 + rnd(3), d, 0, 2);
      cs[ncs++] = c; mark(c);
      ClauseSetInsert(set, c); GlobalIndicesInsertClause(&gi, c, false);
   }
   /* some clauses leave the indices again */
   for(int k = 0; k < 2; k++)
   {
      Clause_p c = cl_mk(1 + rnd(3), d, 0, 2); mark(c);
      GlobalIndicesInsertClause(&gi, c, false); GlobalIndicesDeleteClause(&gi, c, false);
      ClauseFree(c);
   }
   if(rnd(3) == 0 && ncs > 1) { Clause_p c = cs[--ncs]; GlobalIndicesDeleteClause(&gi, c, false); ClauseSetExtractEntry(c); ClauseFree(c); }
   for(int i = 0; i < ncs; i++) cc_of(cs[i]->literals, &old[i]);
   Clause_p orig = cs[rnd(ncs)], copy = ClauseCopyDisjoint(orig);
   given = copy;
   sprintf(what, "superposition (%s, indices %s and %s),", ParamodStr(pm), fp1, fp2); rule = what; reset();
   for(int i = 0; i < ncs; i++) { all_overlaps(copy, cs[i], 1); if(cs[i] != orig) all_overlaps(cs[i], copy, 2); }   /* 2: positive top level overlaps are symmetric and made once */
   CC oc; cc_of(copy->literals, &oc);
   long n = ComputeAllParamodulantsIndexed(h_tb, cl_ocb, w_fresh, copy, orig, gi.pm_into_index, gi.pm_negp_index, gi.pm_from_index, store, pm);
   compare(store, n);
   for(int i = 0; i < ncs; i++) same(cs[i], &old[i]);
   same(copy, &oc);
   ClauseSetFreeClauses(store);
   if(rnd(2))
   {
      sprintf(what, "superposition without index (%s),", ParamodStr(pm)); rule = what; reset();
      for(int i = 0; i < ncs; i++) { all_overlaps(copy, cs[i], 0); if(cs[i] != orig) all_overlaps(cs[i], copy, 0); }
      n = ComputeAllParamodulants(h_tb, cl_ocb, copy, orig, set, store, w_fresh, pm);
      compare(store, n);
      for(int i = 0; i < ncs; i++) same(cs[i], &old[i]);
      same(copy, &oc);
   }
   given = NULL; rule = "";
   ClauseFree(copy);
   for(int i = 0; i < ncs; i++) { GlobalIndicesDeleteClause(&gi, cs[i], false); ClauseSetExtractEntry(cs[i]); ClauseFree(cs[i]); }
   ncs = 0;
   ClauseSetFreeClauses(store); ClauseSetFree(store); ClauseSetFree(set);
   GlobalIndicesFreeIndices(&gi);
}

int main(int argc, char **argv)
{
   long rounds = argc > 1 ? atol(argv[1]) : 200, per = argc > 2 ? atol(argv[2]) : 60;
   npmax = 1 << 22; wpmax = 1 << 20;
   cl_init(); h_describe = describe; OutputLevel = 0;
   exp_ = malloc(sizeof(CC) * mexp);
   for(long r = 0; r < rounds; r++)
   {
      cl_order(r % 8);
      for(long k = 0; k < per; k++)
      {
         npool = 0;
         Clause_p c = cl_mk(1 + rnd(4), 1 + rnd(2), 0, 3);
         mark(c); unary(c); ClauseFree(c);
         npool = 0;
         if(k % 4 == 0) binary(1 + (rnd(3) == 0));
      }
      if(r % 50 == 49) TBGCSweep(h_tb);
   }
   return h_done();
}
