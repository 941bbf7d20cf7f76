/* C18: subsumption between clauses and in (indexed) clause sets, and unit cutting, against matching on plain trees */
#include "clause.h"
#include <ccl_subsumption.h>
#include <ccl_fcvindexing.h>
#include <ccl_pdtrees.h>
#include <ccl_unit_simplify.h>

#define NSET 12
static Clause_p cur1, cur2; static char *what = ""; static int cur_feat = -1;
static void describe(void)
{
   printf("%s ", what);
   if(cur1) cl_put(cur1->literals);
   if(cur2) { printf("  and  "); cl_put(cur2->literals); }
   if(cur_feat >= 0) printf(" (feature vector type %d)", cur_feat);
   putbind();
}
static void say(char *msg) { FAIL_BEGIN; printf("property=C18 %s: ", msg); describe(); FAIL_END; }

typedef struct { PL l[24]; int n; } PC;
static void pc_of(Clause_p c, PC *x) { x->n = pl_of(c->literals, x->l); }
/* strict multiset subsumption */
static int rec(PC *a, int i, PC *b, unsigned used, TS *s)
{
   if(i == a->n) return 1;
   for(int j = 0; j < b->n; j++) if(!(used >> j & 1) && a->l[i].pos == b->l[j].pos)
      for(int sw = 0; sw < 2; sw++)
      {
         int n = s->n;
         if(ts_match(s, a->l[i].l, sw ? b->l[j].r : b->l[j].l) && ts_match(s, a->l[i].r, sw ? b->l[j].l : b->l[j].r) && rec(a, i + 1, b, used | 1u << j, s)) { s->n = n; return 1; }
         s->n = n;
      }
   return 0;
}
static int multi(PC *a, PC *b) { TS s; s.n = 0; return rec(a, 0, b, 0, &s); }
static int pair(PL *u, Node *l, Node *r, int sw) { TS s; s.n = 0; return ts_match(&s, sw ? u->r : u->l, l) && ts_match(&s, sw ? u->l : u->r, r); }
/* an instance of the equation makes the two terms equal in one replacement (or they are the same) */
static int onestep(PL *u, Node *l, Node *r)
{
   if(treesame(l, r) || pair(u, l, r, 0) || pair(u, l, r, 1)) return 1;
   if(l->f < 0 || l->f != r->f || l->n != r->n) return 0;
   int d = -1;
   for(int i = 0; i < l->n; i++) if(!treesame(l->a[i], r->a[i])) { if(d >= 0) return 0; d = i; }
   return onestep(u, l->a[d], r->a[d]);
}
static int parstep(PC *us, int n, Node *l, Node *r)
{
   if(treesame(l, r)) return 1;
   for(int i = 0; i < n; i++) if(us[i].l[0].pos && (pair(&us[i].l[0], l, r, 0) || pair(&us[i].l[0], l, r, 1))) return 1;
   if(l->f < 0 || l->f != r->f || l->n != r->n) return 0;
   for(int i = 0; i < l->n; i++) if(!parstep(us, n, l->a[i], r->a[i])) return 0;
   return 1;
}
/* may: what may be reported; must: what has to be found */
static int may(PC *a, PC *b)
{
   if(!a->n) return 1;
   if(a->n > 1) return multi(a, b);
   for(int j = 0; j < b->n; j++) if(a->l[0].pos == b->l[j].pos) { if(a->l[0].pos ? onestep(&a->l[0], b->l[j].l, b->l[j].r) : pair(&a->l[0], b->l[j].l, b->l[j].r, 0) || pair(&a->l[0], b->l[j].l, b->l[j].r, 1)) return 1; }
   return 0;
}
static int must(PC *a, PC *b)
{
   if(!a->n) return 1;
   if(a->n > 1) return multi(a, b);
   for(int j = 0; j < b->n; j++) if(a->l[0].pos == b->l[j].pos && pair(&a->l[0], b->l[j].l, b->l[j].r, 0)) return 1;
   return 0;
}
static void shuffle(Clause_p c)
{
   Eqn_p a[24]; int n = 0;
   for(Eqn_p e = c->literals; e && n < 24; e = e->next) a[n++] = e;
   for(int i = n - 1; i > 0; i--) { int j = rnd(i + 1); Eqn_p x = a[i]; a[i] = a[j]; a[j] = x; }
   c->literals = n ? a[0] : NULL;
   for(int i = 0; i < n; i++) a[i]->next = i + 1 < n ? a[i + 1] : NULL;
}
static void prep(Clause_p c)
{
   PC before, after; pc_of(c, &before);
   EqnListOrient(cl_ocb, c->literals);
   ClauseSubsumeOrderSortLits(c);
   c->weight = ClauseStandardWeight(c);
   pc_of(c, &after);
   cur1 = c; cur2 = NULL; what = "sort";
   int ok = before.n == after.n, used = 0;
   for(int i = 0; ok && i < before.n; i++) { int j = 0; while(j < after.n && ((used >> j & 1) || before.l[i].cell != after.l[j].cell || !pl_same(&before.l[i], &after.l[j]))) j++; if(j == after.n) ok = 0; used |= 1 << j; }
   if(!ok) say("sorting the literals changed the clause");
}
/* a clause that an instance of c is (mostly) part of */
static Clause_p special(Clause_p c, int d, int nv)
{
   Eqn_p res = NULL, *p = &res;
   for(int s = 0; s < WSORTS; s++) for(int i = 0; i < WV; i++) if(rnd(3)) w_var[s][i]->binding = rnd(3) ? w_mk(rnd(d + 1), s, i + 1, i + 1 + nv < WV ? nv : 0) : NULL;
   for(int s = 0; s < WSORTS; s++) for(int i = WV - 8; i < WV; i++) w_var[s][i]->binding = NULL;
   for(Eqn_p e = c->literals; e; e = e->next)
   {
      Node *x = inst(e->lterm, 0), *y = inst(e->rterm, 0);
      Term_p l = e->lterm, r = e->rterm;
      if(x && y && npool < npmax / 2) { l = TBInsertNoProps(h_tb, l, DEREF_ALWAYS); r = TBInsertNoProps(h_tb, r, DEREF_ALWAYS); }
      if(rnd(14) == 0 && r != h_tb->true_term && l->type != h_types->bool_type) l = w_mutate(l, l->type == w_sort[1], 0, 2);
      if(rnd(3) == 0 && r != h_tb->true_term) { Term_p t = l; l = r; r = t; }
      if(rnd(5) == 0 && r != h_tb->true_term && l->type == w_sort[0] && r->type == w_sort[0])
      {  /* put both sides into one context */
         for(int k = 0, z = rnd(WSYM); k < WSYM; k++)
         {
            int q = (k + z) % WSYM, ok = w_sym[q].ar > 0 && w_sym[q].ar < 4 && w_sym[q].res == 0 && w_sym[q].dom[0] == 0;
            if(!ok) continue;
            Term_p a[WWIDE]; for(int i = 0; i < w_sym[q].ar; i++) a[i] = w_mk(1, w_sym[q].dom[i], 0, 3);
            Term_p old = a[0]; a[0] = l; l = w_app(q, a); a[0] = r; r = w_app(q, a); (void)old; break;
         }
      }
      *p = EqnAlloc(l, r, h_tb, EqnIsPositive(e)); (*p)->next = NULL; p = &(*p)->next;
      if(rnd(12) == 0) break;
   }
   w_clear();
   int k = rnd(4);
   if(k) { *p = cl_lits(k, d, 0, nv); }
   Clause_p n = ClauseAlloc(res);
   shuffle(n);
   return n;
}
static int unchanged(PC *a, Clause_p c) { PC b; pc_of(c, &b); if(a->n != b.n) return 0; for(int i = 0; i < a->n; i++) if(a->l[i].cell != b.l[i].cell || a->l[i].pos != b.l[i].pos || !treesame(a->l[i].l, b.l[i].l) || !treesame(a->l[i].r, b.l[i].r)) return 0; return 1; }
static int clean(void) { for(int s = 0; s < WSORTS; s++) for(int i = 0; i < WV; i++) if(w_var[s][i]->binding) return 0; return 1; }

static FVCollect_p mkspec(int f, long symbols)
{
   FVCollect_p c;
   switch(f)
   {
   case FVIBillFeatures: c = BillFeaturesCollectAlloc(h_sig, symbols * 2 + 2); break;
   case FVIBillPlusFeatures: c = BillPlusFeaturesCollectAlloc(h_sig, symbols * 2 + 4); break;
   case FVIACFold: c = FVCollectAlloc(FVICollectFeatures, true, 0, symbols * 2 + 2, 2, 0, symbols, symbols + 2, 0, symbols, 0, 0, 0, 0, 0, 0); break;
   case FVIACStagger: c = FVCollectAlloc(FVICollectFeatures, true, 0, symbols * 2 + 2, 2, 0, 2 * symbols, 2, 2 + symbols, 2 * symbols, 0, 0, 0, 0, 0, 0); break;
   case FVICollectFeatures: c = FVCollectAlloc(FVICollectFeatures, true, 0, symbols * 4 + 2, 2, 0, symbols, symbols + 2, 0, symbols, 2 * symbols + 2, 0, symbols, 3 * symbols + 2, 0, symbols); break;
   default: c = FVCollectAlloc(f, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0); break;
   }
   c->max_symbols = symbols;
   return c;
}
/* symbol counts and depths, computed from scratch */
static void count(Node *t, long depth, long *cnt, long *dep) { if(t->f < 0) return; cnt[t->f]++; if(depth > dep[t->f]) dep[t->f] = depth; for(int i = 0; i < t->n; i++) count(t->a[i], depth + 1, cnt, dep); }
static void vector(Clause_p c, PC *p, FVCollect_p s)
{
   static long cnt[2][4096], dep[2][4096]; long v[4096], nf = h_sig->f_count + 1;
   if(s->features != FVICollectFeatures || s->ass_vec_len || s->res_vec_len > 4000 || nf > 4000 || !p->n) return;
   memset(v, 0, sizeof(v)); for(int i = 0; i < 2; i++) { memset(cnt[i], 0, sizeof(long) * nf); memset(dep[i], 0, sizeof(long) * nf); }
   for(int i = 0; i < p->n; i++) { int z = !p->l[i].pos; count(p->l[i].l, 0, cnt[z], dep[z]); count(p->l[i].r, 0, cnt[z], dep[z]); if(s->use_litcount) v[z]++; }
   for(long f = 1; f < nf; f++)
   {
      if(s->pos_count_mod) v[s->pos_count_base + (s->pos_count_offset + f) % s->pos_count_mod] += cnt[0][f];
      if(s->neg_count_mod) v[s->neg_count_base + (s->neg_count_offset + f) % s->neg_count_mod] += cnt[1][f];
      if(s->pos_depth_mod) v[s->pos_depth_base + (s->pos_depth_offset + f) % s->pos_depth_mod] += dep[0][f];
      if(s->neg_depth_mod) v[s->neg_depth_base + (s->neg_depth_offset + f) % s->neg_depth_mod] += dep[1][f];
   }
   FreqVector_p got = VarFreqVectorCompute(c, s);
   cur1 = c; cur2 = NULL; what = "feature vector of";
   h_checked++;
   if(got->size != s->res_vec_len || memcmp(got->array, v, sizeof(long) * s->res_vec_len)) say("the feature vector is not that of the clause");
   FreqVectorFree(got);
}
static int trivial(PC *c) { for(int i = 0; i < c->n; i++) if(treesame(c->l[i].l, c->l[i].r)) return 1; return 0; }

static void sets(int feat)
{
   Clause_p cs[NSET], all[NSET * 3]; PC pc[NSET], pq; int n = 2 + rnd(NSET - 2), m = 0;
   ClauseSet_p set = ClauseSetAlloc(), ax = ClauseSetAlloc();
   for(int i = 0; i < n; i++)
   {
      int k = rnd(5) == 0 ? 1 : 2 + rnd(3);
      cs[i] = i && rnd(2) ? special(cs[rnd(i)], rnd(3), 3) : cl_mk(k, 1 + rnd(2), 0, 3);
      if(pl_of(cs[i]->literals, pc[i].l) > 7) { ClauseFree(cs[i]); cs[i] = cl_mk(2, 1, 0, 3); }
      prep(cs[i]); pc_of(cs[i], &pc[i]); all[m++] = cs[i];
   }
   for(int i = 0; i < 5; i++) { Clause_p c = cl_mk(1 + rnd(3), 1 + rnd(2), 0, 3); prep(c); ClauseSetInsert(ax, c); all[m++] = c; }
   FVCollect_p spec = NULL;
   cur_feat = feat;
   if(feat)
   {
      spec = mkspec(feat, 1 + rnd(rnd(2) ? 4 : 40));
      set->fvindex = FVIAnchorAlloc(spec, PermVectorCompute(ax, spec, rnd(2)));
   }
   int in[NSET];
   if(spec) for(int i = 0; i < n; i++) vector(cs[i], &pc[i], spec);
   for(int i = 0; i < n; i++) { in[i] = 1; if(feat) ClauseSetIndexedInsertClause(set, cs[i]); else ClauseSetInsert(set, cs[i]); }
   for(int t = 0; t < 6; t++)
   {
      /* members come and go */
      int z = rnd(n);
      if(rnd(2)) { if(in[z]) { ClauseSetExtractEntry(cs[z]); in[z] = 0; } else { if(feat) ClauseSetIndexedInsertClause(set, cs[z]); else ClauseSetInsert(set, cs[z]); in[z] = 1; } }
      Clause_p q = rnd(3) ? special(cs[rnd(n)], rnd(3), 3) : rnd(2) ? cl_mk(2 + rnd(3), 1 + rnd(2), 0, 2) : ClauseCopy(cs[rnd(n)], h_tb);
      if(pl_of(q->literals, pq.l) > 8) { ClauseFree(q); continue; }
      prep(q); pc_of(q, &pq);
      int tr = trivial(&pq), anym = 0;
      for(int i = 0; i < n; i++) if(in[i] && must(&pc[i], &pq)) anym = i + 1;
      if(pq.n > 1 || feat)
      {
         what = "does the set subsume"; cur1 = q; cur2 = NULL;
         Clause_p r = ClauseSetSubsumesClause(set, q);
         h_checked++;
         if(r) { int i = 0; while(i < n && cs[i] != r) i++; if(i == n || !in[i]) say("the subsuming clause reported is not in the set"); else if(!may(&pc[i], &pq)) { cur2 = cs[i]; say("the clause reported does not subsume the first one"); } }
         else if(anym) { cur2 = cs[anym - 1]; say("a set with a clause that subsumes it did not subsume it"); }
         if(feat)
         {
            FVPackedClause_p fp = FVIndexPackClause(q, set->fvindex);
            Clause_p r2 = ClauseSetSubsumesFVPackedClause(set, fp);
            if(!r2 != !r) say("subsumption by the set of the packed clause disagrees");
            FVUnpackClause(fp);
         }
      }
      cur1 = q; cur2 = NULL; what = "which clauses of the set are subsumed by";
      PStack_p st = PStackAlloc();
      long cnt = ClauseSetFindSubsumedClauses(set, q, st);
      h_checked++;
      if(cnt != PStackGetSP(st)) say("wrong number of subsumed clauses reported");
      for(int i = 0; i < n; i++)
      {
         int f = 0; for(long k = 0; k < PStackGetSP(st); k++) f += PStackElementP(st, k) == cs[i];
         cur2 = cs[i];
         if(f > 1) say("a subsumed clause is reported twice");
         if(f && (!in[i] || !may(&pq, &pc[i]))) say("the second clause is reported as subsumed by the first but is not");
         if(!f && in[i] && must(&pq, &pc[i]) && !(feat && trivial(&pc[i]))) say("the second clause is subsumed by the first but was not reported");
      }
      cur2 = NULL;
      Clause_p f1 = ClauseSetFindFirstSubsumedClause(set, q);
      if(!f1 != !cnt) say("the first subsumed clause is missing or invented");
      if(f1) { int i = 0; while(i < n && cs[i] != f1) i++; if(i == n || !in[i] || !may(&pq, &pc[i])) say("the first subsumed clause is not subsumed"); }
      if(feat)
      {
         what = "is there a variant of";
         Clause_p v = ClauseSetFindVariantClause(set, q);
         int mu = 0;
         for(int i = 0; i < n; i++) if(in[i] && must(&pc[i], &pq) && must(&pq, &pc[i]) && pc[i].n == pq.n) mu = i + 1;
         h_checked++;
         if(v) { int i = 0; while(i < n && cs[i] != v) i++; if(i == n || !in[i] || !may(&pc[i], &pq) || !may(&pq, &pc[i])) say("the clause reported is not a variant"); }
         else if(mu && !tr) { cur2 = cs[mu - 1]; say("a variant in the set was not found"); }
      }
      cur1 = cur2 = NULL;
      if(!clean()) { cur1 = q; say("bindings left behind"); w_clear(); }
      PStackFree(st); ClauseFree(q);
   }
   for(int i = 0; i < n; i++) if(!unchanged(&pc[i], cs[i])) { cur1 = cs[i]; say("looking for subsumed clauses changed a clause"); }
   for(int i = 0; i < m; i++) if(all[i]->set) ClauseSetExtractEntry(all[i]);
   for(int i = 0; i < m; i++) ClauseFree(all[i]);
   ClauseSetFree(set); ClauseSetFree(ax);
   if(spec) FVCollectFree(spec);
   cur_feat = -1;
}

/* unit sets: subsumption and cutting off literals */
static void units(void)
{
   Clause_p cs[NSET]; PC pc[NSET], pq; int n = 1 + rnd(NSET - 1), in[NSET];
   ClauseSet_p set = ClauseSetAlloc();
   set->demod_index = PDTreeAlloc(h_tb);
   for(int i = 0; i < n; i++)
   {
      do { cs[i] = cl_mk(1, rnd(3), 0, 3); pc_of(cs[i], &pc[i]); if(trivial(&pc[i])) ClauseFree(cs[i]); } while(trivial(&pc[i]));
      prep(cs[i]); pc_of(cs[i], &pc[i]); ClauseSetPDTIndexedInsert(set, cs[i]); in[i] = 1;
   }
   for(int t = 0; t < 6; t++)
   {
      int z = rnd(n);
      if(rnd(3) == 0) { if(in[z]) { ClauseSetExtractEntry(cs[z]); in[z] = 0; } else { ClauseSetPDTIndexedInsert(set, cs[z]); in[z] = 1; } }
      Clause_p q = cl_mk(rnd(2), 1, 0, 3);
      for(int k = 1 + rnd(3); k > 0; k--) { Clause_p s = special(cs[rnd(n)], rnd(3), 3); Eqn_p *e = &q->literals; while(*e) e = &(*e)->next; *e = s->literals; s->literals = NULL; ClauseFree(s); }
      for(Eqn_p e = q->literals; e; e = e->next) if(rnd(3) == 0) EqnFlipProp(e, EPIsPositive);
      ClauseRecomputeLitCounts(q);
      if(pl_of(q->literals, pq.l) > 8) { ClauseFree(q); continue; }
      prep(q); pc_of(q, &pq);
      if(trivial(&pq)) { ClauseFree(q); continue; }
      StrongUnitForwardSubsumption = rnd(3) == 0;
      PC us[NSET]; int nu = 0;
      for(int i = 0; i < n; i++) if(in[i]) us[nu++] = pc[i];
      what = StrongUnitForwardSubsumption ? "does a unit subsume (strongly)" : "does a unit subsume"; cur1 = q; cur2 = NULL;
      Clause_p r = UnitClauseSetSubsumesClause(set, q);
      h_checked++;
      int ri = 0; while(ri < n && cs[ri] != r) ri++;
      if(r)
      {
         if(ri == n || !in[ri]) say("the subsuming unit is not in the set");
         else
         {
            int ok = may(&pc[ri], &pq);
            if(!ok && StrongUnitForwardSubsumption) for(int j = 0; j < pq.n; j++) if(pq.l[j].pos && parstep(us, nu, pq.l[j].l, pq.l[j].r)) ok = 1;
            cur2 = cs[ri];
            if(!ok) say("the unit reported does not subsume the clause");
         }
      }
      else for(int i = 0; i < n; i++) if(in[i] && must(&pc[i], &pq)) { cur2 = cs[i]; say("a unit that subsumes the clause was not found"); }
      if(!unchanged(&pq, q)) say("looking for a subsuming unit changed the clause");
      /* cutting */
      for(int neg = 0; neg < 2; neg++)
      {
         pc_of(q, &pq);
         what = neg ? "cut positive literals of (before the second clause)" : "cut negative literals of (before the second clause)";
         Clause_p old = ClauseCopy(q, h_tb); cur1 = old; cur2 = q;
         bool empty = neg ? ClauseNegativeSimplifyReflect(set, q) : ClausePositiveSimplifyReflect(set, q);
         h_checked++;
         PC now; pc_of(q, &now);
         if(empty != (now.n == 0)) say("wrong report of an empty clause");
         int j = 0;
         for(int i = 0; i < pq.n; i++)
         {
            PL *l = &pq.l[i];
            if(j < now.n && now.l[j].cell == l->cell)
            {
               if(!treesame(l->l, now.l[j].l) || !treesame(l->r, now.l[j].r) || l->pos != now.l[j].pos) say("a literal that stays was changed");
               if(l->pos == neg) for(int k = 0; k < nu; k++) if(us[k].l[0].pos == !neg && pair(&us[k].l[0], l->l, l->r, 0)) say("a literal that a unit contradicts was kept");
               j++; continue;
            }
            int ok = 0;
            if(l->pos == neg)
            {
               for(int k = 0; k < nu; k++) if(us[k].l[0].pos == !neg) ok |= neg ? pair(&us[k].l[0], l->l, l->r, 0) || pair(&us[k].l[0], l->l, l->r, 1) : onestep(&us[k].l[0], l->l, l->r);
               if(!neg && !ok && StrongUnitForwardSubsumption) ok = parstep(us, nu, l->l, l->r);
            }
            if(!ok) say("a literal was cut that no unit contradicts");
         }
         if(j != now.n) say("literals were added or moved");
         int pn = 0; for(int k = 0; k < now.n; k++) pn += now.l[k].pos;
         if(q->pos_lit_no != pn || q->neg_lit_no != now.n - pn) say("literal counts are wrong after cutting");
         ClauseFree(old); cur1 = cur2 = NULL;
      }
      if(!clean()) { cur1 = q; say("bindings left behind"); w_clear(); }
      ClauseFree(q);
   }
   for(int i = 0; i < n; i++) if(!unchanged(&pc[i], cs[i])) { cur1 = cs[i]; say("a unit was changed"); }
   for(int i = 0; i < n; i++) { if(in[i]) ClauseSetExtractEntry(cs[i]); ClauseFree(cs[i]); }
   ClauseSetFree(set);
   StrongUnitForwardSubsumption = false;
}

int main(int argc, char **argv)
{
   long rounds = argc > 1 ? atol(argv[1]) : 400, per = argc > 2 ? atol(argv[2]) : 60;
   cl_init(); h_describe = describe; OutputLevel = 0;
   for(long r = 0; r < rounds; r++)
   {
      cl_order(r % 8); w_clear();
      for(long k = 0; k < per; k++)
      {
         npool = 0;
         PC a, b;
         Clause_p c = cl_mk(rnd(12) ? 1 + rnd(4) : 0, 1 + rnd(2), 0, 3), d = rnd(6) ? special(c, rnd(3), 3) : cl_mk(1 + rnd(5), 1 + rnd(2), 0, 3);
         prep(c); prep(d); pc_of(c, &a); pc_of(d, &b);
         cur1 = c; cur2 = d; what = "does the first subsume the second:";
         bool g = ClauseSubsumesClause(c, d);
         h_checked++;
         if(g && !may(&a, &b)) say("reported as subsumed but no instance of the first clause is part of the second");
         if(!g && must(&a, &b)) say("subsumption not found");
         if(!clean()) { say("bindings left behind"); w_clear(); }
         if(!unchanged(&a, c) || !unchanged(&b, d)) say("the test changed a clause");
         if(a.n == 1) { bool u = UnitClauseSubsumesClause(c, d); if(u != g) say("unit subsumption disagrees"); }
         if(a.n == 1 && b.n)
         {
            Eqn_p x = c->literals, y = d->literals;
            what = "single literals:";
            PL *p = &a.l[0], *q = &b.l[0];
            int dir = pair(p, q->l, q->r, 0), rev = pair(p, q->l, q->r, 1);
            int equ = (x->rterm != h_tb->true_term) == (y->rterm != h_tb->true_term);
            if(equ) { if(EqnSubsumeP(x, y) != (dir || (!EqnIsOriented(x) && rev))) say("EqnSubsumeP is wrong");
                      if(LiteralSubsumeP(x, y) != (p->pos == q->pos && (dir || (!EqnIsOriented(x) && rev)))) say("LiteralSubsumeP is wrong"); }
            h_checked++;
            if(!clean()) { say("bindings left behind"); w_clear(); }
         }
         cur1 = cur2 = NULL;
         ClauseFree(c); ClauseFree(d);
      }
      static int feats[] = {0, FVIACFeatures, FVISSFeatures, FVIAllFeatures, FVIBillFeatures, FVIBillPlusFeatures, FVIACFold, FVIACStagger, FVICollectFeatures};
      for(int k = 0; k < 4; k++) { npool = 0; sets(feats[rnd(9)]); npool = 0; units(); }
   }
   return h_done();
}
