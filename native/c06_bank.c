/* C06: random histories of insertions, replacements and garbage collections on one term bank, against interned plain trees */
#include "world.h"
#include <cte_replace.h>

/* interned trees: equal trees have equal numbers */
typedef struct { long f; Type_p ty; int n; int *a; long v, fc; Term_p cell; int next; int mark; } T;
#define HB (1 << 18)
static T *T_; static int tn, tcap; static int *hb;
static int mkt(long f, Type_p ty, int n, int *a)
{
   unsigned long h = f * 2654435761UL + (unsigned long)(f < 0 ? (size_t)ty >> 4 : 0);
   for(int i = 0; i < n; i++) h = h * 1000003UL + a[i];
   h ^= h >> 21; h %= HB;
   for(int i = hb[h]; i >= 0; i = T_[i].next)
      if(T_[i].f == f && T_[i].n == n && (f > 0 || T_[i].ty == ty) && !memcmp(T_[i].a, a, sizeof(int) * n)) return i;
   if(tn == tcap) T_ = realloc(T_, sizeof(T) * (tcap *= 2));
   T *r = &T_[tn];
   r->f = f; r->ty = ty; r->n = n; r->a = malloc(sizeof(int) * (n + 1)); memcpy(r->a, a, sizeof(int) * n);
   r->v = f < 0; r->fc = f > 0; r->cell = NULL; r->mark = 0;
   for(int i = 0; i < n; i++) { r->v += T_[a[i]].v; r->fc += T_[a[i]].fc; }
   r->next = hb[h]; hb[h] = tn;
   return tn++;
}
/* the tree of (t, deref); old is replaced by the tree rid if it is met; shift: variables go to their alternates */
static int val(Term_p t, int d, Term_p old, int rid, int shift)
{
   if(old && t == old) return rid;
   while(d && t->binding) { t = t->binding; if(d == 1) d = 0; }
   int a[WWIDE + 1];
   for(int i = 0; i < t->arity; i++) a[i] = val(t->args[i], d, old, rid, shift);
   return mkt(t->f_code < 0 && shift ? t->f_code + 1 : t->f_code, t->type, t->arity, a);
}
static char *cur = ""; static Term_p curt;
static void desc(void) { printf("in %s on ", cur); if(curt) h_put(stdout, curt, 0); }
static long nlive;
static void fail(char *what, Term_p t)
{
   FAIL_BEGIN;
   printf("property=C06 %s ", what); if(curt) desc(); printf(" bindings:"); putbind(); if(t) { printf("; cell "); h_put(stdout, t, 0); printf(" weight %ld v_count %d f_count %d properties %x", t->weight, (int)t->v_count, (int)t->f_count, (unsigned)t->properties); }
   FAIL_END;
}
/* every cell of a result: the one cell of its tree, with the right cached attributes */
static int visit(Term_p t)
{
   int a[WWIDE + 1];
   for(int i = 0; i < t->arity; i++) a[i] = visit(t->args[i]);
   int id = mkt(t->f_code, t->type, t->arity, a);
   T *x = &T_[id];
   if(x->cell == t) return id;
   if(x->cell) { fail("the bank holds two cells for the same term", t); return id; }
   x->cell = t;
   if(t->f_code > 0) nlive++;
   if(t->v_count != x->v || t->f_count != x->fc || t->weight != x->v * DEFAULT_VWEIGHT + x->fc * DEFAULT_FWEIGHT) fail("wrong cached weight or counts", t);
   if(!TermIsShared(t) || TermIsGround(t) != (x->v == 0)) fail("wrong sharing or groundness flag", t);
   if(t->f_code > 0 && w_symno(t->f_code) >= 0 && t->type != w_sort[w_sym[w_symno(t->f_code)].res]) fail("wrong sort", t);
   return id;
}
static Term_p pool[5000]; static int pid[5000]; static int pn;
static void keep(Term_p t, int id) { int k = pn < 4000 ? pn++ : (int)rnd(4000); pool[k] = t; pid[k] = id; }
static void check(Term_p r, int want)
{
   h_checked++;
   int got = visit(r);
   if(got != want) { fail("the inserted term does not denote the term asked for", r); return; }
   if(TBFind(h_tb, r) != r && r->f_code > 0) fail("an inserted term is not found again", r);
   if(pn) { int k = rnd(pn); if(visit(pool[k]) != pid[k]) fail("an insertion changed another term of the bank", pool[k]); }
   keep(r, want);
}
static Term_p rterm(int sort) { return rnd(60) == 0 && sort == 0 ? w_comb(20 + rnd(60), rnd(8), 1 + rnd(5), rnd(2)) : w_mk(rnd(5), sort, rnd(8), 1 + rnd(6)); }
static Term_p sub(Term_p t) { while(t->arity && rnd(4)) t = t->args[rnd(t->arity)]; return t; }
static int so(Term_p t) { return t->type == w_sort[0] ? 0 : t->type == w_sort[1] ? 1 : 2; }

static int alt(Term_p t) { if(t->f_code < 0) return t->f_code % 2; for(int i = 0; i < t->arity; i++) if(alt(t->args[i])) return 1; return 0; }

static void mark(int id) { if(T_[id].mark) return; T_[id].mark = 1; for(int i = 0; i < T_[id].n; i++) mark(T_[id].a[i]); }
static void gc(void)
{
   cur = "garbage collection"; curt = NULL;
   int all = rnd(3) == 0, kept = 0;
   for(int i = 0; i < tn; i++) T_[i].mark = 0;
   mark(mkt(SIG_TRUE_CODE, h_types->bool_type, 0, NULL)); mark(mkt(SIG_FALSE_CODE, h_types->bool_type, 0, NULL));
   /* a kept term may be linked to the term it rewrites to */
   Term_p from = NULL, to = NULL; int toid = 0, fromid = 0;
   if(pn > 2) { int i = rnd(pn), j = rnd(pn); if(pool[i]->f_code > 2 && pool[i] != pool[j]) { from = pool[i]; fromid = pid[i]; to = pool[j]; toid = pid[j]; TermAddRWLink(from, to, NULL, false, RWAlwaysRewritable); } }
   for(int i = 0; i < pn; i++)
   {
      if(!all && rnd(3)) continue;
      TBGCMarkTerm(h_tb, pool[i]); mark(pid[i]);
      pool[kept] = pool[i]; pid[kept++] = pid[i];
   }
   if(from && T_[fromid].mark) mark(toid);
   long before = TBNonVarTermNodes(h_tb);
   long rec = TBGCSweep(h_tb);
   pn = kept; nlive = 0; long args = 0;
   for(int i = 0; i < tn; i++)
   {
      if(T_[i].f < 0) continue;
      if(!T_[i].mark) { T_[i].cell = NULL; continue; }
      if(T_[i].cell) { nlive++; args += T_[i].n; }
   }
   if(from && T_[fromid].mark) { if(visit(to) != toid) fail("the term a kept term rewrites to did not survive garbage collection", NULL); TermDeleteRWLink(from); }
   if(h_tb->term_store.arg_count != args) fail("wrong number of argument cells after garbage collection", NULL);
   if(TBNonVarTermNodes(h_tb) != nlive) fail("after garbage collection the number of cells is not the number of reachable terms", NULL);
   if(before - rec != TBNonVarTermNodes(h_tb)) fail("the number of recovered cells is wrong", NULL);
   for(int i = 0; i < pn; i++) if(pool[i]->f_code > 0 && (TBFind(h_tb, pool[i]) != pool[i] || visit(pool[i]) != pid[i])) fail("a marked term did not survive garbage collection", NULL);
   h_checked++;
}

int main(int argc, char **argv)
{
   long rounds = argc > 1 ? atol(argv[1]) : 40000, gcs = argc > 2 ? atol(argv[2]) : 10;
   T_ = malloc(sizeof(T) * (tcap = 1 << 16)); hb = malloc(sizeof(int) * HB);
   for(int i = 0; i < HB; i++) hb[i] = -1;
   w_init();
   h_describe = desc;
   TB_p other = TBAlloc(h_sig);             /* a second bank to copy from */
   TB_p mine = h_tb;
   visit(mine->true_term); visit(mine->false_term);
   for(long r = 0; r < rounds; r++)
   {
      int sort = rnd(3);
      Term_p t = rterm(sort);
      curt = NULL; cur = "construction";
      check(t, val(t, 0, NULL, 0, 0));
      if(pn && rnd(2)) { t = pool[rnd(pn)]; if(t->f_code == SIG_TRUE_CODE || t->f_code == SIG_FALSE_CODE) continue; }
      curt = t;
      /* bindings: variables 0..9 to terms over 10..19, those to terms over 20..24 */
      int lev = rnd(3);
      for(int i = 0; i < (lev ? lev * 10 : 0); i++) for(int s = 0; s < WSORTS; s++) if(rnd(3) == 0)
      {
         Term_p b = rnd(3) ? w_mk(rnd(3), s, i < 10 ? 10 : 20, 5) : w_var[s][(i < 10 ? 10 : 20) + rnd(5)];
         check(b, val(b, 0, NULL, 0, 0)); w_var[s][i]->binding = b;
      }
      Term_p old = rnd(4) ? sub(t) : rterm(rnd(3)), repl = rterm(so(old)), res;
      check(old, val(old, 0, NULL, 0, 0)); check(repl, val(repl, 0, NULL, 0, 0));
      if(old->f_code == SIG_TRUE_CODE || old->f_code == SIG_FALSE_CODE) old = repl;
      int d = rnd(3), rid = val(repl, 0, NULL, 0, 0);
      switch(rnd(12))
      {
      case 0: cur = "TBInsert"; res = TBInsert(mine, t, d); check(res, val(t, d, NULL, 0, 0)); break;
      case 1: cur = "TBInsertNoProps"; res = TBInsertNoProps(mine, t, d); check(res, val(t, d, NULL, 0, 0)); break;
      case 2: cur = "TBInsertIgnoreVar"; res = TBInsertIgnoreVar(mine, t, d); check(res, val(t, d, NULL, 0, 0)); break;
      case 3: cur = "TBInsertOpt"; res = TBInsertOpt(mine, t, d); check(res, val(t, d, NULL, 0, 0)); break;
      case 4: cur = "TBInsertInstantiated"; w_clear();
              for(int s = 0; s < WSORTS; s++) for(int i = 0; i < 10; i++) if(rnd(2)) { Term_p b = w_mk(rnd(3), s, 10, 5); check(b, val(b, 0, NULL, 0, 0)); w_var[s][i]->binding = b; }
              res = TBInsertInstantiated(mine, t); check(res, val(t, 1, NULL, 0, 0)); break;
      case 5: cur = "TBInsertInstantiatedDeref"; res = TBInsertInstantiatedDeref(mine, t, d); check(res, val(t, d, NULL, 0, 0)); break;
      case 6: cur = "TBInsertRepl"; res = TBInsertRepl(mine, t, d, old, repl); check(res, val(t, d, old, rid, 0)); break;
      case 7: case 8: cur = "TBInsertReplPlain"; res = TBInsertReplPlain(mine, t, old, repl); check(res, val(t, 0, old, rid, 0)); break;
      case 9: cur = "TBInsertDisjoint"; w_clear(); if(!alt(t)) { res = TBInsertDisjoint(mine, t); check(res, val(t, 0, NULL, 0, 1)); } break;
      case 10: { cur = "TBInsertNoProps into another bank and back"; w_clear();
              h_tb = other; Term_p o = TBInsertNoProps(other, t, 0); h_tb = mine;
              if(o->f_code > 0 && o->arity && o == t) fail("two banks share a cell", o);
              res = TBInsert(mine, o, 0); check(res, val(t, 0, NULL, 0, 0)); if(res != t) fail("copying to another bank and back gives a different cell", res); break; }
      case 11: { cur = "TBFind"; w_clear(); Term_p c = TermTopCopy(t); int want = val(t, 0, NULL, 0, 0);
              Term_p g = t->f_code > 0 ? TBFind(mine, c) : t; if(g != t) fail("a copy of a term is not found", t);
              if(t->arity == 2 && t->args[0] != t->args[1] && t->args[0]->type == t->args[1]->type)
              { c->args[0] = t->args[1]; c->args[1] = t->args[0]; int a[2] = {visit(t->args[1]), visit(t->args[0])}; int id = mkt(t->f_code, t->type, 2, a);
                g = TBFind(mine, c); if(g != T_[id].cell) fail(g ? "a term that was not inserted is found" : "an inserted term is not found", t); }
              TermTopFree(c); if(visit(t) != want) fail("searching changed a term", t); break; }
      }
      w_clear();
      if(rnd(1000) == 0 && TBNonVarTermNodes(mine) != nlive) { curt = NULL; fail("the number of cells is not the number of different terms", NULL); }
      if(rnd(rounds / gcs + 1) == 0) gc();
   }
   if(TBNonVarTermNodes(mine) != nlive) fail("the number of cells is not the number of different terms", NULL);
   gc();
   return h_done();
}
