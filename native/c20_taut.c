/* C20: tautology tests, removal of duplicate and false literals, AC tests and condensation, on random clauses.
   Oracles: congruence closure over the subterms of the clause, plain comparison of trees, flattening of AC terms,
   enumeration of literal maps. */
#include "clause.h"
#include <ccl_tautologies.h>
#include <ccl_condensation.h>
#include <ccl_clausefunc.h>
#include <ccl_eqnlist.h>
#include <cte_acterms.h>

static Eqn_p cur; static char *what = "";
static TB_p work;
static PL orig[64]; static int norig;
static void nodeput(Node *t)
{
   if(t->f < 0) { printf("X%ld", -t->f); return; }
   printf("%s", SigFindName(h_sig, t->f));
   for(int i = 0; i < t->n; i++) { printf(i ? "," : "("); nodeput(t->a[i]); }
   if(t->n) printf(")");
}
static void describe(void)
{
   printf("%s ", what);
   for(int i = 0; i < norig; i++) { if(i) printf(" | "); nodeput(orig[i].l); printf(orig[i].pos ? "=" : "!="); nodeput(orig[i].r); }
   if(!norig) printf("<empty>");
}
static void say(char *s) { FAIL_BEGIN printf("%s: ", s); describe(); if(cur) { printf("; now "); cl_put(cur); } FAIL_END; }

/* ---- congruence closure */
#define CC 4096
static struct { long f; int n, a[80]; int rep; } cc[CC]; static int ncc; static long ccobj[CC];
static int cc_find(int i) { while(cc[i].rep != i) i = cc[i].rep; return i; }
static int isobj(long f) { return f > 0 && SigIsAnyFuncPropSet(h_sig, f, h_sig->distinct_props); }
static int cc_add(Node *t)
{
   int a[80];
   for(int i = 0; i < t->n; i++) { a[i] = cc_add(t->a[i]); if(a[i] < 0) return -1; }
   for(int j = 0; j < ncc; j++) if(cc[j].f == t->f && cc[j].n == t->n && !memcmp(cc[j].a, a, sizeof(int) * t->n)) return j;
   if(ncc == CC) return -1;
   cc[ncc].f = t->f; cc[ncc].n = t->n; memcpy(cc[ncc].a, a, sizeof(int) * t->n); cc[ncc].rep = ncc;
   return ncc++;
}
/* 1: valid, 2: valid without knowing that $true, $false and different objects differ */
static int cc_valid(PL *l, int n)
{
   int s[64], t[64];
   ncc = 0;
   Node tr = {0}; tr.f = SIG_TRUE_CODE; Node fa = {0}; fa.f = SIG_FALSE_CODE;
   int T = cc_add(&tr), F = cc_add(&fa);
   for(int i = 0; i < n; i++) { s[i] = cc_add(l[i].l); t[i] = cc_add(l[i].r); if(s[i] < 0 || t[i] < 0) return -1; }
   for(int i = 0; i < n; i++) if(!l[i].pos) cc[cc_find(s[i])].rep = cc_find(t[i]);
   for(int ch = 1; ch;)
   {
      ch = 0;
      for(int i = 0; i < ncc; i++) for(int j = 0; j < i; j++) if(cc[i].f == cc[j].f && cc[i].n == cc[j].n && cc_find(i) != cc_find(j))
      {
         int eq = 1;
         for(int k = 0; k < cc[i].n && eq; k++) eq = cc_find(cc[i].a[k]) == cc_find(cc[j].a[k]);
         if(eq && cc[i].n) { cc[cc_find(i)].rep = cc_find(j); ch = 1; }
      }
   }
   for(int i = 0; i < n; i++) if(l[i].pos && cc_find(s[i]) == cc_find(t[i])) return 2;
   if(cc_find(T) == cc_find(F)) return 1;
   for(int i = 0; i < ncc; i++) for(int j = 0; j < i; j++) if(isobj(cc[i].f) && isobj(cc[j].f) && cc[i].f != cc[j].f && cc_find(i) == cc_find(j)) return 1;
   return 0;
}
static int distinct(PL *x) { return !x->l->n && !x->r->n && isobj(x->l->f) && isobj(x->r->f) && x->l->f != x->r->f; }
static int lit_true(PL *x) { return x->pos ? treesame(x->l, x->r) : distinct(x); }
static int lit_false(PL *x) { return x->pos ? distinct(x) : treesame(x->l, x->r); }
static int compl(PL *a, PL *b) { PL c = *a; c.pos = !c.pos; return pl_same(&c, b); }
static int same_lits(PL *a, int n, Eqn_p l)
{
   PL b[64]; int m = pl_of(l, b);
   if(m != n) return 0;
   for(int i = 0; i < n; i++) if(a[i].cell != b[i].cell || a[i].pos != b[i].pos || !treesame(a[i].l, b[i].l) || !treesame(a[i].r, b[i].r) || a[i].p != b[i].p) return 0;
   return 1;
}

/* ---- terms modulo associativity and commutativity */
static int isac(long f) { return f > 0 && SigQueryFuncProp(h_sig, f, FPIsAC); }
static int iscom(long f) { return f > 0 && SigQueryFuncProp(h_sig, f, FPCommutative); }
static int ac_flat(Node *t, long f, Node **out, int n) { if(t->f == f && t->n == 2) { n = ac_flat(t->a[0], f, out, n); return ac_flat(t->a[1], f, out, n); } if(n < 200) out[n++] = t; return n; }
static int ac_same(Node *s, Node *t)
{
   if(s->f != t->f || s->n != t->n) return 0;
   if(isac(s->f))
   {
      Node *a[200], *b[200]; int used[200] = {0};
      int n = ac_flat(s, s->f, a, 0), m = ac_flat(t, t->f, b, 0);
      if(n != m) return 0;
      for(int i = 0; i < n; i++) { int j; for(j = 0; j < m; j++) if(!used[j] && ac_same(a[i], b[j])) { used[j] = 1; break; } if(j == m) return 0; }
      return 1;
   }
   if(iscom(s->f) && s->n == 2) return (ac_same(s->a[0], t->a[0]) && ac_same(s->a[1], t->a[1])) || (ac_same(s->a[0], t->a[1]) && ac_same(s->a[1], t->a[0]));
   for(int i = 0; i < s->n; i++) if(!ac_same(s->a[i], t->a[i])) return 0;
   return 1;
}
/* shuffle a term modulo AC */
static Term_p ac_shuffle(Term_p t)
{
   if(t->f_code < 0 || !t->arity) return t;
   int k = w_symno(t->f_code);
   Term_p args[WWIDE];
   for(int i = 0; i < t->arity; i++) args[i] = ac_shuffle(t->args[i]);
   if(k < 0) return t;
   if(isac(t->f_code) && rnd(2)) { Term_p x = args[0]; args[0] = args[1]; args[1] = x; }
   if(isac(t->f_code) && rnd(2) && args[0]->f_code == t->f_code) { Term_p in[2] = {args[0]->args[1], args[1]}, a0 = args[0]->args[0]; Term_p out[2] = {a0, w_app(k, in)}; return w_app(k, out); }
   return w_app(k, args);
}

/* ---- literal maps: does some substitution take every literal of a to a literal of b (or, if allowed, make it false)? */
static int setmap(PL *a, int i, int n, PL *b, int m, TS *s, int *fuel)
{
   if(i == n) return 1;
   if(--*fuel < 0) return -1;
   for(int j = 0; j < m; j++) if(a[i].pos == b[j].pos) for(int sw = 0; sw < 2; sw++)
   {
      TS t = *s;
      if(ts_match(&t, a[i].l, sw ? b[j].r : b[j].l) && ts_match(&t, a[i].r, sw ? b[j].l : b[j].r)) { int r = setmap(a, i + 1, n, b, m, &t, fuel); if(r) return r; }
   }
   return 0;
}

static Term_p obj[3];
static Eqn_p mklits(int n, int d, int nv)
{
   Eqn_p l = cl_lits(n, d, 0, nv);
   for(Eqn_p h = l; h; h = h->next) if(EqnIsEquLit(h) && h->lterm->type == w_sort[0] && rnd(10) == 0)
   {
      if(rnd(2)) h->lterm = obj[rnd(3)];
      if(rnd(2)) h->rterm = obj[rnd(3)];
   }
   return l;
}
/* literals of small ground terms, so that several equations interact */
static Eqn_p mkcc(int n)
{
   Eqn_p res = NULL; int nv = rnd(2) ? 2 : 0;
   for(int i = 0; i < n; i++)
   {
      Eqn_p e;
      if(rnd(4)) { Term_p l = w_mk(rnd(3), 0, 0, nv), r = w_mk(rnd(2), 0, 0, nv); e = EqnAlloc(l, r, h_tb, rnd(3) == 0); }
      else e = EqnAlloc(w_mk(1, 2, 0, nv), h_tb->true_term, h_tb, rnd(2));
      e->next = res; res = e;
   }
   return res;
}
static void begin(Eqn_p l) { npool = 0; norig = pl_of(l, orig); cur = NULL; }

static void counts(Clause_p c)
{
   int p = 0, n = 0;
   for(Eqn_p l = c->literals; l; l = l->next) if(EqnIsPositive(l)) p++; else n++;
   if(c->pos_lit_no != p || c->neg_lit_no != n) say("literal counts are wrong");
}

static void taut(Clause_p c)
{
   begin(c->literals);
   int comp = 0, tru = 0;
   for(int i = 0; i < norig; i++) { tru |= lit_true(&orig[i]); for(int j = 0; j < i; j++) comp |= compl(&orig[i], &orig[j]); }
   what = "valid by a single literal or a complementary pair?"; h_checked++;
   if(!!EqnListFindTrue(c->literals) != tru) say(tru ? "a true literal is not found" : "a literal is called true that is not");
   if(EqnListIsTrivial(c->literals) != comp) say(comp ? "complementary literals are not found" : "complementary literals are reported but there are none");
   bool lg = EqnLongListIsTrivial(c->literals);
   if(lg != comp) say(comp ? "complementary literals are not found (long clause)" : "complementary literals are reported but there are none (long clause)");
   if(ClauseIsTrivial(c) != (tru || comp)) say("ClauseIsTrivial is wrong");
   what = "valid?"; h_checked++;
   bool t = ClauseIsTautology(work, c);
   int v = cc_valid(orig, norig);
   if(v == 0 && t) say("called a tautology but it is not valid");
   if(!t && tru) say("a clause with a true literal is not called a tautology");
   if(!same_lits(orig, norig, c->literals)) { cur = c->literals; say("the test changed the clause"); }
   static long n; if(++n % 500 == 0) { TBFree(work); work = TBAlloc(h_sig); }
}
static void removal(void)
{
   int n = rnd(20) ? rnd(9) : 10 + rnd(20), k = rnd(4);
   Eqn_p l = mklits(n, 1 + rnd(2), 3);
   begin(l);
   /* expected */
   PL exp[64]; int ne = 0;
   for(int i = 0; i < norig; i++)
   {
      int out = 0;
      if(k != 0 && lit_false(&orig[i])) out = 1;
      if(k != 1) for(int j = 0; j < ne && !out; j++) out = pl_same(&exp[j], &orig[i]);
      if(!out) exp[ne++] = orig[i];
   }
   h_checked++;
   if(k == 0) { what = "remove duplicates:"; int r = rnd(2) ? EqnListRemoveDuplicates(l) : EqnListRemoveDuplicates1(l); cur = l; if(r != norig - ne) say("wrong number reported"); if(!same_lits(exp, ne, l)) say("wrong literals removed"); EqnListFree(l); }
   else if(k == 1) { what = "remove false literals:"; int r = EqnListRemoveResolved(&l); cur = l; if(r != norig - ne) say("wrong number reported"); if(!same_lits(exp, ne, l)) say("wrong literals removed"); EqnListFree(l); }
   else
   {
      what = "remove superfluous literals:";
      Clause_p c = ClauseAlloc(l); ClauseSet_p set = NULL;
      if(rnd(2)) { set = ClauseSetAlloc(); ClauseSetInsert(set, c); }
      begin(c->literals);     /* ClauseAlloc puts positive literals first */
      ne = 0;
      for(int i = 0; i < norig; i++) { int out = lit_false(&orig[i]); for(int j = 0; j < ne && !out; j++) out = pl_same(&exp[j], &orig[i]); if(!out) exp[ne++] = orig[i]; }
      int r = ClauseRemoveSuperfluousLiterals(c);
      cur = c->literals;
      if(r != norig - ne) say("wrong number reported");
      if(!same_lits(exp, ne, c->literals)) say("wrong literals removed");
      counts(c);
      if(set) { if(set->literals != ne) say("the clause set's literal count is wrong"); ClauseSetExtractEntry(c); ClauseSetFree(set); }
      ClauseFree(c);
   }
   cur = NULL;
}
static void acs(void)
{
   FunCode f = w_sym[7].f, k = w_sym[11].f;
   FunctionProperties fp = h_sig->f_info[f].properties, kp = h_sig->f_info[k].properties;
   SigSetFuncProp(h_sig, f, FPIsAC); if(rnd(2)) SigSetFuncProp(h_sig, k, FPIsAC); 
   if(rnd(2)) SigSetFuncProp(h_sig, k, FPCommutative);
   Term_p s = w_mk(2 + rnd(3), rnd(3) == 0, 0, 3), t = s;
   for(int i = rnd(5); i >= 0; i--) t = ac_shuffle(t);
   if(rnd(3) == 0) t = w_mutate(t, t->type == w_sort[1], 0, 3);
   Eqn_p e = EqnAlloc(s, t, h_tb, rnd(2)); e->next = NULL;
   begin(e); what = "equal modulo AC?"; h_checked++;
   int want = ac_same(orig[0].l, orig[0].r);
   bool got = EqnIsACTrivial(e);
   if(got && !want) say("called AC-equal but it is not");
   if(!got && want) say("AC equality not recognised");
   EqnFree(e);
   Eqn_p l = cl_lits(rnd(4), 2, 0, 3);
   for(int i = 0; i < 2; i++) { s = w_mk(2 + rnd(2), 0, 0, 3); t = ac_shuffle(ac_shuffle(s)); e = EqnAlloc(s, t, h_tb, rnd(3) == 0); e->next = l; l = e; }
   Clause_p c = ClauseAlloc(l); ClauseSet_p set = NULL;
   if(rnd(2)) { set = ClauseSetAlloc(); ClauseSetInsert(set, c); }
   begin(c->literals); what = "resolve modulo AC:"; h_checked++;
   PL exp[64]; int ne = 0, triv = 0;
   for(int i = 0; i < norig; i++) { int a = ac_same(orig[i].l, orig[i].r); if(!(a && !orig[i].pos)) exp[ne++] = orig[i]; triv |= a && orig[i].pos; }
   if(ClauseIsACRedundant(c) && !triv) say("called AC-redundant but no literal holds modulo AC");
   int r = ClauseRemoveACResolved(c);
   cur = c->literals;
   if(r != norig - ne) say("wrong number reported");
   if(!same_lits(exp, ne, c->literals)) say("wrong literals removed");
   counts(c);
   if(set) { if(set->literals != ne) say("the clause set's literal count is wrong"); ClauseSetExtractEntry(c); ClauseSetFree(set); }
   ClauseFree(c); cur = NULL;
   h_sig->f_info[f].properties = fp; h_sig->f_info[k].properties = kp;
}
static void condense(void)
{
   /* a clause with literals that are instances of others */
   Eqn_p l = cl_lits(1 + rnd(3), 1 + rnd(2), 0, 3);
   int n = EqnListLength(l);
   for(int i = rnd(3); i >= 0; i--)
   {
      Eqn_p o = l; for(int k = rnd(n); k; k--) o = o->next;
      Subst_p sub = SubstAlloc();
      for(int v = 0; v < 3; v++) if(rnd(2)) SubstAddBinding(sub, w_var[0][v], rnd(2) ? w_var[0][rnd(4)] : w_mk(1, 0, 3, 2));
      for(int v = 0; v < 3; v++) if(w_var[0][v]->binding == w_var[0][v]) w_var[0][v]->binding = NULL;
      for(int v = 0; v < 3; v++) { Term_p b = w_var[0][v]->binding; if(b && b->f_code < 0 && b->binding) w_var[0][v]->binding = NULL; }
      Eqn_p c = EqnCopy(o, h_tb); c->next = l;
      SubstDelete(sub);
      l = c; n++;
   }
   w_clear();
   Clause_p c = ClauseAlloc(l);
   EqnListOrient(cl_ocb, c->literals);
   begin(c->literals); what = "condense:"; h_checked++;
   int was = norig;
   bool r = Condense(c);
   cur = c->literals;
   PL now[64]; int nn = pl_of(c->literals, now);
   counts(c);
   for(int s = 0; s < WSORTS; s++) for(int i = 0; i < WV; i++) if(w_var[s][i]->binding) { say("bindings left behind"); w_clear(); }
   if(!r) { int miss = 0; for(int i = 0; i < norig; i++) { int f = 0; for(int j = 0; j < nn; j++) f += orig[i].cell == now[j].cell && pl_same(&orig[i], &now[j]); miss |= f != 1; } if(miss || nn != norig) say("no condensation reported but the literals changed"); }
   else
   {
      if(nn >= was) say("not smaller");
      TS s = {{0}}; int fuel = 20000;
      /* the new clause follows: an instance of the old one, up to repeated and false literals */
      PL b[64]; int nb = 0; for(int i = 0; i < nn; i++) b[nb++] = now[i];
      s.n = 0;
      if(setmap(orig, 0, norig, b, nb, &s, &fuel) == 0)
      {
         /* a negative literal whose sides unify may have become false */
         int anyfalse = 0; for(int i = 0; i < norig; i++) if(!orig[i].pos) { TS u; u.n = 0; anyfalse |= ts_unify(&u, orig[i].l, orig[i].r); }
         if(!anyfalse) say("not an instance of the clause");
      }
      fuel = 20000; s.n = 0;
      if(setmap(now, 0, nn, orig, norig, &s, &fuel) == 0 && cc_valid(orig, norig) == 0) say("the result does not subsume the clause");
      if(c->weight != ClauseStandardWeight(c)) say("wrong clause weight");
   }
   ClauseFree(c); cur = NULL;
}

int main(int argc, char **argv)
{
   long rounds = argc > 1 ? atol(argv[1]) : 400, per = argc > 2 ? atol(argv[2]) : 60;
   cl_init(); h_describe = describe; OutputLevel = 0;
   work = TBAlloc(h_sig);
   obj[0] = h_term("\"o1\""); obj[1] = h_term("\"o2\""); obj[2] = h_term("\"o3\"");
   for(long r = 0; r < rounds; r++)
   {
      cl_order(r % 8); w_clear();
      for(long k = 0; k < per; k++)
      {
         int n = rnd(8) ? rnd(8) : 10 + rnd(40);
         Clause_p c = ClauseAlloc(rnd(2) ? mkcc(n) : mklits(n, 1 + rnd(2), 3));
         if(rnd(2)) EqnListOrient(cl_ocb, c->literals);
         taut(c); ClauseFree(c); cur = NULL;
         removal(); acs(); condense();
      }
   }
   return h_done();
}
