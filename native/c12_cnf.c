/* formula transformations and clausification against truth in finite interpretations */
#include "model.h"
#include <ccl_tcnf.h>
#include <ccl_formulafunc.h>

TFormula_p TFormulaMiniScope3(TB_p, TFormula_p, long);
TFormula_p TFormulaShiftQuantors(TB_p, TFormula_p);
TFormula_p TFormulaShiftQuantors2(TB_p, TFormula_p);
TFormula_p TFormulaMiniScope2(TB_p, TFormula_p, long);
typedef struct ast { int op, v; struct ast *a, *b; struct ftm *s, *t; } Ast;
typedef struct ftm { int sym, v; struct ftm *x; } Tm;
enum { ATOM0, ATOM1, ATOM2, NOT, AND, OR, IMPL, BIMPL, EQUIV, XOR, NAND, NOR, ALL, EX, EQ, NEQ, TRU, FLS };
static char *names[] = {"a", "b", "f"}, *preds[] = {"o", "p", "q"};
static char pool[1 << 20]; static long pos;
static void *mem(long n) { void *r = pool + pos; pos += (n + 15) & ~15L; if(pos > (long)sizeof(pool)) _exit(3); return r; }

static Tm *mktm(int d, int nv)
{
   Tm *t = mem(sizeof(Tm)); t->v = -1; t->x = NULL;
   if(nv && rnd(4)) { t->v = rnd(nv); return t; }
   t->sym = d ? rnd(3) : rnd(2);
   if(t->sym == 2) t->x = mktm(d - 1, nv);
   return t;
}
#define MAXV 4
static Ast *mk(int d, int nv)
{
   Ast *r = mem(sizeof(Ast)); r->a = r->b = NULL; r->s = r->t = NULL;
   int k = d ? rnd(15) : 0;
   if(k < 2)
   {
      int z = rnd(24);
      r->op = z < 2 ? TRU : z < 4 ? FLS : z < 6 ? ATOM0 : z < 13 ? ATOM1 : z < 19 ? ATOM2 : z < 22 ? EQ : NEQ;
      if(r->op == ATOM1 || r->op == ATOM2 || r->op == EQ || r->op == NEQ) r->s = mktm(rnd(3) == 0, nv);
      if(r->op == ATOM2 || r->op == EQ || r->op == NEQ) r->t = mktm(rnd(3) == 0, nv);
      return r;
   }
   if(k < 6 + (nv == 0))
   {
      r->op = rnd(2) ? ALL : EX;
      r->v = rnd(3) && nv < MAXV ? nv : nv ? rnd(nv) : 0;      /* now and then a variable of an outer scope */
      r->a = mk(d - 1, r->v == nv ? nv + 1 : nv);
      return r;
   }
   if(k == 7) { r->op = NOT; r->a = mk(d - 1, nv); return r; }
   static int ops[] = {AND, AND, OR, OR, IMPL, EQUIV, BIMPL, XOR, NAND, NOR};
   r->op = ops[rnd(rnd(3) ? 5 : 10)];
   r->a = mk(d - 1, nv); r->b = rnd(14) ? mk(d - 1, nv) : r->a;
   return r;
}
static char buf[1 << 18]; static long bl;
static void o(char *s) { long n = strlen(s); if(bl + n + 1 < (long)sizeof(buf)) { memcpy(buf + bl, s, n + 1); bl += n; } }
static void otm(Tm *t) { char x[8]; if(t->v >= 0) { sprintf(x, "X%d", t->v); o(x); return; } o(names[t->sym]); if(t->x) { o("("); otm(t->x); o(")"); } }
static void ofm(Ast *f)
{
   char x[16];
   switch(f->op)
   {
   case ATOM0: o("o"); return;
   case ATOM1: o("p("); otm(f->s); o(")"); return;
   case ATOM2: o("q("); otm(f->s); o(","); otm(f->t); o(")"); return;
   case EQ: otm(f->s); o("="); otm(f->t); return;
   case NEQ: otm(f->s); o("!="); otm(f->t); return;
   case TRU: o("$true"); return;
   case FLS: o("$false"); return;
   case NOT: o("~("); ofm(f->a); o(")"); return;
   case ALL: case EX: o(f->op == ALL ? "![" : "?["); sprintf(x, "X%d", f->v); o(x);
      while((f->a->op == f->op) && f->a->v != f->v && rnd(2)) { f = f->a; sprintf(x, ",X%d", f->v); o(x); }
      o("]:("); ofm(f->a); o(")"); return;
   }
   static char *ns[] = {[AND] = "&", [OR] = "|", [IMPL] = "=>", [BIMPL] = "<=", [EQUIV] = "<=>", [XOR] = "<~>", [NAND] = "~&", [NOR] = "~|"};
   int flat = (f->op == AND || f->op == OR) && f->a->op == f->op && rnd(2);
   if(!flat) o("("); ofm(f->a); if(!flat) o(")");
   o(ns[f->op]); o("("); ofm(f->b); o(")");
}
static unsigned long hn[8];
static int etm(Tm *t, signed char *e)
{
   if(t->v >= 0) return e[t->v];
   int x = t->x ? etm(t->x, e) : 0;
   return m_app(hn[t->sym], 0, m_dom, t->x ? 1 : 0, &x);
}
static int ev(Ast *f, signed char *e)
{
   int a[2];
   switch(f->op)
   {
   case ATOM0: return m_app(hn[3], 0, 2, 0, a);
   case ATOM1: a[0] = etm(f->s, e); return m_app(hn[4], 0, 2, 1, a);
   case ATOM2: a[0] = etm(f->s, e); a[1] = etm(f->t, e); return m_app(hn[5], 0, 2, 2, a);
   case EQ: return etm(f->s, e) == etm(f->t, e);
   case NEQ: return etm(f->s, e) != etm(f->t, e);
   case TRU: return 1;
   case FLS: return 0;
   case NOT: return !ev(f->a, e);
   case AND: return ev(f->a, e) && ev(f->b, e);
   case OR: return ev(f->a, e) || ev(f->b, e);
   case IMPL: return !ev(f->a, e) || ev(f->b, e);
   case BIMPL: return ev(f->a, e) || !ev(f->b, e);
   case EQUIV: return ev(f->a, e) == ev(f->b, e);
   case XOR: return ev(f->a, e) != ev(f->b, e);
   case NAND: return !(ev(f->a, e) && ev(f->b, e));
   case NOR: return !(ev(f->a, e) || ev(f->b, e));
   }
   int old = e[f->v], all = f->op == ALL, r = all;
   for(int d = 0; d < m_dom; d++) { e[f->v] = d; if(ev(f->a, e) != all) { r = !all; break; } }
   e[f->v] = old;
   return r;
}
static void desc(void) { printf("input formula %s", buf); }

/* free variables, independently */
static long fv(Term_p t, long *v, long n, long *bnd, int nb)
{
   if(t->f_code < 0)
   {
      for(int i = 0; i < nb; i++) if(bnd[i] == -t->f_code) return n;
      for(long i = 0; i < n; i++) if(v[i] == -t->f_code) return n;
      v[n++] = -t->f_code; return n;
   }
   if(t->f_code == h_sig->qex_code || t->f_code == h_sig->qall_code)
   { bnd[nb] = -t->args[0]->f_code; return fv(t->args[1], v, n, bnd, nb + 1); }
   for(int i = 0; i < t->arity; i++) n = fv(t->args[i], v, n, bnd, nb);
   return n;
}
static int nint = 6;
static void note(char *what, Term_p s, Term_p t)
{
   FAIL_BEGIN printf("%s changes the meaning: interpretation %lu with %d elements, ", what, m_id, m_dom); desc();
   printf(", before "); h_put(stdout, s, 0); printf(", after "); h_put(stdout, t, 0); FAIL_END;
}
static int same(char *what, Term_p s, Term_p t, int neg)
{
   long v[64], n, b[64], tot;
   h_checked++;
   n = fv(s, v, 0, b, 0); n = fv(t, v, n, b, 0);
   for(int k = 0; k < nint; k++)
   {
      m_id = 1000 + rnd(1000000); m_dom = 1 + (k ? 1 + rnd(5) / 3 : 0);
      tot = 1; for(long i = 0; i < n; i++) tot *= m_dom;
      if(tot > 500) continue;
      for(long q = 0; q < tot; q++)
      {
         long x = q;
         for(long i = 0; i < n; i++) { m_env[v[i]] = x % m_dom; x /= m_dom; }
         M_START;
         int r = m_form(s), r2 = m_form(t);
         if(m_over) return 1;
         if(r != (r2 ^ neg)) { note(what, s, t); return 0; }
      }
   }
   return 1;
}
static int nnf(Term_p t)
{
   FunCode f = t->f_code;
   if(f == h_sig->and_code || f == h_sig->or_code) return nnf(t->args[0]) && nnf(t->args[1]);
   if(f == h_sig->qex_code || f == h_sig->qall_code) return nnf(t->args[1]);
   return TFormulaIsLiteral(h_sig, t);
}
static int cnfshape(Term_p t, int in_or)
{
   if(t->f_code == h_sig->and_code) return !in_or && cnfshape(t->args[0], 0) && cnfshape(t->args[1], 0);
   if(t->f_code == h_sig->or_code) return cnfshape(t->args[0], 1) && cnfshape(t->args[1], 1);
   return TFormulaIsLiteral(h_sig, t);
}
static int qvars(Term_p t, long *v, int n)      /* -1: a variable is quantified twice */
{
   if(n < 0) return n;
   if(t->f_code == h_sig->qex_code || t->f_code == h_sig->qall_code)
   {
      for(int i = 0; i < n; i++) if(v[i] == -t->args[0]->f_code) return -1;
      if(n > 60) return -1;
      v[n++] = -t->args[0]->f_code;
      return qvars(t->args[1], v, n);
   }
   if(t->f_code < 0 || !m_isform(t->f_code)) return n;
   for(int i = 0; i < t->arity; i++) n = qvars(t->args[i], v, n);
   return n;
}
static int hasex(Term_p t)
{
   if(t->f_code < 0) return 0;
   if(t->f_code == h_sig->qex_code) return 1;
   for(int i = 0; i < t->arity; i++) if(hasex(t->args[i])) return 1;
   return 0;
}
static FunCode base;
static int newsyms(Term_p t)
{
   if(t->f_code < 0) return 1;
   if(t->f_code > base && !m_addnew(t->f_code, t->arity, t->type == h_types->bool_type ? 2 : m_dom)) return 0;
   for(int i = 0; i < t->arity; i++) if(!newsyms(t->args[i])) return 0;
   return 1;
}
static Term_p g_form; static ClauseSet_p g_set;
static int okform(void) { return m_form(g_form); }
static int okset(void) { for(Clause_p c = g_set->anchor->succ; c != g_set->anchor; c = c->succ) if(!m_clause(c->literals)) return 0; return 1; }

int main(int argc, char **argv)
{
   long rounds = atol(argv[1]); int depth = atoi(argv[2]);
   h_init(); h_describe = desc; h_prop = "C12";
   SetProblemType(PROBLEM_FO);
   OutputLevel = 0;
   for(int i = 0; i < 3; i++) { hn[i] = m_name(names[i]); hn[3 + i] = m_name(preds[i]); }
   VarBank_p fresh = VarBankAlloc(h_types);
   VarBankPairShadow(h_tb->vars, fresh);
   {  /* declare the symbols */
      Scanner_p in = CreateScanner(StreamTypeUserString, "![X0]:(q(f(X0),a)&p(b)&o)", true, NULL, true);
      ScannerSetFormat(in, TSTPFormat);
      TFormulaTSTPParse(in, h_tb);
      DestroyScanner(in);
   }
   FormulaSet_p set = FormulaSetAlloc(), arch = FormulaSetAlloc();
   ClauseSet_p cs = ClauseSetAlloc();
   GCRegisterFormulaSet(h_tb->gc, set); GCRegisterFormulaSet(h_tb->gc, arch); GCRegisterClauseSet(h_tb->gc, cs);
   long skipped = 0, exact = 0;
   for(long r = 0; r < rounds; r++)
   {
      pos = 0; bl = 0; buf[0] = 0;
      Ast *f = mk(2 + rnd(depth - 1), 0);
      ofm(f);
      if(bl > 6000) continue;
      base = h_sig->f_count;
      Scanner_p in = CreateScanner(StreamTypeUserString, buf, true, NULL, true);
      ScannerSetFormat(in, TSTPFormat);
      Term_p form = TFormulaTSTPParse(in, h_tb);
      DestroyScanner(in);
      signed char e[8];
      h_checked++;
      for(int k = 0; k < nint; k++)
      {
         m_id = 1000 + rnd(1000000); m_dom = 1 + rnd(3);
         M_START;
         if(ev(f, e) != m_form(form) && !m_over) { FAIL_BEGIN printf("the parsed formula has another meaning in interpretation %lu with %d elements: ", m_id, m_dom); desc(); printf(" parsed as "); h_put(stdout, form, 0); FAIL_END; break; }
      }
      Term_p body = form;
      for(int k = rnd(3); k && (body->f_code == h_sig->qall_code || body->f_code == h_sig->qex_code); k--) body = body->args[1];
      {  /* free variables */
         long v[64], b[64], n = fv(body, v, 0, b, 0);
         PTree_p got = NULL;
         TFormulaCollectFreeVars(h_tb, body, &got);
         long m = PTreeNodes(got);
         int bad = m != n;
         for(long x = 1; x < 40; x++)
         {
            int is = 0;
            for(long i = 0; i < n; i++) is |= v[i] == x;
            Term_p var = VarBankFCodeFind(h_tb->vars, -x);
            if(!var) continue;
            if(TFormulaVarIsFree(h_tb, body, var) != is || !!PTreeFind(&got, var) != is) bad = 1;
         }
         PTreeFree(got);
         if(TFormulaIsClosed(h_tb, body) != (n == 0)) bad = 1;
         if(bad) { FAIL_BEGIN printf("wrong free variables for "); h_put(stdout, body, 0); FAIL_END; }
      }
      static long ql[] = {0, 12, 1000};
      Term_p sim = TFormulaSimplify(h_tb, body, ql[rnd(3)]), n1, t;
      same("TFormulaSimplify", body, sim, 0);
      same("TFormulaNegate", body, TFormulaNegate(body, h_tb), 1);
      same("TFormulaNegAlloc", body, TFormulaNegAlloc(h_tb, body), 1);
      n1 = TFormulaNNF(h_tb, sim, rnd(6) ? 1 : -1);
      if(same("TFormulaNNF", sim, n1, 0) && !nnf(n1)) { FAIL_BEGIN printf("TFormulaNNF leaves a formula that is not in negation normal form: "); h_put(stdout, n1, 0); printf(" "); desc(); FAIL_END; }
      if(nnf(n1))
      {
         t = TFormulaMiniScope(h_tb, n1);
         same("TFormulaMiniScope", n1, t, 0);
         static long lim[] = {0, 3, 8, 20, 2147483648L};
         t = TFormulaMiniScope3(h_tb, n1, lim[rnd(5)]);
         same("TFormulaMiniScope3", n1, t, 0);
         Term_p s3 = rnd(3) ? t : n1;
         TFormulaFindMaxVarCode(s3);
         VarBankSetVCountsToUsed(h_tb->vars);
         Term_p vr = TFormulaVarRename(h_tb, s3);
         same("TFormulaVarRename", s3, vr, 0);
         long qv[64];
         int nq = qvars(vr, qv, 0);
         if(nq < 0) { FAIL_BEGIN printf("TFormulaVarRename leaves two quantifiers with the same variable: "); h_put(stdout, vr, 0); printf(" "); desc(); FAIL_END; }
         else
         {
            same("TFormulaMiniScope2", vr, TFormulaMiniScope2(h_tb, vr, lim[rnd(5)]), 0);
            same("TFormulaShiftQuantors2", vr, TFormulaShiftQuantors2(h_tb, vr), 0);
            if(!hasex(vr))
            {
               t = TFormulaShiftQuantors(h_tb, vr);
               same("TFormulaShiftQuantors", vr, t, 0);
               Term_p m = t; while(m->f_code == h_sig->qall_code) m = m->args[1];
               if(m->weight < 120)
               {
                  Term_p dd = TFormulaDistributeDisjunctions(h_tb, t);
                  same("TFormulaDistributeDisjunctions", t, dd, 0);
                  for(m = dd; m->f_code == h_sig->qall_code; ) m = m->args[1];
                  if(!cnfshape(m, 0)) { FAIL_BEGIN printf("TFormulaDistributeDisjunctions leaves a formula that is not a conjunction of clauses: "); h_put(stdout, dd, 0); printf(" "); desc(); FAIL_END; }
               }
            }
            {  /* Skolem form: an interpretation satisfies the formula iff some choice of the new functions satisfies the result */
               Term_p clo = TFormulaClosure(h_tb, vr, true);
               Term_p sk = TFormulaSkolemizeOutermost(h_tb, clo);
               if(hasex(sk)) { FAIL_BEGIN printf("TFormulaSkolemizeOutermost leaves an existential quantifier: "); h_put(stdout, sk, 0); FAIL_END; }
               for(int k = 0; k < 4; k++)
               {
                  m_id = 1000 + rnd(1000000); m_dom = 1 + (k > 0); m_nnew = 0; m_ncells = 0; M_START;
                  if(!newsyms(sk)) { skipped++; continue; }
                  g_form = sk;
                  int ex = m_expand(okform, 1 << 12), nn = m_nnew;
                  if(ex < 0 || m_over) { skipped++; continue; }
                  h_checked++; exact++;
                  m_nnew = 0; M_START;
                  int tr = m_form(clo);
                  if(m_over) continue;
                  if(tr != ex)
                  {
                     FAIL_BEGIN printf("Skolemization: interpretation %lu with %d elements %s the formula but %s choice of the %d new functions satisfies the result; ", m_id, m_dom, tr ? "satisfies" : "falsifies", ex ? "some" : "no", nn);
                     desc(); printf(", before "); h_put(stdout, clo, 0); printf(", after "); h_put(stdout, sk, 0); FAIL_END; break;
                  }
               }
            }
         }
      }
      /* the whole clausification */
      {
         static long ml[] = {0, 5, 1000, 2147483648L}, dl[] = {1, 2, 4, 24};
         form = TFormulaClosure(h_tb, form, true);
         Term_p extra = NULL;
         WFormula_p wf = WTFormulaAlloc(h_tb, form);
         FormulaSetInsert(set, wf);
         base = h_sig->f_count;
         FormulaSetCNF2(set, arch, cs, h_tb, fresh, ml[rnd(4)], dl[rnd(4)], false, false, false, rnd(2));
         g_set = cs; (void)extra;
         for(int k = 0; k < 5; k++)
         {
            m_id = 1000 + rnd(1000000); m_dom = 1 + (k > 0); m_nnew = 0; m_ncells = 0; M_START;
            int fit = 1, nc = 0;
            for(Clause_p c = cs->anchor->succ; c != cs->anchor; c = c->succ)
               for(Eqn_p l = c->literals; l; l = l->next) { fit = fit && newsyms(l->lterm) && newsyms(l->rterm); nc++; }
            if(!fit) { skipped++; continue; }
            int ex = m_expand(okset, 1 << 12), nn = m_nnew;
            if(ex < 0 || m_over) { skipped++; continue; }
            h_checked++; exact++;
            m_nnew = 0; M_START;
            int tr = ev(f, e);
            if(tr != ex)
            {
               FAIL_BEGIN printf("clausification: interpretation %lu with %d elements %s the formula but %s interpretation of the %d new symbols satisfies the clauses; ", m_id, m_dom, tr ? "satisfies" : "falsifies", ex ? "some" : "no", nn);
               desc(); printf(", clauses:"); for(Clause_p c = cs->anchor->succ; c != cs->anchor; c = c->succ) { printf(" {"); m_put(c->literals); printf("}"); } FAIL_END; break;
            }
         }
         ClauseSetFreeClauses(cs);
         FormulaSetFreeFormulas(set); FormulaSetFreeFormulas(arch);
         if(r % 50 == 0) TBGCCollect(h_tb);
      }
   }
   printf("exact %ld skipped %ld vars\n", exact, skipped);
   return h_done();
}
