/* finite interpretations: the independent notion of truth that transformations and inferences are checked against.
   Symbols are interpreted by a hash of the interpretation's number, the symbol's name and the argument values;
   symbols in m_new (Skolem functions, defined predicates) by explicit tables, so that all expansions can be enumerated. */
#ifndef MODEL_H
#define MODEL_H
#include "h.h"
#include <ccl_clauses.h>
#include <ccl_clausesets.h>

static unsigned long m_id;         /* which interpretation */
static int m_dom = 2;
#define M_VARS (1 << 21)
static signed char m_env[M_VARS];  /* values of the variables */
static long m_over;                /* a variable out of range was met, or the evaluation was too expensive: no verdict */
static long m_cost, m_fuel = 300000;
#define M_START (m_over = 0, m_cost = 0)

static unsigned long m_mix(unsigned long h, unsigned long x)
{
   h ^= x + 0x9e3779b97f4a7c15UL + (h << 6) + (h >> 2);
   h ^= h >> 33; h *= 0xff51afd7ed558ccdUL; h ^= h >> 29;
   return h;
}
static unsigned long m_name(char *s)
{
   unsigned long h = 1469598103934665603UL;
   for(; *s; s++) { h ^= (unsigned char)*s; h *= 1099511628211UL; }
   return h;
}
static unsigned long m_namecache[1 << 16];
static unsigned long m_code(FunCode f)
{
   if(f < 0 || f >= 1 << 16) return m_name(SigFindName(h_sig, f));
   if(!m_namecache[f]) m_namecache[f] = m_name(SigFindName(h_sig, f));
   return m_namecache[f];
}
static int m_app(unsigned long name, int bias, int range, int n, int *a)
{
   unsigned long h = m_mix(m_id * 7 + m_dom, name);
   for(int i = 0; i < n; i++) h = m_mix(h, a[i] + 17);
   (void)bias;
   return (h >> 7) % range;
}

/* symbols interpreted by tables */
#define M_NEW 24
static struct { FunCode f; int n, range; long off, cells; } m_new[M_NEW];
static int m_nnew; static long m_ncells; static signed char m_tab[4096]; static signed char m_rng[4096];
static int m_isnew(FunCode f) { for(int i = 0; i < m_nnew; i++) if(m_new[i].f == f) return i; return -1; }
static int m_addnew(FunCode f, int n, int range)
{
   if(m_isnew(f) >= 0) return 1;
   long c = 1;
   for(int i = 0; i < n; i++) { c *= m_dom; if(c > 2000) return 0; }
   if(m_nnew == M_NEW || m_ncells + c > 4000) return 0;
   m_new[m_nnew].f = f; m_new[m_nnew].n = n; m_new[m_nnew].range = range; m_new[m_nnew].off = m_ncells; m_new[m_nnew++].cells = c;
   for(long i = 0; i < c; i++) m_rng[m_ncells + i] = range;
   m_ncells += c;
   return 1;
}

static int m_isform(FunCode f)
{
   return f == h_sig->not_code || f == h_sig->and_code || f == h_sig->or_code || f == h_sig->impl_code || f == h_sig->equiv_code || f == h_sig->nand_code ||
      f == h_sig->nor_code || f == h_sig->bimpl_code || f == h_sig->xor_code || f == h_sig->qex_code || f == h_sig->qall_code || f == h_sig->eqn_code || f == h_sig->neqn_code;
}
static int m_form(Term_p t);
static int m_bind;                 /* follow bindings */
static int m_term(Term_p t)
{
   if(m_bind) while(t->binding) t = t->binding;
   if(t->f_code < 0) { if(-t->f_code >= M_VARS) { m_over++; return 0; } return m_env[-t->f_code]; }
   if(t->f_code == SIG_TRUE_CODE) return 1;
   if(t->f_code == SIG_FALSE_CODE) return 0;
   if(m_isform(t->f_code)) return m_form(t);
   int a[80], k;
   for(int i = 0; i < t->arity; i++) a[i] = m_term(t->args[i]);
   if((k = m_isnew(t->f_code)) >= 0)
   {
      long x = 0;
      for(int i = 0; i < t->arity; i++) x = x * m_dom + a[i];
      return m_tab[m_new[k].off + x];
   }
   return m_app(m_code(t->f_code), 0, t->type == h_types->bool_type ? 2 : m_dom, t->arity, a);
}
static int m_form(Term_p t)
{
   Sig_p s = h_sig;
   if(m_bind) while(t->binding) t = t->binding;
   FunCode f = t->f_code;
   if(++m_cost > m_fuel) { m_over++; return 0; }
   if(f < 0) return m_term(t);
   if(f == s->not_code) return !m_form(t->args[0]);
   if(f == s->and_code) return m_form(t->args[0]) && m_form(t->args[1]);
   if(f == s->or_code) return m_form(t->args[0]) || m_form(t->args[1]);
   if(f == s->impl_code) return !m_form(t->args[0]) || m_form(t->args[1]);
   if(f == s->bimpl_code) return m_form(t->args[0]) || !m_form(t->args[1]);
   if(f == s->equiv_code) return m_form(t->args[0]) == m_form(t->args[1]);
   if(f == s->xor_code) return m_form(t->args[0]) != m_form(t->args[1]);
   if(f == s->nand_code) return !(m_form(t->args[0]) && m_form(t->args[1]));
   if(f == s->nor_code) return !(m_form(t->args[0]) || m_form(t->args[1]));
   if(f == s->eqn_code) return m_term(t->args[0]) == m_term(t->args[1]);
   if(f == s->neqn_code) return m_term(t->args[0]) != m_term(t->args[1]);
   if(f == s->qex_code || f == s->qall_code)
   {
      long x = -t->args[0]->f_code;
      if(x >= M_VARS) { m_over++; return 0; }
      int old = m_env[x], all = f == s->qall_code, r = all;
      for(int d = 0; d < m_dom && !m_over; d++) { m_env[x] = d; if(m_form(t->args[1]) != all) { r = !all; break; } }
      m_env[x] = old;
      return r;
   }
   return m_term(t);
}
static int m_lit(Eqn_p l) { return (m_term(l->lterm) == m_term(l->rterm)) == !!EqnIsPositive(l); }
static int m_lits(Eqn_p l) { m_cost += 2; for(; l; l = l->next) if(m_lit(l)) return 1; return 0; }

static long m_cvars(Term_p t, long *v, long n)
{
   if(m_bind) while(t->binding) t = t->binding;
   if(t->f_code < 0) { for(long i = 0; i < n; i++) if(v[i] == -t->f_code) return n; if(n < 30) v[n++] = -t->f_code; return n; }
   for(int i = 0; i < t->arity; i++) n = m_cvars(t->args[i], v, n);
   return n;
}
/* truth of a universally closed literal list; leaves the falsifying assignment in m_env */
static int m_clause(Eqn_p lits)
{
   long v[30], n = 0, tot = 1;
   for(Eqn_p l = lits; l; l = l->next) { n = m_cvars(l->lterm, v, n); n = m_cvars(l->rterm, v, n); }
   for(long i = 0; i < n; i++) { tot *= m_dom; if(tot > 20000) { m_over++; return 1; } if(v[i] >= M_VARS) { m_over++; return 1; } }
   for(long k = 0; k < tot; k++)
   {
      long x = k;
      for(long i = 0; i < n; i++) { m_env[v[i]] = x % m_dom; x /= m_dom; }
      if(!m_lits(lits)) return 0;
      if(m_cost > m_fuel) { m_over++; return 0; }
   }
   return 1;
}
/* is there a table for the new symbols for which ok() holds? -1: too many */
static int m_expand(int (*ok)(void), long limit)
{
   double tot = 1;
   for(long i = 0; i < m_ncells; i++) tot *= m_rng[i];
   if(tot > limit) return -1;
   memset(m_tab, 0, sizeof(m_tab));
   for(;;)
   {
      if(ok()) return 1;
      if(m_over) return -1;
      long i = 0;
      for(; i < m_ncells; i++) { if(++m_tab[i] < m_rng[i]) break; m_tab[i] = 0; }
      if(i == m_ncells) return 0;
   }
}
static void m_put(Eqn_p l)
{
   for(; l; l = l->next) { h_put(stdout, l->lterm, m_bind ? 2 : 0); printf(EqnIsPositive(l) ? "=" : "!="); h_put(stdout, l->rterm, m_bind ? 2 : 0); if(l->next) printf(" | "); }
}
#endif
