/* a many-sorted first order world and plain trees as the independent representation of terms */
#ifndef WORLD_H
#define WORLD_H
#include "h.h"

typedef struct node { long f; int n; Type_p ty; struct node **a, *in[6]; } Node;
static Node *npl; static long npool, npmax = 1 << 18;
static Node **wpl; static long wpool, wpmax = 1 << 18;
static Node *nnew(int n)
{
   if(!npl) { npl = malloc(sizeof(Node) * npmax); wpl = malloc(sizeof(Node*) * wpmax); }
   if(npool >= npmax) npool = 0;
   Node *r = &npl[npool++];
   r->n = n; r->a = r->in;
   if(n > 6) { if(wpool + n > wpmax) wpool = 0; r->a = wpl + wpool; wpool += n; }
   return r;
}

#define WSORTS 2
#define WSYM 15
#define WWIDE 70
static Type_p w_sort[WSORTS + 1];            /* individuals, a second sort, truth values */
static struct { char *name; int ar; int dom[WWIDE]; int res; FunCode f; } w_sym[WSYM] = {
   {"a", 0, {0}, 0}, {"b", 0, {0}, 0}, {"c", 0, {0}, 0}, {"d", 0, {0}, 1}, {"e", 0, {0}, 1},
   {"u", 1, {0}, 0}, {"v", 1, {0}, 0}, {"f", 2, {0, 0}, 0}, {"g", 2, {0, 1}, 0}, {"h", 3, {0, 0, 0}, 0},
   {"w", 1, {0}, 1}, {"k", 2, {1, 1}, 1}, {"p", 1, {0}, 2}, {"q", 2, {0, 1}, 2}, {"z", WWIDE, {0}, 0}};
#define WV 40
static Term_p w_var[WSORTS][WV];

static VarBank_p w_fresh;                    /* shadow of the variables, for normalised results (set up if W_FRESH is defined) */
static void w_init(void)
{
   h_init();
#ifdef W_FRESH
   w_fresh = VarBankAlloc(h_types);
   VarBankPairShadow(h_tb->vars, w_fresh);
#endif
   w_sort[0] = h_types->i_type;
   w_sort[1] = TypeBankInsertTypeShared(h_types, AllocSimpleSort(TypeBankDefineSimpleSort(h_types, "srt")));
   w_sort[2] = h_types->bool_type;
   for(int i = 0; i < WSYM; i++)
   {
      Type_p args[WWIDE + 1];
      for(int k = 0; k < w_sym[i].ar; k++) args[k] = w_sort[w_sym[i].dom[k]];
      args[w_sym[i].ar] = w_sort[w_sym[i].res];
      w_sym[i].f = SigInsertId(h_sig, w_sym[i].name, w_sym[i].ar, false);
      SigDeclareType(h_sig, w_sym[i].f, w_sym[i].ar ? TypeBankInsertTypeShared(h_types, TypeAlloc(ArrowTypeCons, w_sym[i].ar + 1, memcpy(TypeArgArrayAlloc(w_sym[i].ar + 1), args, sizeof(Type_p) * (w_sym[i].ar + 1)))) : args[0]);
   }
   for(int s = 0; s < WSORTS; s++) for(int i = 0; i < WV; i++) w_var[s][i] = VarBankGetFreshVar(h_tb->vars, w_sort[s]);
}

static Term_p w_app(int k, Term_p *args)
{
   Term_p t = TermTopAlloc(w_sym[k].f, w_sym[k].ar);
   t->type = w_sort[w_sym[k].res];
   if(w_sym[k].res == 2) TermCellSetProp(t, TPPredPos);
   for(int i = 0; i < w_sym[k].ar; i++) t->args[i] = args[i];
   return TBTermTopInsert(h_tb, t);
}

/* a random term of the given sort over variables lo..lo+nv-1 of each sort */
static Term_p w_mk(int depth, int sort, int lo, int nv)
{
   if(sort < 2 && nv && (depth == 0 ? rnd(2) : rnd(4) == 0)) return w_var[sort][lo + rnd(nv)];
   for(;;)
   {
      int k = rnd(WSYM);
      if((w_sym[k].ar == WWIDE && (depth != 1 || rnd(20))) || w_sym[k].res != sort || (depth == 0 && w_sym[k].ar)) { if(depth == 0 && sort == 2) depth = 1; continue; }
      Term_p args[WWIDE];
      for(int i = 0; i < w_sym[k].ar; i++) args[i] = w_mk(depth - 1, w_sym[k].dom[i], lo, nv);
      return w_app(k, args);
   }
}

/* a long comb, to reach the growth of work lists */
static Term_p w_comb(int len, int lo, int nv, int left)
{
   Term_p t = w_mk(0, 0, lo, nv);
   for(int i = 0; i < len; i++) { Term_p x = w_mk(0, 0, lo, nv); t = w_app(7, left ? (Term_p[]){t, x} : (Term_p[]){x, t}); }
   return t;
}

static int w_symno(FunCode f) { for(int i = 0; i < WSYM; i++) if(w_sym[i].f == f) return i; return -1; }

/* replace some random subterm */
static Term_p w_mutate(Term_p t, int sort, int lo, int nv)
{
   if(t->f_code < 0 || !t->arity || rnd(4) == 0) return sort == 2 ? t : w_mk(rnd(3), sort, lo, nv);
   int k = w_symno(t->f_code), j = rnd(t->arity);
   Term_p args[WWIDE];
   for(int i = 0; i < t->arity; i++) args[i] = i == j ? w_mutate(t->args[i], w_sym[k].dom[i], lo, nv) : t->args[i];
   return w_app(k, args);
}

static Node *tree(Term_p t)
{
   Node *r = nnew(t->arity);
   r->f = t->f_code; r->ty = t->type;
   for(int i = 0; i < t->arity; i++) r->a[i] = tree(t->args[i]);
   return r;
}
static int treesame(Node *s, Node *t)
{
   if(s == t) return 1;
   if(s->f != t->f || s->n != t->n || s->ty != t->ty) return 0;
   for(int i = 0; i < s->n; i++) if(!treesame(s->a[i], t->a[i])) return 0;
   return 1;
}
static int treeocc(Node *t, long x)
{
   if(t->f == x) return 1;
   for(int i = 0; i < t->n; i++) if(treeocc(t->a[i], x)) return 1;
   return 0;
}
/* substitutions on trees: idempotent, as a table */
#define TMAX 2048
typedef struct { long dom[256]; Node *im[256]; int n; } TS;
static Node *ts_get(TS *s, long x) { for(int i = 0; i < s->n; i++) if(s->dom[i] == x) return s->im[i]; return NULL; }
static Node *ts_app(TS *s, Node *t)
{
   if(t->f < 0) { Node *r = ts_get(s, t->f); return r ? r : t; }
   if(!t->n) return t;
   Node *r = nnew(t->n);
   r->f = t->f; r->ty = t->ty;
   for(int i = 0; i < t->n; i++) r->a[i] = ts_app(s, t->a[i]);
   return r;
}
/* Robinson, on trees; s is kept idempotent */
static int ts_unify(TS *s, Node *a, Node *b)
{
   a = ts_app(s, a); b = ts_app(s, b);
   if(a->f < 0 && b->f == a->f) return 1;
   if(b->f < 0 && a->f >= 0) { Node *x = a; a = b; b = x; }
   if(a->f < 0)
   {
      if(a->ty != b->ty || treeocc(b, a->f)) return 0;
      TS one = {{a->f}, {b}, 1};
      for(int i = 0; i < s->n; i++) s->im[i] = ts_app(&one, s->im[i]);
      s->dom[s->n] = a->f; s->im[s->n++] = b;
      return 1;
   }
   if(a->f != b->f || a->n != b->n) return 0;
   for(int i = 0; i < a->n; i++) if(!ts_unify(s, a->a[i], b->a[i])) return 0;
   return 1;
}
/* matching on trees: pattern variables only, target is fixed */
static int ts_match(TS *s, Node *p, Node *t)
{
   if(p->f < 0)
   {
      Node *r = ts_get(s, p->f);
      if(p->ty != t->ty) return 0;
      if(r) return treesame(r, t);
      s->dom[s->n] = p->f; s->im[s->n++] = t;
      return 1;
   }
   if(p->f != t->f || p->n != t->n) return 0;
   for(int i = 0; i < p->n; i++) if(!ts_match(s, p->a[i], t->a[i])) return 0;
   return 1;
}
/* the tree a term stands for under the current (acyclic) bindings; NULL if it gets too deep */
static Node *inst(Term_p t, int depth)
{
   if(depth > 400) return NULL;
   while(t->binding) { t = t->binding; if(++depth > 400) return NULL; }
   Node *r = nnew(t->arity);
   r->f = t->f_code; r->ty = t->type;
   for(int i = 0; i < t->arity; i++) if(!(r->a[i] = inst(t->args[i], depth + 1))) return NULL;
   return r;
}
static void w_clear(void) { for(int s = 0; s < WSORTS; s++) for(int i = 0; i < WV; i++) w_var[s][i]->binding = NULL; }
typedef struct { Term_p b[WSORTS][WV]; long sp; Term_p st[512]; } Snap;
static void snap(Snap *x, Subst_p s)
{
   for(int k = 0; k < WSORTS; k++) for(int i = 0; i < WV; i++) x->b[k][i] = w_var[k][i]->binding;
   x->sp = s->current;
   for(long i = 0; i < x->sp && i < 512; i++) x->st[i] = s->stack[i].p_val;
}
static int snapsame(Snap *a, Snap *b)
{
   if(a->sp != b->sp || memcmp(a->b, b->b, sizeof(a->b))) return 0;
   return !memcmp(a->st, b->st, sizeof(Term_p) * a->sp);
}
static void putbind(void)
{
   int n = 0;
   for(int k = 0; k < WSORTS; k++) for(int i = 0; i < WV; i++) if(w_var[k][i]->binding && n++ < 8)
   { printf(" X%ld<-", (long)-w_var[k][i]->f_code); h_put(stdout, w_var[k][i]->binding, 0); }
}
#endif
