"""C06: perfect sharing and cached attributes of the term bank; insertion denotes the term it was asked to insert.

Ghost state: shared[t] = 1 for the cells of the bank, val[t] the finite tree a shared cell stands for.
val is built by the free constructors NOD (symbol, argument cells, arity, valuation of the argument cells) and VARV.
The terms that exist when an insertion is called (stable cells, ST) are read through the immutable accessors f0, n0, a0, b0;
AGREE says that memory agrees with them, and every contract keeps it: insertion never changes an existing term."""
from .lib import *
from .seq import E64, AL

SOURCES = ['TERMS/cte_termbanks.c', 'TERMS/cte_termtrees.c', 'TERMS/cte_termfunc.c', '@probe_bank.c']
VERIFY = ['TermTopCompare', 'TermDeref', 'TermIsGroundCompute', 'TermTopCopyWithoutArgs', 'tb_termtop_insert', 'TBTermTopInsert', 'TBInsert', 'TBInsertNoProps', 'TBInsertRepl',
          'TBInsertReplPlain', 'TBInsertInstantiatedFO', 'TBInsertInstantiatedDeref', 'TBInsertIgnoreVar', 'TBInsertOpt', 'TBInsertDisjoint']
ASSUMES = ['first order problems (problemType is not PROBLEM_HO), no de Bruijn variables, no applied variables',
           'terms are finite (induction over terms and binding chains)',
           'TypeInferSort only sets the type of the cell it is given']
SH, GV, RP = 'ghost:shared', 'ghost:val', 'ghost:rep'     # rep: the one cell of a tree
FLD = ('termcell.f_code', 'termcell.arity', 'termcell.args[]', 'termcell.binding', 'termcell.type', 'termcell.properties')
CACHE = ('termcell.weight', 'termcell.v_count', 'termcell.f_count')
JUNK = {'termcell.lson', 'termcell.rson', 'termcell.entry_no', 'termcell.rw_data.nf_date[]'}
VW, FW = 1, 2

f0, n0, b0, ty0 = (Function(n, I, I) for n in ('f0', 'n0', 'b0', 'ty0'))
a0 = Function('a0', I, I, I)
ST = Function('ST', I, B)
IV = Function('IV', I, I, I)                       # tree of (term, deref mode)
NODI = Function('NODI', I, I, I)
RV, NODR = Function('RV', I, I, I, I, I), Function('NODR', I, I, I, I, I)        # with replacement
PVV, NODP = Function('PV_', I, I, I, I), Function('NODP', I, I, I, I)
DV, NODD = Function('DV', I, I), Function('NODD', I, I)                          # variable disjoint copy
NOD = Function('NOD', I, I, A1, A1, I)
VARV = Function('VARV', I, I, I)
ndw = Function('nod_diff', I, A1, A1, A1, A1, I)
VC, FC = Function('VC', I, I), Function('FC', I, I)                              # counts of trees
SVC, SFC = Function('SVCv', A1, A1, I, I), Function('SFCv', A1, A1, I, I)
GR = Function('GR', I, B)                          # no variables in a stable term
grw = Function('gr_wit', I, I)
UNF = Function('unfold', I, B)                      # marks the terms whose definitions are to be unfolded
VF, VA, VN, VR = Function('vf', I, I), Function('va', I, I, I), Function('vn', I, I), Function('vr', I, B)   # projections of trees


def sel2(A, V, k):
    return Select(V, Select(A, k))


def tree_theory():
    f, n, k, x, y = Ints('f n k x y')
    f2, n2 = Ints('f2 n2')
    A, V, A2, V2 = z3.Consts('A V A2 V2', A1)
    d = ndw(n, A, V, A2, V2)
    return [
        # congruence: equal symbols and equal argument trees give equal trees
        FA([f, n, A, V, A2, V2], Or(NOD(f, n, A, V) == NOD(f, n, A2, V2), And(d >= 0, d < n, sel2(A, V, d) != sel2(A2, V2, d))), (NOD(f, n, A, V), NOD(f, n, A2, V2))),
        # constructors are free
        FA([f, n, A, V], And(VF(NOD(f, n, A, V)) == f, VN(NOD(f, n, A, V)) == n, Not(VR(NOD(f, n, A, V)))), NOD(f, n, A, V)),
        FA([f, n, A, V, k], Implies(And(k >= 0, k < n), VA(NOD(f, n, A, V), k) == sel2(A, V, k)), (NOD(f, n, A, V), sel2(A, V, k)), (NOD(f, n, A, V), Select(A, k))),
        FA([x, y], And(VF(VARV(x, y)) == x, VR(VARV(x, y)), VC(VARV(x, y)) == 1, FC(VARV(x, y)) == 0), VARV(x, y)),
        FA([f, n, A, V], And(VC(NOD(f, n, A, V)) == SVC(A, V, n), FC(NOD(f, n, A, V)) == 1 + SFC(A, V, n)), NOD(f, n, A, V)),
        FA([A, V], And(SVC(A, V, 0) == 0, SFC(A, V, 0) == 0), SVC(A, V, IntVal(0)), SFC(A, V, IntVal(0))),
        FA([A, V, k], Implies(k >= 0, And(SVC(A, V, k + 1) == SVC(A, V, k) + VC(sel2(A, V, k)), SFC(A, V, k + 1) == SFC(A, V, k) + FC(sel2(A, V, k)))),
           (SVC(A, V, k), Select(A, k)), (SFC(A, V, k), Select(A, k))),
        FA([x], And(VC(x) >= 0, FC(x) >= 0), VC(x), FC(x)),
    ]


class Stable:
    def f(self, t): return f0(t)
    def n(self, t): return n0(t)
    def a(self, t, i): return a0(t, i)
    def b(self, t): return b0(t)


S0 = Stable()


def link(term, key, child, fsym, ar, extra=()):
    """NOD(f,n,A,V) is `term` (a node whose k-th child value is child(k)) iff it agrees with it"""
    f, n, k = Ints('f n k')
    A, V = z3.Consts('A V', A1)
    w = z3.Function('wit_' + key, I, A1, A1, I)
    d = w(term, A, V)
    vs = list(extra)
    return FA(vs + [A, V], Or(term == NOD(fsym, ar, A, V), And(d >= 0, d < ar, sel2(A, V, d) != child(d))), (term, NOD(fsym, ar, A, V)))


def stable_theory():
    return stable_defs() + stable_lemmas()


def stable_lemmas():
    t, d = Ints('t d')
    return [
        # lemma stable_deref
        FA([t, d], Implies(ST(t), And(ST(DT(t, d)), DT(t, d) > 0)), DT(t, d)),
        # lemma ground_inst
        FA([t, d], Implies(And(ST(t), GR(t), d >= 0, d <= 2), IV(t, d) == IV(t, 0)), (IV(t, d), GR(t))),
        # lemma ground_count
        FA([t], Implies(ST(t), GR(t) == (VC(IV(t, 0)) == 0)), GR(t), IV(t, 0)),
        # lemma inst_deref
        FA([t, d], Implies(And(ST(t), d >= 0, d <= 2), IV(t, d) == IV(DT(t, d), DD(t, d))), (IV(t, d), DT(t, d)))]


def stable_defs():
    t, d, i, o, r = Ints('t d i o r')
    N, D = DT(t, d), DD(t, d)
    out = deref_theory(S0)
    out += [
        FA([t, i], Implies(And(ST(t), i >= 0, i < n0(t)), And(ST(a0(t, i)), a0(t, i) > 0)), a0(t, i)),
        FA([t], Implies(ST(t), t > 0), ST(t)),
        FA([t], Implies(ST(t), And(f0(t) != 0, n0(t) >= 0, Implies(f0(t) < 0, n0(t) == 0))), f0(t)),
        FA([t], Implies(ST(t), n0(t) >= 0), n0(t)),
        FA([t], Implies(ST(t), And(Implies(f0(t) > 0, b0(t) == 0), b0(t) >= 0, Implies(b0(t) != 0, ST(b0(t))))), b0(t)),
        FA([t, d], Implies(f0(N) < 0, IV(t, d) == VARV(f0(N), ty0(N))), (IV(t, d), DT(t, d))),
        FA([t, d], Implies(f0(N) > 0, And(IV(t, d) == NODI(N, D), n0(N) >= 0)), (IV(t, d), DT(t, d))),
    ]
    # n-ary nodes of the instance
    x, y = Ints('x y')
    A, V = z3.Consts('A V', A1)
    f, n = Ints('f n')
    w = Function('wit_inst', I, I, A1, A1, I)
    out.append(FA([x, y, f, n, A, V], Implies(And(f == f0(x), n == n0(x)), Or(NODI(x, y) == NOD(f, n, A, V), And(w(x, y, A, V) >= 0, w(x, y, A, V) < n0(x),
                                                                             sel2(A, V, w(x, y, A, V)) != IV(a0(x, w(x, y, A, V)), y)))), (NODI(x, y), NOD(f, n, A, V))))
    # groundness of stable terms
    out += [FA([t], Implies(GR(t), f0(t) > 0), GR(t)),
            FA([t, i], Implies(And(GR(t), i >= 0, i < n0(t)), GR(a0(t, i))), (GR(t), a0(t, i))),
            FA([t], Implies(And(Not(GR(t)), f0(t) > 0), And(grw(t) >= 0, grw(t) < n0(t), Not(GR(a0(t, grw(t)))))), (GR(t), UNF(t)))]
    return out


def repl_theory():
    t, d, o, r, x, y, f, n = Ints('t d o r x y f n')
    A, V = z3.Consts('A V', A1)
    N, D = DT(t, d), DD(t, d)
    w = Function('wit_repl', I, I, I, I, A1, A1, I)
    q = w(x, y, o, r, A, V)
    return [
        FA([t, d, o, r], Implies(t == o, RV(t, d, o, r) == IV(r, 0)), (RV(t, d, o, r), DT(t, d))),
        FA([t, d, o, r], Implies(And(t != o, f0(N) < 0), RV(t, d, o, r) == VARV(f0(N), ty0(N))), (RV(t, d, o, r), DT(t, d))),
        FA([t, d, o, r], Implies(And(t != o, f0(N) > 0), RV(t, d, o, r) == NODR(N, D, o, r)), (RV(t, d, o, r), DT(t, d))),
        FA([x, y, o, r, f, n, A, V], Implies(And(f == f0(x), n == n0(x)), Or(NODR(x, y, o, r) == NOD(f, n, A, V), And(q >= 0, q < n0(x), sel2(A, V, q) != RV(a0(x, q), y, o, r)))),
           (NODR(x, y, o, r), NOD(f, n, A, V)))]


def plain_theory():
    t, o, r, x, f, n, k = Ints('t o r x f n k')
    A, V = z3.Consts('A V', A1)
    w = Function('wit_plain', I, I, I, A1, A1, I)
    q = w(x, o, r, A, V)
    return [
        FA([t, o, r], Implies(t == o, PVV(t, o, r) == IV(r, 0)), (PVV(t, o, r), UNF(t))),
        FA([t, o, r], Implies(And(t != o, f0(t) < 0), PVV(t, o, r) == VARV(f0(t), ty0(t))), (PVV(t, o, r), UNF(t))),
        FA([t, o, r], Implies(And(t != o, f0(t) > 0), PVV(t, o, r) == NODP(t, o, r)), (PVV(t, o, r), UNF(t))),
        FA([x, o, r, f, n, A, V], Implies(And(f == f0(x), n == n0(x)), Or(NODP(x, o, r) == NOD(f, n, A, V), And(q >= 0, q < n0(x), sel2(A, V, q) != PVV(a0(x, q), o, r)))),
           (NODP(x, o, r), NOD(f, n, A, V))),
    ]


def plain_lemmas():
    t, o, r, x = Ints('t o r x')
    p = Function('wit_plain_same', I, I, I, I)(x, o, r)
    return [
        # no argument changes, then the term does not (two nodes with equal symbol and arguments)
        FA([x, o, r], Or(NODP(x, o, r) == IV(x, 0), f0(x) < 0, And(p >= 0, p < n0(x), PVV(a0(x, p), o, r) != IV(a0(x, p), 0))), NODP(x, o, r)),
        # lemma light: a term that is not heavier than the replaced one and different from it does not contain it
        FA([t, o, r], Implies(And(ST(t), ST(o), t != o, WV(IV(t, 0)) <= WV(IV(o, 0))), PVV(t, o, r) == IV(t, 0)), (PVV(t, o, r), UNF(t))),
    ]


def disj_theory():
    t, x, f, n = Ints('t x f n')
    A, V = z3.Consts('A V', A1)
    w = Function('wit_disj', I, A1, A1, I)
    q = w(x, A, V)
    return [
        FA([t], Implies(f0(t) < 0, DV(t) == VARV(f0(t) + 1, ty0(t))), (DV(t), UNF(t))),
        FA([t], Implies(f0(t) > 0, DV(t) == NODD(t)), (DV(t), UNF(t))),
        FA([x, f, n, A, V], Implies(And(f == f0(x), n == n0(x)), Or(NODD(x) == NOD(f, n, A, V), And(q >= 0, q < n0(x), sel2(A, V, q) != DV(a0(x, q))))), (NODD(x), NOD(f, n, A, V)))]


def disj_lemmas():
    t = Int('t')
    return [FA([t], Implies(And(ST(t), GR(t)), DV(t) == IV(t, 0)), (DV(t), GR(t)))]       # lemma ground_disjoint


def configure(v):
    v.mask_bits = True
    v.escapable = set(v.escapable) | {'tbcell.term_store'}
    v.track_bits = sorted(k for k in range(32) if any((v.prog.enums.get(n, 0) >> k) & 1 for n in ('TPIsShared', 'TPIsGround', 'TPIsDBVar')))


def WV(v):
    return VW * VC(v) + FW * FC(v)


class St:
    """a state"""

    def __init__(self, c, old=False):
        g = c.o if old else c.m
        self.F, self.N, self.A, self.Bn, self.T, self.P = (g(k) for k in FLD)
        self.W, self.VC, self.FC = (g(k) for k in CACHE)
        self.sh, self.val, self.al, self.rep = g(SH), g(GV), g(AL), g(RP)
        self.e = c.enums

    def shared(self, t):
        return Select(self.sh, t) == 1

    def agree(self):
        t, k = Ints('t k')
        E = self.e
        one = lambda nm, m, v: ('agree.' + nm, FA([t], Implies(ST(t), v(Select(m, t))), Select(m, t)))
        return [one('f', self.F, lambda x: x == f0(t)), one('n', self.N, lambda x: x == n0(t)), one('b', self.Bn, lambda x: x == b0(t)), one('ty', self.T, lambda x: x == ty0(t)),
                one('alive', self.al, lambda x: x == 1), one('db', self.P, lambda x: Not(flag(x, E['TPIsDBVar']))),
                ('agree.args', FA([t, k], Implies(And(ST(t), k >= 0, k < n0(t)), Select(Select(self.A, t), k) == a0(t, k)), (ST(t), Select(Select(self.A, t), k)), (ST(t), a0(t, k))))]

    def inv(self):
        """bank invariant"""
        t, s, k = Ints('t s k')
        E = self.e
        a = Select(self.A, t)
        p = Select(self.P, t)
        return [('bank.alive', FA([t], Implies(self.shared(t), And(t > 0, alive(self.al, t))), Select(self.sh, t))),
                ('bank.node', FA([t], Implies(self.shared(t), And(Select(self.F, t) != 0,
                                                Implies(Select(self.F, t) > 0, Select(self.val, t) == NOD(Select(self.F, t), Select(self.N, t), a, self.val)),
                                                Implies(Select(self.F, t) < 0, And(Select(self.val, t) == VARV(Select(self.F, t), Select(self.T, t)), Select(self.N, t) == 0)),
                                                Select(self.N, t) >= 0)), (Select(self.sh, t), Select(self.F, t)))),
                ('bank.args', FA([t, k], Implies(And(self.shared(t), k >= 0, k < Select(self.N, t)), self.shared(Select(a, k))), (Select(self.sh, t), Select(a, k)))),
                ('bank.cache', FA([t], Implies(self.shared(t), And(Select(self.W, t) == WV(Select(self.val, t)), Select(self.VC, t) == VC(Select(self.val, t)),
                                                                Select(self.FC, t) == FC(Select(self.val, t)), flag(p, E['TPIsShared']), Not(flag(p, E['TPIsDBVar'])),
                                                                flag(p, E['TPIsGround']) == (VC(Select(self.val, t)) == 0))), *[(Select(self.sh, t), Select(m, t)) for m in (self.W, self.VC, self.FC, self.P)])),
                ('bank.unique', FA([t], Implies(self.shared(t), Or(Select(self.F, t) == 0, Select(self.rep, Select(self.val, t)) == t)), (Select(self.sh, t), Select(self.val, t))))]

    def same_bank(self):
        """the stable terms are terms of this bank"""
        t = Int('t')
        return [('own', FA([t], Implies(ST(t), And(self.shared(t), Select(self.val, t) == IV(t, 0))), ST(t)))]


def kept(c):
    """what existed is still there, unchanged"""
    t, k = Ints('t k')
    a, b = St(c, True), St(c)
    return [('kept.shared', FA([t], Implies(a.shared(t), And(b.shared(t), Select(b.val, t) == Select(a.val, t))), Select(b.sh, t), Select(b.val, t))),
            ('kept.alive', FA([t], Implies(alive(a.al, t), alive(b.al, t)), Select(b.al, t)))] + private(c)


def private(c, *me):
    """live cells outside the bank are nobody else's business"""
    t = Int('t')
    a, b = St(c, True), St(c)
    own = lambda t: And([alive(a.al, t), Not(a.shared(t))] + [t != m for m in me])
    return [('private.shared', FA([t], Implies(own(t), Not(b.shared(t))), Select(b.sh, t)))] + \
        [('private.' + key, FA([t], Implies(own(t), Select(c.m(key), t) == Select(c.o(key), t)), Select(c.m(key), t))) for key in FLD]


def others(c, *me):
    """cells that were alive and are not mine keep their fields"""
    t, k = Ints('t k')
    out = []
    for key in FLD[:5]:
        out.append(('others.' + key, FA([t], Implies(And([alive(c.o(AL), t)] + [t != m for m in me]), Select(c.m(key), t) == Select(c.o(key), t)), Select(c.m(key), t))))
    out.append(('others.db', FA([t], Implies(And(alive(c.o(AL), t), Not(flag(Select(c.o(FLD[5]), t), c.enums['TPIsDBVar']))), Not(flag(Select(c.m(FLD[5]), t), c.enums['TPIsDBVar']))), Select(c.m(FLD[5]), t))))
    return out


MOD = set(FLD) | set(CACHE) | JUNK | {SH, GV, RP, AL, 'tbcell.insertions', 'tbcell.in_count'}


def fo(c):
    return [('fo', c.m('g:problemType') != c.enums['PROBLEM_HO'])]


def theory(c):
    d = c.deref if c.has('deref') else IntVal(1)
    g = [UNF(c.term), Implies(ST(c.term), And(DT(c.term, d) > 0, DT(c.term, 0) > 0))]
    return g + tree_theory() + stable_theory() + repl_theory() + plain_theory() + plain_lemmas() + disj_theory() + disj_lemmas()


def contracts():
    cs = [c_SizeMalloc(), c_SizeFree()]
    t, s, k, i = Ints('t s k i')

    # ---- assumed: the store itself (hash table of splay trees), the variable bank
    def store_ens(c):
        a, b = St(c, True), St(c)
        x = c.term
        r = c.ret
        found = And(a.shared(r), Select(b.F, r) == Select(b.F, x), Select(b.N, r) == Select(b.N, x), r > 0,
                    FA([k], Implies(And(k >= 0, k < Select(b.N, x)), Select(Select(b.A, r), k) == Select(Select(b.A, x), k)), Select(Select(b.A, r), k)),
                    c.m(SH) == c.o(SH), c.m(GV) == c.o(GV), c.m(RP) == c.o(RP))
        dif = Function('store_diff', I, I, I)
        nv = NOD(Select(b.F, x), Select(b.N, x), Select(b.A, x), c.o(GV))
        new = And(c.m(RP) == Store(c.o(RP), nv, x), c.m(SH) == Store(c.o(SH), x, 1), c.m(GV) == Store(c.o(GV), x, nv),
                  FA([s], Implies(And(a.shared(s), Select(b.F, s) == Select(b.F, x), Select(b.N, s) == Select(b.N, x)),
                                  And(dif(s, x) >= 0, dif(s, x) < Select(b.N, x), Select(Select(b.A, s), dif(s, x)) != Select(Select(b.A, x), dif(s, x)))), Select(a.sh, s)))
        return [('found', Implies(r != 0, found)), ('new', Implies(r == 0, new))]
    cs.append(Contract('TermCellStoreInsert', requires=lambda c: [('unshared', Not(St(c).shared(c.term))), ('sym', Select(St(c).F, c.term) > 0)], ensures=store_ens, modifies={SH, GV, RP, 'termcell.lson', 'termcell.rson'}, trusted=True,
                       doc="the store (hash table of splay trees) returns the shared cell with the same symbol and arguments if there is one, otherwise it adds the cell; splay tree bounded only"))

    def var_ens(c):
        b = St(c)
        return [('var', And(c.ret > 0, b.shared(c.ret), Select(b.F, c.ret) == c.f_code, Select(b.val, c.ret) == VARV(c.f_code, c.type)))] + kept(c) + others(c) + b.inv()
    cs.append(Contract('VarBankVarAssertAlloc', requires=lambda c: [c.f_code < 0], ensures=var_ens, modifies=MOD, trusted=True,
                       doc="the variable bank returns the one cell for a variable code, allocating it on first use, with weight and counts of a variable"))

    cs.append(Contract('TypeInferSort', ensures=lambda c: [('t', Select(c.m('termcell.type'), c.term) > 0), ('o', FA([t], Implies(t != c.term, Select(c.m('termcell.type'), t) == Select(c.o('termcell.type'), t)), Select(c.m('termcell.type'), t)))],
                       modifies={'termcell.type'}, trusted=True, doc="sort inference sets the type of the given cell only"))
    cs.append(Contract('NormalizePatternAppVar', requires=lambda c: [z3.BoolVal(False)], trusted=True, doc="higher order only: shown unreachable"))
    cs.append(Contract('WHNF_deref', requires=lambda c: [z3.BoolVal(False)], trusted=True, doc="higher order only: shown unreachable"))
    cs.append(Contract('TermWeightCompute', requires=lambda c: [z3.BoolVal(False)], trusted=True, doc="shown unreachable: shared terms use the cached weight"))
    cs.append(Contract('TBRequestDBVar', requires=lambda c: [z3.BoolVal(False)], trusted=True, doc="higher order only: shown unreachable"))

    # ---- comparison of top cells
    def cmp_ens(c):
        F, N, A = (c.o(x) for x in FLD[:3])
        a, b = c.t1, c.t2
        fa, fb, na, nb = Select(F, a), Select(F, b), Select(N, a), Select(N, b)
        ar = lambda x, j: Select(Select(A, x), j)
        w = Function('cmp_first', I, I, I)(a, b)
        first = And(w >= 0, w < na, FA([k], Implies(And(k >= 0, k < w), ar(a, k) == ar(b, k)), ar(a, k)))
        lt = lambda fa, fb, na, nb, x, y: Or(fa < fb, And(fa == fb, Or(na < nb, And(na == nb, LEXLT(x, y)))))
        return [('zero', (c.ret == 0) == And(fa == fb, na == nb, FA([k], Implies(And(k >= 0, k < na), ar(a, k) == ar(b, k)), ar(a, k)))),
                ('less', (c.ret < 0) == lt(fa, fb, na, nb, Select(A, a), Select(A, b)) if False else
                 Implies(fa != fb, (c.ret < 0) == (fa < fb))), ('less.arity', Implies(And(fa == fb, na != nb), (c.ret < 0) == (na < nb))),
                ('less.args', FA([i], Implies(And(fa == fb, na == nb, i >= 0, i < na, ar(a, i) != ar(b, i), FA([k], Implies(And(k >= 0, k < i), ar(a, k) == ar(b, k)), ar(a, k))),
                                              (c.ret < 0) == (ar(a, i) < ar(b, i))), ar(a, i)))]

    def cmp_inv(c):
        A, j = c.o(FLD[2]), c.v('i')
        return [('i', And(j >= 0, j <= Select(c.o(FLD[1]), c.t1))), ('eq', FA([k], Implies(And(k >= 0, k < j), Select(Select(A, c.t1), k) == Select(Select(A, c.t2), k)), Select(Select(A, c.t1), k))),
                ('res', c.v('res') == 0), ('f', Select(c.o(FLD[0]), c.t1) == Select(c.o(FLD[0]), c.t2)), ('n', Select(c.o(FLD[1]), c.t1) == Select(c.o(FLD[1]), c.t2))]
    cs.append(Contract('TermTopCompare', requires=lambda c: [c.t1 > 0, c.t2 > 0, Select(c.m(FLD[1]), c.t1) >= 0, Select(c.m(FLD[1]), c.t2) >= 0] + [e for _, e in fo(c)], ensures=cmp_ens, frozen=FLD[:3], loops=[Loop(cmp_inv)]))

    # ---- dereferencing, read through the stable accessors
    def deref_ens(c):
        return [('node', c.ret == DT(c.term, c.ocell('deref'))), ('left', c.cell('deref') == DD(c.term, c.ocell('deref')))]

    def deref_inv(c):
        d = c.cell('deref')
        return [DT(c.v('term'), d) == DT(c.term, c.ocell('deref')), DD(c.v('term'), d) == DD(c.term, c.ocell('deref')), ST(c.v('term')), c.v('term') > 0, d >= 0, d <= 2, (c.ocell('deref') == 2) == (d == 2)]
    cs.append(Contract('TermDeref', requires=lambda c: [ST(c.term), c.cell('deref') >= 0, c.cell('deref') <= 2] + St(c).agree(), ensures=deref_ens, cells={'deref': W64}, cell_mod={'deref'},
                       frozen=FLD, theory=lambda c: stable_theory(), loops=[Loop(deref_inv), Loop(deref_inv)]))

    def gc_inv(c):
        j = c.v('i')
        return [('i', And(j >= 0, j <= n0(c.term), f0(c.term) > 0)), ('all', FA([k], Implies(And(k >= 0, k < j), GR(a0(c.term, k))), a0(c.term, k)))]
    cs.append(Contract('TermIsGroundCompute', requires=lambda c: [ST(c.term)] + St(c).agree(), ensures=lambda c: [('ground', c.ret == GR(c.term))], frozen=FLD, theory=lambda c: [UNF(c.term)] + stable_theory(),
                       loops=[Loop(gc_inv)]))

    # ---- a fresh, unshared copy of the top cell
    def copy_ens(c):
        a, b, r, x = St(c, True), St(c), c.ret, c.source
        E = c.enums
        return [('fresh', And(r > 0, Not(alive(a.al, r)), b.al == Store(a.al, r, 1))),
                ('same', And(Select(b.F, r) == Select(a.F, x), Select(b.N, r) == Select(a.N, x), Select(b.T, r) == Select(a.T, x), Select(b.Bn, r) == 0)),
                ('db', flag(Select(b.P, r), E['TPIsDBVar']) == flag(Select(a.P, x), E['TPIsDBVar'])), ('unshared', Not(flag(Select(b.P, r), E['TPIsShared']))),
                ('notground', Not(flag(Select(b.P, r), E['TPIsGround'])))] + \
            [('only.' + key, FA([t], Implies(t != r, Select(c.m(key), t) == Select(c.o(key), t)), Select(c.m(key), t))) for key in FLD]
    cs.append(Contract('TermTopCopyWithoutArgs', requires=lambda c: [c.source > 0, alive(c.m(AL), c.source), Select(c.m('termcell.arity'), c.source) >= 0], ensures=copy_ens, modifies=set(FLD) | JUNK | {AL},
                       loops=[Loop(lambda c: [('arr', FA([t], Implies(t != c.v('handle'), Select(c.m(FLD[2]), t) == Select(c.o(FLD[2]), t)), Select(c.m(FLD[2]), t)))])]))
    cs.append(Contract('TermTopFree', ensures=lambda c: [c.m(AL) == Store(c.o(AL), c.junk, 0)], modifies={AL}, trusted=True, doc="freeing a cell only ends its life"))

    # ---- insertion of a top cell whose arguments are shared
    def top_req(c):
        a = St(c)
        x = c.t
        E = c.enums
        p = Select(a.P, x)
        return [('cell', And(x > 0, alive(a.al, x), Not(a.shared(x)), Not(ST(x)), Select(a.F, x) > 0, Select(a.N, x) >= 0)),
                ('args', FA([k], Implies(And(k >= 0, k < Select(a.N, x)), a.shared(Select(Select(a.A, x), k))), Select(Select(a.A, x), k))),
                ('flags', And(Not(flag(p, E['TPIsDBVar'])), Not(flag(p, E['TPIsGround'])), Not(flag(p, E['TPIsShared'])))),
                ('firstorder', And([Select(a.F, x) != q for q in HOCODES]))] + a.inv()

    def top_ens(c):
        a, b, x = St(c, True), St(c), c.t
        v = NOD(Select(a.F, x), Select(a.N, x), Select(a.A, x), a.val)
        own = []
        for key in FLD[:5]:
            own.append(('others.' + key, FA([t], Implies(And(alive(a.al, t), t != x), Select(c.m(key), t) == Select(c.o(key), t)), Select(c.m(key), t))))
        return [('value', And(c.ret > 0, b.shared(c.ret), Select(b.val, c.ret) == v)), ('binding', Or(c.ret != x, Select(b.Bn, x) == Select(a.Bn, x))),
                ('db', FA([t], Implies(And(alive(a.al, t), Not(flag(Select(a.P, t), c.enums['TPIsDBVar'])), t != x), Not(flag(Select(b.P, t), c.enums['TPIsDBVar']))), Select(b.P, t))),
                ('kept.shared', FA([t], Implies(a.shared(t), And(b.shared(t), Select(b.val, t) == Select(a.val, t))), Select(b.sh, t), Select(b.val, t))),
                ('kept.alive', FA([t], Implies(And(alive(a.al, t), t != x), alive(b.al, t)), Select(b.al, t)))] + own + private(c, x) + b.inv()

    def top_inv(c):
        a, b, x = St(c, True), St(c), c.t
        j = c.v('i')
        E = c.enums
        p = Select(b.P, x)
        n = Select(a.N, x)
        A = Select(a.A, x)
        out = [('i', And(j >= 0, j <= n)), ('v', Select(b.VC, x) == SVC(A, a.val, j)), ('f', Select(b.FC, x) == 1 + SFC(A, a.val, j)),
               ('w', Select(b.W, x) == VW * SVC(A, a.val, j) + FW * (1 + SFC(A, a.val, j))),
               ('p', And(flag(p, E['TPIsShared']), Not(flag(p, E['TPIsDBVar'])), Not(flag(p, E['TPIsGround']))))]
        for key in CACHE + ('termcell.properties',):
            out.append(('only.' + key, FA([t], Implies(t != x, Select(c.m(key), t) == Select(c.o(key), t)), Select(c.m(key), t))))
        return out
    for nm in ('tb_termtop_insert', 'TBTermTopInsert'):
        cs.append(Contract(nm, requires=top_req, ensures=top_ens, modifies=MOD, theory=lambda c: tree_theory(), loops=[Loop(top_inv)] if nm[0] == 't' else []))

    # ---- the recursive insertions
    def rec(name, value, own=False, req=(), th=None, deref=True, par='term', inst=False):
        def requires(c):
            a = St(c)
            d = [('deref', And(c.deref >= 0, c.deref <= 2))] if deref else []
            return [('stable', ST(c.term))] + d + fo(c) + a.agree() + a.inv() + (a.same_bank() if own else []) + [('firstorder', FA([t], Implies(ST(t), And([f0(t) != q for q in HOCODES])), ST(t)))] + \
                [r(c) for r in req]

        def ensures(c):
            b = St(c)
            return [('value', And(b.shared(c.ret), c.ret > 0, Select(b.val, c.ret) == value(c)))] + kept(c) + b.agree() + b.inv() + (b.same_bank() if own else [])

        def inv(c):
            a, b = St(c, True), St(c)
            x, j, src = c.v('t'), c.v('i'), c.v('term')
            E = c.enums
            p = Select(b.P, x)
            out = [('i', And(j >= 0, j <= n0(src))), ('src', And(ST(src), src > 0)),
                   ('cell', And(x > 0, alive(b.al, x), Not(b.shared(x)), Not(ST(x)), Not(alive(a.al, x)), Select(b.F, x) == f0(src), Select(b.N, x) == n0(src), Select(b.Bn, x) == 0)),
                   ('flags', And(Not(flag(p, E['TPIsDBVar'])), Not(flag(p, E['TPIsGround'])), Not(flag(p, E['TPIsShared'])))),
                   ('args', FA([k], Implies(And(k >= 0, k < j), And(b.shared(Select(Select(b.A, x), k)), Select(b.val, Select(Select(b.A, x), k)) == child(c, src, k))), Select(Select(b.A, x), k), a0(src, k)))]
            if name == 'TBInsertReplPlain':
                out.append(('unchanged', Or(c.v('changed') != 0, FA([k], Implies(And(k >= 0, k < j), Select(Select(b.A, x), k) == a0(src, k)), Select(Select(b.A, x), k), a0(src, k)))))
            else:
                out.append(('node', c_node(c, src)))
            return out + kept(c) + b.agree() + b.inv() + (b.same_bank() if own else [])

        def dleft(c):
            return c.v('deref')
        child = dict(I=lambda c, x, k: IV(a0(x, k), c.v('deref')), O=lambda c, x, k: IV(a0(x, k), 1), R=lambda c, x, k: RV(a0(x, k), c.v('deref'), c.old, c.repl),
                     P=lambda c, x, k: PVV(a0(x, k), c.old, c.repl), D=lambda c, x, k: DV(a0(x, k)))[par]
        c_node = dict(I=lambda c, x: And(x == DT(c.term, c.deref), c.v('deref') == DD(c.term, c.deref), f0(x) > 0), O=lambda c, x: And(x == c.term, f0(x) > 0, b0(x) == 0),
                      R=lambda c, x: And(x == DT(c.term, c.deref), c.v('deref') == DD(c.term, c.deref), f0(x) > 0), P=lambda c, x: x == c.term, D=lambda c, x: And(x == c.term, f0(x) > 0))[par]
        cs.append(Contract(name, requires=requires, ensures=ensures, modifies=MOD, theory=theory, loops=[Loop(inv)]))
    inst = lambda c: IV(c.term, c.deref)
    rec('TBInsert', inst, par='I')
    rec('TBInsertNoProps', inst, par='I')
    rec('TBInsertIgnoreVar', inst, own=True, par='I')
    rec('TBInsertOpt', inst, own=True, par='I')
    rec('TBInsertInstantiatedDeref', inst, own=True, par='I')
    rec('TBInsertInstantiatedFO', lambda c: IV(c.term, 1), own=True, deref=False, par='O')
    rec('TBInsertRepl', lambda c: RV(c.term, c.deref, c.old, c.repl), own=True, par='R', req=[lambda c: ST(c.repl)])
    rec('TBInsertReplPlain', lambda c: PVV(c.term, c.old, c.repl), own=True, deref=False, par='P', req=[lambda c: And(ST(c.repl), ST(c.old))])
    rec('TBInsertDisjoint', lambda c: DV(c.term), own=True, deref=False, par='D', req=[lambda c: ('original', FA([t], Implies(And(ST(t), f0(t) < 0), f0(t) < -1), f0(t)))])
    return cs


HOCODES = (17, 18, 19)
PARAMS = {'TermCellStoreInsert': ['store', 'term'], 'TypeInferSort': ['sig', 'term', 'in'], 'TermTopFree': ['junk'], 'VarBankVarAssertAlloc': ['bank', 'f_code', 'type'],
          'TermWeightCompute': ['term', 'vweight', 'fweight']}


def LEMMAS():
    """by induction over (finite) terms and binding chains, from the definitions alone"""
    L = {}
    t, d, o, r, k, n, x = z3.Ints('t_ d_ o_ r_ k_ n_ x_')
    qk, qt = Ints('qk qt')
    A, V = z3.Consts('A_ V_', A1)
    td, sd = tree_theory(), stable_defs()
    can = And(d != 0, b0(t) != 0)
    nd = If(d == 2, d, d - 1)
    ok = lambda t, d: And(ST(DT(t, d)), DT(t, d) > 0)
    L['stable_deref'] = dict(axioms=sd, goals=[('unbound', Implies(And(ST(t), Not(can)), ok(t, d))), ('bound', Implies(And(ST(t), can, ok(b0(t), nd)), ok(t, d)))])
    dm = z3.And(d >= 0, d <= 2)
    N, D = DT(t, d), DD(t, d)
    L['inst_deref'] = dict(axioms=sd + stable_lemmas()[:1] + [DT(N, D) == DT(N, D + 0), Or(b0(N) == 0, b0(N) != 0)], goals=[
        ('idem', Implies(And(ST(t), dm), And(DT(N, D) == N, DD(N, D) == D))), ('same', Implies(And(ST(t), dm, DT(N, D) == N, DD(N, D) == D), IV(t, d) == IV(N, D)))])
    # the argument trees of t, as an argument vector
    vec = lambda child: FA([qk], Implies(And(qk >= 0, qk < n0(t)), sel2(A, V, qk) == child(a0(t, qk))), Select(A, qk), a0(t, qk))
    me = NOD(f0(t), n0(t), A, V)
    grd = [ST(t), GR(t), b0(t) == 0, DT(t, d) == t, DD(t, d) == d, DT(t, 0) == t, DD(t, 0) == 0]
    L['ground_deref'] = dict(axioms=sd, goals=[('node', Implies(And(ST(t), f0(t) > 0, b0(t) >= 0), And(DT(t, d) == t, DD(t, d) == d)))])
    args = lambda e, *p: FA([qk], Implies(And(qk >= 0, qk < n0(t)), e(a0(t, qk))), a0(t, qk))
    L['ground_inst'] = dict(axioms=td + sd + grd + [vec(lambda a: IV(a, 0)), args(lambda a: IV(a, d) == IV(a, 0)), me == me + 0], goals=[
        ('zero', IV(t, 0) == me), ('any', IV(t, d) == me)])
    L['ground_disjoint'] = dict(axioms=td + sd + disj_theory() + grd + [UNF(t), vec(lambda a: IV(a, 0)), args(lambda a: DV(a) == IV(a, 0))], goals=[
        ('zero', IV(t, 0) == me), ('copy', DV(t) == me)])
    # counts of a vector
    allz = lambda n: FA([qk], Implies(And(qk >= 0, qk < n), VC(sel2(A, V, qk)) == 0), Select(A, qk))
    L['sum'] = dict(axioms=td + [Select(A, k) == Select(A, k) + 0, k >= 0], goals=[
        ('base', And(SVC(A, V, 0) >= 0, SFC(A, V, 0) >= 0)),
        ('nonneg', Implies(And(SVC(A, V, k) >= 0, SFC(A, V, k) >= 0), And(SVC(A, V, k + 1) >= 0, SFC(A, V, k + 1) >= 0))),
        ('all', Implies(And(SVC(A, V, k) >= 0, Implies(SVC(A, V, k) == 0, allz(k)), SVC(A, V, k + 1) == 0), And(SVC(A, V, k) == 0, VC(sel2(A, V, k)) == 0))),
        ('zero', Implies(And(SVC(A, V, k) == 0, VC(sel2(A, V, k)) == 0), SVC(A, V, k + 1) == 0)),
        ('part', Implies(And(x >= 0, x < k, SVC(A, V, k) >= VC(sel2(A, V, x)), SFC(A, V, k) >= FC(sel2(A, V, x))), And(SVC(A, V, k + 1) >= VC(sel2(A, V, x)), SFC(A, V, k + 1) >= FC(sel2(A, V, x))))),
        ('last', Implies(And(SVC(A, V, k) >= 0, SFC(A, V, k) >= 0), And(SVC(A, V, k + 1) >= VC(sel2(A, V, k)), SFC(A, V, k + 1) >= FC(sel2(A, V, k)))))])
    part = FA([qk], Implies(And(qk >= 0, qk < n0(t)), And(SVC(A, V, n0(t)) >= VC(sel2(A, V, qk)), SFC(A, V, n0(t)) >= FC(sel2(A, V, qk)))), Select(A, qk), a0(t, qk))
    zz = [Implies(SVC(A, V, n0(t)) == 0, allz(n0(t))), Or(SVC(A, V, n0(t)) == 0, And(x >= 0, x < n0(t), VC(sel2(A, V, x)) != 0, a0(t, x) == a0(t, x) + 0))]
    plain0 = [ST(t), DT(t, 0) == t, DD(t, 0) == 0]
    L['ground_count'] = dict(axioms=td + sd + plain0 + zz + [part, UNF(t), vec(lambda a: IV(a, 0)), args(lambda a: GR(a) == (VC(IV(a, 0)) == 0))], goals=[
        ('variable', Implies(f0(t) < 0, And(Not(GR(t)), VC(IV(t, 0)) == 1))), ('node', Implies(f0(t) > 0, IV(t, 0) == me)),
        ('ground', Implies(And(f0(t) > 0, IV(t, 0) == me, GR(t)), VC(IV(t, 0)) == 0)), ('counted', Implies(And(f0(t) > 0, IV(t, 0) == me, VC(IV(t, 0)) == 0), GR(t)))])
    p = Function('wit_plain_same', I, I, I, I)(t, o, r)
    L['plain_same'] = dict(axioms=td + sd + plain_theory() + plain0 + [f0(t) > 0, UNF(t), vec(lambda a: IV(a, 0)), args(lambda a: PVV(a, o, r) == IV(a, 0))], goals=[
        ('node', IV(t, 0) == me), ('same', NODP(t, o, r) == me)])
    L['light'] = dict(axioms=td + sd + plain_theory() + plain_lemmas()[:1] + plain0 + [ST(o), t != o, WV(IV(t, 0)) <= WV(IV(o, 0)), UNF(t), part, vec(lambda a: IV(a, 0)),
                      args(lambda a: Implies(And(a != o, WV(IV(a, 0)) <= WV(IV(o, 0))), PVV(a, o, r) == IV(a, 0)))], goals=[
        ('variable', Implies(f0(t) < 0, PVV(t, o, r) == IV(t, 0))), ('node', Implies(f0(t) > 0, IV(t, 0) == me)),
        ('args', Implies(And(f0(t) > 0, IV(t, 0) == me, k >= 0, k < n0(t)), And(WV(IV(a0(t, k), 0)) < WV(IV(t, 0)), PVV(a0(t, k), o, r) == IV(a0(t, k), 0)))),
        ('same', Implies(And(f0(t) > 0, args(lambda a: PVV(a, o, r) == IV(a, 0))), PVV(t, o, r) == IV(t, 0)))])
    return L
