"""C20: trivial literals and clauses are recognised exactly, and a literal called true (false) is true (false) in every interpretation.

V is an arbitrary interpretation's value of a term; different distinct objects have different values in it.  A literal holds if its
sides have the same value and it is positive, or different values and it is negative."""
from .lib import *
from .seq import *
from . import seq
from .seq import stack_contracts
from .unify import INS, ins_theory

SOURCES = ['CLAUSES/ccl_eqn.c', 'CLAUSES/ccl_eqnlist.c', 'CLAUSES/ccl_clauses.c', 'BASICS/clb_pstacks.c']
VERIFY = ['EqnTermsAreDistinct', 'EqnIsTrue', 'EqnIsFalse', 'EqnListFindTrue', 'EqnEqualDeref', 'EqnListIsTrivial', 'EqnSyntaxCompare', 'LiteralSyntaxCompare',
          'comp_stack_eqns', 'PStackSort', 'PStackBinSearch', 'EqnListSplitToStacks', 'EqnLongListIsTrivial', 'ClauseIsTrivial']
ASSUMES = ['qsort permutes the array and sorts it by the order the comparison function returns',
           'a comparison function that is a total preorder is given by a rank (RKF) of the elements',
           'terms are shared: equal terms are the same cell (property C06), and cells of different terms have different entry numbers']
P, L, R, N = 'eqncell.properties', 'eqncell.lterm', 'eqncell.rterm', 'eqncell.next'
FZ = (P, L, R, N, 'termcell.f_code', 'termcell.arity', 'termcell.entry_no', 'eqncell.bank')
PARAMS = {'qsort': ['base', 'nmemb', 'size', 'compar']}
FS, FC = Int('fn:EqnSyntaxCompare'), Int('fn:comp_stack_eqns')
RKF = Function('RKF', I, I, z3.RealSort())   # comparison function f returns the sign of RKF(f, x) - RKF(f, y)
band = Function('band', I, I, I)
V = Function('V', I, I)
DO = Function('DO', I, I, B)    # in this signature the term is a distinct object
INL = Function('INL', I, I, B)
CMPF = Function('CMPF', I, I, I)


class Lt:
    def __init__(self, get):
        self.P, self.L, self.R, self.N, self.E = get(P), get(L), get(R), get(N), get('termcell.entry_no')
        self.F, self.AR, self.BK, self.SG = get('termcell.f_code'), get('termcell.arity'), get('eqncell.bank'), get('tbcell.sig')

    def pos(self, e): return flag(Select(self.P, e), 1)
    def equ(self, e): return flag(Select(self.P, e), 8)
    def ori(self, e): return flag(Select(self.P, e), 16)
    def l(self, e): return Select(self.L, e)
    def r(self, e): return Select(self.R, e)
    def nx(self, e): return Select(self.N, e)
    def sg(self, e): return Select(self.SG, Select(self.BK, e))
    def holds(self, e): return (V(self.l(e)) == V(self.r(e))) == self.pos(e)
    def dist(self, e): return And(DO(self.sg(e), self.l(e)), DO(self.sg(e), self.r(e)), Select(self.F, self.l(e)) != Select(self.F, self.r(e)))
    def true(self, e): return If(self.pos(e), self.l(e) == self.r(e), self.dist(e))
    def false(self, e): return If(self.pos(e), self.dist(e), self.l(e) == self.r(e))
    def eq(self, a, b): return Or(And(self.l(a) == self.l(b), self.r(a) == self.r(b)), And(self.l(a) == self.r(b), self.r(a) == self.l(b)))
    def compl(self, a, b): return And(self.pos(a) != self.pos(b), self.eq(a, b))
    def wf(self, e): return And(e > 0, self.l(e) > 0, self.r(e) > 0)


def obj_theory(c):
    H = Lt(c.o)
    s, t, g = Ints('s t g')
    sz = c._ver.sizeof(('struct', 'struct.funccell'), c._ver.prog.mods[0])
    fi, pr, dp = c.o('sigcell.f_info'), c.o('funccell.properties'), c.o('sigcell.distinct_props')
    band = Function('band', I, I, I)
    return [FA([g, t], DO(g, t) == And(Select(H.F, t) >= 0, Select(H.AR, t) == 0, band(Select(pr, Select(fi, g) + sz * Select(H.F, t)), Select(dp, g)) != 0), DO(g, t)),
            FA([g, s, t], Implies(And(DO(g, s), DO(g, t), Select(H.F, s) != Select(H.F, t)), V(s) != V(t)), (DO(g, s), DO(g, t)))]


def list_theory(H):
    """INL(h, p): p is a cell of the list h"""
    h, p, q = Ints('h p q')
    return [FA([h, p], INL(h, p) == And(h != 0, Or(p == h, INL(H.nx(h), p))), (INL(h, p), H.nx(h))), FA([p], Not(INL(0, p)), INL(IntVal(0), p))]


def well(H, h):
    p = Int('p')
    return FA([p], Implies(INL(h, p), H.wf(p)), INL(h, p))


def contracts():
    cs = []
    x, y, p, q, k = Ints('x y p q k')
    e1 = lambda n: (lambda c: [Lt(c.m).wf(c.arg(n))])
    cs.append(Contract('EqnTermsAreDistinct', requires=e1('eq'), ensures=lambda c: [('distinct', c.ret == Lt(c.o).dist(c.eq)), ('sound', Implies(c.ret, V(Lt(c.o).l(c.eq)) != V(Lt(c.o).r(c.eq))))],
                       frozen=FZ + SFZ, theory=obj_theory))
    for n, f in (('EqnIsTrue', 'true'), ('EqnIsFalse', 'false')):
        cs.append(Contract(n, requires=e1('eq'), ensures=(lambda f: lambda c: [(f, c.ret == getattr(Lt(c.o), f)(c.eq)), ('sound', Implies(c.ret, Lt(c.o).holds(c.eq) == (f == 'true')))])(f),
                           frozen=FZ + SFZ, theory=lambda c: obj_theory(c)[1:]))

    def ft_ens(c):
        H = Lt(c.o)
        return [('found', Implies(c.ret != 0, And(INL(c.list, c.ret), H.true(c.ret), H.holds(c.ret)))), ('all', Implies(c.ret == 0, FA([p], Implies(INL(c.list, p), Not(H.true(p))), INL(c.list, p))))]

    def ft_inv(c):
        H, l = Lt(c.o), c.v('list')
        return [('at', And(l >= 0, FA([p], Implies(INL(l, p), INL(c.list, p)), INL(l, p)))), ('done', FA([p], Implies(And(INL(c.list, p), Not(INL(l, p))), Not(H.true(p))), INL(c.list, p)))]
    cs.append(Contract('EqnListFindTrue', requires=lambda c: [c.list >= 0, well(Lt(c.m), c.list)], ensures=ft_ens, frozen=FZ + SFZ, theory=lambda c: list_theory(Lt(c.o)), loops=[Loop(ft_inv)]))

    # orientation marks: an oriented equation's mirror image is not oriented, so two oriented equations are never mirror images (unless trivial)
    def eq_req(c):
        H = Lt(c.m)
        return [H.wf(c.eq1), H.wf(c.eq2), c.d1 == 0, c.d2 == 0]
    cs.append(Contract('EqnEqualDeref', requires=eq_req, ensures=lambda c: [('equal', Implies(mirror(Lt(c.o), c.eq1, c.eq2), c.ret == Lt(c.o).eq(c.eq1, c.eq2))), ('sound', Implies(c.ret, Lt(c.o).eq(c.eq1, c.eq2))),
                                                                           ('l', c.m(L) == c.o(L)), ('r', c.m(R) == c.o(R))],
                       modifies={L, R}, frozen=tuple(f for f in FZ if f not in (L, R))))

    def it_ens(c):
        H = Lt(c.o)
        return [('sound', Implies(c.ret, Exists([p, q], And(INL(c.list, p), INL(c.list, q), H.compl(p, q))))),
                ('complete', Implies(Not(c.ret), FA([p, q], Implies(And(INL(c.list, p), INL(c.list, q)), Not(H.compl(p, q))), (INL(c.list, p), INL(c.list, q)))))]

    def same(c):
        return [('l', c.m(L) == c.o(L)), ('r', c.m(R) == c.o(R))]

    def it_out(c):
        H, l = Lt(c.o), c.v('list')
        return same(c) + [('at', And(l >= 0, FA([p], Implies(INL(l, p), INL(c.list, p)), INL(l, p)))),
                          ('done', FA([p, q], Implies(And(INL(c.list, p), Not(INL(l, p)), INL(c.list, q)), And(Not(H.compl(p, q)), Not(H.compl(q, p)))), (INL(c.list, p), INL(c.list, q))))]

    def it_in(c):
        H, l, h = Lt(c.o), c.v('list'), c.v('handle')
        return it_out(c) + [('l0', l > 0), ('in', And(h >= 0, FA([p], Implies(INL(h, p), INL(l, p)), INL(h, p)))), ('tail', FA([q], Implies(And(INL(l, q), q != l, Not(INL(h, q))), And(Not(H.compl(l, q)), Not(H.compl(q, l)))), INL(l, q)))]
    cs.append(Contract('EqnListIsTrivial', requires=lambda c: [c.list >= 0, well(Lt(c.m), c.list), mirrors(Lt(c.m), c.list)], ensures=it_ens, modifies={L, R}, frozen=tuple(f for f in FZ if f not in (L, R)),
                       theory=lambda c: list_theory(Lt(c.o)), loops=[Loop(it_out), Loop(it_in)]))

    def sgn(c, e): return And((c.ret > 0) == (e > 0), (c.ret < 0) == (e < 0))

    def key(H, e):
        a, b = Select(H.E, H.l(e)), Select(H.E, H.r(e))
        return If(H.equ(e), IntVal(0), IntVal(1)), If(a > b, a, b), If(a > b, b, a)

    def lex(a, b):
        r = IntVal(0)
        for x, y in reversed(list(zip(a, b))):
            r = If(x < y, IntVal(-1), If(x > y, IntVal(1), r))
        return r
    ll = lambda c: [Lt(c.m).wf(c.l1), Lt(c.m).wf(c.l2)]
    inj = lambda c: [FA([x, y], Implies(Select(c.o('termcell.entry_no'), x) == Select(c.o('termcell.entry_no'), y), x == y), (Select(c.o('termcell.entry_no'), x), Select(c.o('termcell.entry_no'), y)))]
    cs.append(Contract('EqnSyntaxCompare', requires=ll, ensures=lambda c: [('order', sgn(c, lex(key(Lt(c.o), c.l1), key(Lt(c.o), c.l2)))),
                                                                          ('equal', Implies(Lt(c.o).equ(c.l1) == Lt(c.o).equ(c.l2), (c.ret == 0) == Lt(c.o).eq(c.l1, c.l2)))], frozen=FZ, theory=inj))
    pkey = lambda H, e: (If(H.pos(e), IntVal(0), IntVal(1)),) + key(H, e)
    cs.append(Contract('LiteralSyntaxCompare', requires=ll, ensures=lambda c: [('order', sgn(c, lex(pkey(Lt(c.o), c.l1), pkey(Lt(c.o), c.l2)))),
                                                                              ('equal', Implies(Lt(c.o).equ(c.l1) == Lt(c.o).equ(c.l2), (c.ret == 0) == And(Lt(c.o).pos(c.l1) == Lt(c.o).pos(c.l2), Lt(c.o).eq(c.l1, c.l2))))],
                       frozen=FZ, theory=inj))
    return cs + long_contracts()


SFZ = ('tbcell.sig', 'sigcell.f_info', 'sigcell.distinct_props', 'funccell.properties')


def mirror(H, a, b):
    """two equations that are both marked oriented are not mirror images of each other, unless their sides are equal"""
    return Implies(And(H.ori(a), H.ori(b), H.l(a) == H.r(b), H.r(a) == H.l(b)), H.l(a) == H.r(a))


def mirrors(H, h):
    p, q = Ints('p q')
    return FA([p, q], Implies(And(INL(h, p), INL(h, q)), mirror(H, p, q)), (INL(h, p), INL(h, q)))


def key(H, e):
    a, b = Select(H.E, H.l(e)), Select(H.E, H.r(e))
    return If(H.equ(e), IntVal(0), IntVal(1)), If(a > b, a, b), If(a > b, b, a)


def lex(a, b):
    r = IntVal(0)
    for x, y in reversed(list(zip(a, b))):
        r = If(x < y, IntVal(-1), If(x > y, IntVal(1), r))
    return r


def rank_theory(H):
    x, y = Ints('x y')
    E = H.E
    return [FA([x, y], And((RKF(FS, x) < RKF(FS, y)) == (lex(key(H, x), key(H, y)) == -1), (RKF(FS, x) == RKF(FS, y)) == (lex(key(H, x), key(H, y)) == 0)), (RKF(FS, x), RKF(FS, y))),
            FA([x], RKF(FC, x) == RKF(FS, x), RKF(FC, x)),
            FA([x, y], Implies(Select(E, x) == Select(E, y), x == y), (Select(E, x), Select(E, y))),
            FA([x], (band(x, 1) == 1) == flag(x, 1), band(x, 1))]


def sorted_(f, S, lo, hi):
    i, j = Ints('i j')
    return FA([i, j], Implies(And(lo <= i, i <= j, j < hi), RKF(f, S.el(i)) <= RKF(f, S.el(j))), (S.el(i), S.el(j)))


def long_contracts():
    cs = [c for c in stack_contracts() if c.name in ('PStackAlloc', 'PStackPushP', 'PStackFree', 'PStackGrow', 'PStackElement')]
    i, j, k, p, q, x = Ints('i j k p q x')

    # --- comp_stack_eqns is EqnSyntaxCompare on what two array slots contain
    def at(c, v): return Select(Select(c.o(E64), v), 0)
    cs.append(Contract('comp_stack_eqns', requires=lambda c: [Lt(c.m).wf(at(c, c.v1)), Lt(c.m).wf(at(c, c.v2))],
                       ensures=lambda c: [('order', And((c.ret > 0) == (lex(key(Lt(c.o), at(c, c.v1)), key(Lt(c.o), at(c, c.v2))) > 0), (c.ret < 0) == (lex(key(Lt(c.o), at(c, c.v1)), key(Lt(c.o), at(c, c.v2))) < 0)))], frozen=FZ + (E64,)))

    def qs_ens(c):
        a, b = Select(c.m(E64), c.base), Select(c.o(E64), c.base)
        return [('perm', FA([x], INS(a, 0, c.nmemb, x) == INS(b, 0, c.nmemb, x), INS(a, 0, c.nmemb, x), INS(b, 0, c.nmemb, x))),
                ('sorted', FA([i, j], Implies(And(0 <= i, i <= j, j < c.nmemb), RKF(c.compar, Select(a, i)) <= RKF(c.compar, Select(a, j))), (Select(a, i), Select(a, j)))),
                ('frame', same_except(c, E64, c.base))]
    cs.append(Contract('qsort', requires=lambda c: [c.nmemb >= 0, c.size == 8], ensures=qs_ens, modifies={E64}, trusted=True))

    def so_ens(c):
        S, S0 = stk(c, c.stack), stk(c, c.stack, True)
        return [('perm', FA([x], INS(S.arr, 0, S.n, x) == INS(S0.arr, 0, S0.n, x), INS(S.arr, 0, S.n, x), INS(S0.arr, 0, S.n, x))), ('from', FA([k], Implies(And(0 <= k, k < S.n), INS(S0.arr, 0, S.n, S.el(k))), S.el(k))), ('sorted', sorted_(c.cmpfun, S, 0, S.n)), ('frame', same_except(c, E64, S.p))]
    cs.append(Contract('PStackSort', requires=lambda c: [stk(c, c.stack).ok()], ensures=so_ens, modifies={E64}, theory=lambda c: ins_theory()))

    def bs_req(c):
        S = stk(c, c.stack)
        return [S.ok(), 0 <= c.lower, c.lower <= c.upper, c.upper <= S.n, sorted_(c.cmpfun, S, c.lower, c.upper)]

    def bs_split(c, lo, hi):
        S, f = stk(c, c.stack), c.cmpfun
        return And(FA([k], Implies(And(c.lower <= k, k < lo), RKF(f, S.el(k)) < RKF(f, c.key)), S.el(k)), FA([k], Implies(And(hi <= k, k < c.upper), RKF(f, S.el(k)) > RKF(f, c.key)), S.el(k)))

    def bs_ens(c):
        S, f = stk(c, c.stack), c.cmpfun
        return [('range', And(c.lower <= c.ret, c.ret <= c.upper)),
                ('found', Or(And(c.ret < c.upper, RKF(f, S.el(c.ret)) == RKF(f, c.key)), bs_split(c, c.ret, c.ret)))]

    def bs_call(ver, st, fr, ins, argv, line):
        r = z3.FreshInt('cmp')
        f = ver.top_args['cmpfun']
        ver.oblige(st, 'calls.cmpfun', ver.val(st, fr, ins.a[0], ('ptr',)) == f, line)
        d = RKF(f, argv[0]) - RKF(f, argv[1])
        st.pc.append(And((r > 0) == (d > 0), (r < 0) == (d < 0), r >= -2**31, r < 2**31))
        return r
    cs.append(Contract('PStackBinSearch', requires=bs_req, ensures=bs_ens, callees={'*': bs_call},
                       loops=[Loop(lambda c: [('range', And(c.lower <= c.v('lower'), c.v('lower') <= c.v('upper'), c.v('upper') <= c.upper)), ('split', bs_split(c, c.v('lower'), c.v('upper')))])]))

    # --- splitting
    def two(c):
        a, b = stk(c, c.pos), stk(c, c.neg)
        return [a.ok(), b.ok(), c.pos != c.neg, a.p != b.p, a.p != c.neg, b.p != c.pos]

    def has(c, h): return band(Select(c.o(P), h), c.prop) == c.prop

    def sp_in(c, done):
        A, Bs, A0, B0 = stk(c, c.pos), stk(c, c.neg), stk(c, c.pos, True), stk(c, c.neg, True)
        return [('ok', And(two(c))), ('n', And(A.n >= A0.n, Bs.n >= B0.n)), ('arr', And([Or(z.p == A0.p, z.p == B0.p, Select(c.o(AL), z.p) != 1) for z in (A, Bs)])),
                ('old', And(FA([k], Implies(And(0 <= k, k < A0.n), A.el(k) == A0.el(k)), A.el(k)), FA([k], Implies(And(0 <= k, k < B0.n), Bs.el(k) == B0.el(k)), Bs.el(k)))),
                ('pos', FA([k], Implies(And(A0.n <= k, k < A.n), And(INL(c.list, A.el(k)), has(c, A.el(k)))), A.el(k))),
                ('neg', FA([k], Implies(And(B0.n <= k, k < Bs.n), And(INL(c.list, Bs.el(k)), Not(has(c, Bs.el(k))))), Bs.el(k))),
                ('all', FA([p], Implies(done(p), If(has(c, p), INS(A.arr, A0.n, A.n, p), INS(Bs.arr, B0.n, Bs.n, p))), INL(c.list, p))),
                ('kept', alive_kept(c, A0.p, B0.p))] + [('frame.' + f, same_except(c, f, c.pos, c.neg)) for f in sorted(Stk.F)] + [('frame.E', same_except(c, E64, A0.p, B0.p, fresh_ok=True))]
    cs.append(Contract('EqnListSplitToStacks', requires=lambda c: two(c) + [c.list >= 0, well(Lt(c.m), c.list)], ensures=lambda c: sp_in(c, lambda p: INL(c.list, p)), modifies=PFR, frozen=FZ,
                       theory=lambda c: list_theory(Lt(c.o)) + ins_theory() + [FA([p], Implies(p != 0, INL(p, p)), Lt(c.o).nx(p)), FA([p, q], Implies(And(p != 0, INL(Lt(c.o).nx(p), q)), INL(p, q)), INL(Lt(c.o).nx(p), q))],
                       loops=[Loop(lambda c: [('at', And(c.v('list') >= 0, FA([p], Implies(INL(c.v('list'), p), INL(c.list, p)), INL(c.v('list'), p))))] + sp_in(c, lambda p: And(INL(c.list, p), Not(INL(c.v('list'), p)))))]))

    # --- the search for a complementary pair in long lists
    def flags(H, h): return FA([p, q], Implies(And(INL(h, p), INL(h, q), H.eq(p, q)), H.equ(p) == H.equ(q)), (INL(h, p), INL(h, q)))

    def it_ens(c):
        H = Lt(c.o)
        return [('sound', Implies(c.ret, Exists([p, q], And(INL(c.list, p), INL(c.list, q), H.compl(p, q))))),
                ('complete', Implies(Not(c.ret), FA([p, q], Implies(And(INL(c.list, p), INL(c.list, q)), Not(H.compl(p, q))), (INL(c.list, p), INL(c.list, q))))),
                ('kept', alive_kept(c))]

    def ll_inv(c):
        A, Bs, H = stk(c, c.v('pos_lits')), stk(c, c.v('neg_lits')), Lt(c.o)
        pp, np = c.v('pp'), c.v('np')
        r = lambda e: RKF(FS, e)
        return [('res', Not(c.v('res') if not z3.is_int(c.v('res')) else c.v('res') != 0)), ('ok', And(A.ok(), Bs.ok(), c.v('pos_lits') != c.v('neg_lits'), A.p != Bs.p)),
                ('range', And(0 <= pp, pp <= A.n, 0 <= np, np <= Bs.n)),
                ('sorted', And(sorted_(FS, A, 0, A.n), sorted_(FS, Bs, 0, Bs.n))),
                ('passed', Or(And(pp < A.n, np < Bs.n, r(A.el(pp)) == r(Bs.el(np))),
                              FA([i, j], Implies(And(0 <= i, i < pp, 0 <= j, j < Bs.n), r(A.el(i)) != r(Bs.el(j))), (A.el(i), Bs.el(j))))),
                ('in', And(FA([k], Implies(And(0 <= k, k < A.n), And(INL(c.list, A.el(k)), H.pos(A.el(k)))), A.el(k)), FA([k], Implies(And(0 <= k, k < Bs.n), And(INL(c.list, Bs.el(k)), Not(H.pos(Bs.el(k))))), Bs.el(k)))),
                ('all', FA([p], Implies(INL(c.list, p), If(H.pos(p), INS(A.arr, 0, A.n, p), INS(Bs.arr, 0, Bs.n, p))), INL(c.list, p))),
                ('below', FA([i, j], Implies(And(pp <= i, i < A.n, 0 <= j, j < np), r(Bs.el(j)) < r(A.el(i))), (A.el(i), Bs.el(j)))),
                ]
    cs.append(Contract('EqnLongListIsTrivial', requires=lambda c: [c.list >= 0, well(Lt(c.m), c.list), flags(Lt(c.m), c.list)], ensures=it_ens, modifies=PFR, frozen=FZ,
                       theory=lambda c: list_theory(Lt(c.o))[1:] + ins_theory() + rank_theory(Lt(c.o)), loops=[Loop(ll_inv)]))

    # --- the clause level
    LI, PN, NN = 'clause_cell.literals', 'clause_cell.pos_lit_no', 'clause_cell.neg_lit_no'

    def ct_req(c):
        H, h = Lt(c.m), Select(c.m(LI), c.clause)
        a, b = Select(c.m(PN), c.clause), Select(c.m(NN), c.clause)
        return [h >= 0, well(H, h), mirrors(H, h), flags(H, h), a >= 0, b >= 0, a + b < 2**31,
                FA([p], Implies(INL(h, p), If(H.pos(p), a > 0, b > 0)), INL(h, p))]

    def ct_ens(c):
        H, h = Lt(c.o), Select(c.o(LI), c.clause)
        return [('sound', Implies(c.ret, Or(Exists([p], And(INL(h, p), H.true(p), H.holds(p))), Exists([p, q], And(INL(h, p), INL(h, q), H.compl(p, q)))))),
                ('complete', Implies(Not(c.ret), And(FA([p], Implies(INL(h, p), Not(H.true(p))), INL(h, p)), FA([p, q], Implies(And(INL(h, p), INL(h, q)), Not(H.compl(p, q))), (INL(h, p), INL(h, q))))))]
    cs.append(Contract('ClauseIsTrivial', requires=ct_req, ensures=ct_ens, modifies=PFR | {L, R}, frozen=tuple(f for f in FZ if f not in (L, R)) + SFZ))
    return cs
