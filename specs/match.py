"""C03: first order matching is sound and complete.

PV is an arbitrary valuation of pattern terms in the algebra of finite well-sorted trees, TV the valuation that takes
every target term to itself (target variables are constants, terms are shared, hence TV is injective).  MRESP(b): PV is
the instance that the binding map b prescribes.  The loop keeps
"PV respects the initial bindings and maps the pattern to the target" equivalent to
"PV respects the current bindings and solves all pending pairs"."""
import copy
from .lib import *
from .seq import *
from . import seq, unify
from .unify import HT, wf, INS, ins_theory, BND, TERM0, sub, below, PREDPOS

SOURCES = ['TERMS/cte_match_mgu_1-1.c', 'TERMS/cte_subst.c', 'TERMS/cte_termfunc.c', 'BASICS/clb_plocalstacks.c', 'BASICS/clb_pstacks.c', '@probe_terms.c']
VERIFY = ['PLocalStackGrow', 'TermWeightCompute', 'SubstAddBinding', 'SubstBacktrackSingle', 'SubstBacktrackToPos', 'SubstBacktrack', 'SubstComputeMatch']
ASSUMES = ['terms are finite, well-sorted first order terms in a term bank: structurally equal target terms are the same cell, '
           'and cached weights and symbol counts are the real ones (property C06)']
VW, FW = 1, 2     # DEFAULT_VWEIGHT, DEFAULT_FWEIGHT

PV, TV, HEADV, TYP, SZ, TVI = (Function(n, I, I) for n in ('PV', 'TV', 'HEADV', 'TYP', 'SZ', 'TVI'))
MEQ = Function('MEQ', I, I, I, B)
MRESP = Function('MRESP', A1, B)
mrw = Function('mresp_wit', A1, I)
VCT, FCT = Function('VCT', I, I), Function('FCT', I, I)       # number of variable / function symbol occurrences
SVC, SFC = Function('SVC', I, I, I), Function('SFC', I, I, I)
MJ = Function('MJ', A1, I, B)
PSUM = Function('PSUM', A1, I, I)
dw = Function('pair_diff', A1, A1, I, I)
WEIGHT = ('termcell.weight', 'termcell.v_count', 'termcell.f_count', 'termcell.properties')


def WT(t):
    return VW * VCT(t) + FW * FCT(t)


def SWT(t, k):
    return VW * SVC(t, k) + FW * SFC(t, k)


def count_theory(T):
    t, k = Ints('t k')
    return [FA([t], And(VCT(t) == If(T.f(t) < 0, IntVal(1), SVC(t, T.n(t))), FCT(t) == If(T.f(t) < 0, IntVal(0), 1 + SFC(t, T.n(t)))), VCT(t), FCT(t)),
            FA([t], SVC(t, 0) == 0, SVC(t, IntVal(0)), VCT(t)), FA([t], SFC(t, 0) == 0, SFC(t, IntVal(0)), FCT(t)),
            FA([t, k], Implies(k >= 0, And(SVC(t, k + 1) == SVC(t, k) + VCT(T.a(t, k)), SFC(t, k + 1) == SFC(t, k) + FCT(T.a(t, k)))), (SVC(t, k), T.a(t, k)), (SFC(t, k), T.a(t, k)),
               (SVC(t, k + 1), T.a(t, k)), (SFC(t, k + 1), T.a(t, k)))]


def cached(c, T):
    """cached attributes of shared terms"""
    t = Int('t')
    w, v, f, p = (c.o(k) for k in WEIGHT)
    sh = c.enums.get('TPIsShared')
    return [FA([t], Implies(flag(Select(p, t), sh), And(Select(w, t) == WT(t), Select(v, t) == VCT(t), Select(f, t) == FCT(t), VCT(t) >= 0, FCT(t) >= 0)), Select(p, t))]


def val_theory(T):
    t, m, k = Ints('t m k')
    return [
        FA([t], And(TYP(TV(t)) == T.ty(t), HEADV(TV(t)) == T.f(t), TVI(TV(t)) == t, SZ(TV(t)) == WT(t)), TV(t)),
        FA([m], And(TYP(PV(m)) == T.ty(m), Implies(T.f(m) > 0, HEADV(PV(m)) == T.f(m)), SZ(PV(m)) >= WT(m)), PV(m)),   # weight: lemma instance_weight
        FA([m, t], Implies(And(T.f(m) > 0, T.f(m) == T.f(t)), (PV(m) == TV(t)) == MEQ(m, t, T.n(m))), (PV(m), TV(t))),
        FA([m, t], MEQ(m, t, 0), MEQ(m, t, IntVal(0))),
        FA([m, t, k], Implies(And(k >= 0, k < T.n(m)), MEQ(m, t, k + 1) == And(MEQ(m, t, k), PV(T.a(m, k)) == TV(T.a(t, k)))), (MEQ(m, t, k + 1), T.a(m, k)), (MEQ(m, t, k), T.a(m, k))),
    ]


def resp_theory():
    b = z3.Const('b', A1)
    x, t = Ints('x t')
    return [FA([b, x], Implies(And(MRESP(b), Select(b, x) != 0), PV(x) == TV(Select(b, x))), (MRESP(b), Select(b, x))),
            FA([b], Implies(Not(MRESP(b)), And(Select(b, mrw(b)) != 0, PV(mrw(b)) != TV(Select(b, mrw(b))))), MRESP(b)),
            # lemma mresp_store
            FA([b, x, t], Implies(And(Select(b, x) == 0, t != 0), MRESP(Store(b, x, t)) == And(MRESP(b), PV(x) == TV(t))), MRESP(Store(b, x, t)))]


EXT = Function('EXT', A1, A1, I, A1, A1, I, B)   # bindings b0 with trail a0[0..n0-1] were extended to b with trail a[0..n-1], binding only free variables
extx = Function('ext_wit_x', A1, A1, I, A1, A1, I, I)
extk = Function('ext_wit_k', A1, A1, I, A1, A1, I, I)


def ext_parts(b0, a0, n0, b, a, n, x, k):
    return (Implies(And(k >= 0, k < n0), Select(a, k) == Select(a0, k)),
            Or(Select(b, x) == Select(b0, x), And(Select(b0, x) == 0, INS(a, n0, n, x))), Implies(INS(a, n0, n, x), Select(b0, x) == 0))


UNDO = Function('UNDO', A1, A1, I, I, A1)        # UNDO(b, a, lo, hi)[x] is 0 if x is among a[lo..hi-1] and b[x] otherwise


def ext_theory(intro=False):
    b0, a0, b, a, b2, a2 = z3.Consts('b0 a0 b a b2 a2', A1)
    n0, n, n2, x, k = Ints('n0 n n2 x k')
    P = (b0, a0, n0, b, a, n)
    e = EXT(*P)
    be, tr, nw = ext_parts(*P, x, k)
    r = [FA(list(P), Implies(e, n >= n0), e), FA(list(P) + [k], Implies(e, be), (e, Select(a, k)), (e, Select(a0, k))),
         FA(list(P) + [x], Implies(e, tr), (e, Select(b, x)), (e, Select(b0, x))), FA(list(P) + [x], Implies(e, nw), (e, INS(a, n0, n, x)))]
    if intro:
        w = ext_parts(*P, extx(*P), extk(*P))
        return r + [FA(list(P), Or(e, n < n0, Not(And(w))), e)]
    # lemmas ext_undo, ext_cut, ext_refl, ext_trans
    return r + [FA(list(P), Implies(e, And(UNDO(b, a, n0, n) == b0, EXT(b0, a0, n0, b0, a, n0))), (e, UNDO(b, a, n0, n))), FA([b, a, n], EXT(b, a, n, b, a, n), EXT(b, a, n, b, a, n)), FA(list(P) + [b2, a2, n2], Implies(And(e, EXT(b, a, n, b2, a2, n2)), EXT(b0, a0, n0, b2, a2, n2)), (e, EXT(b, a, n, b2, a2, n2)))]


def wrapped(cs):
    """the contracts of the substitution trail, stated with EXT and UNDO"""
    add, bt, ba = copy.copy(cs['SubstAddBinding']), copy.copy(cs['SubstBacktrackToPos']), copy.copy(cs['SubstBacktrack'])
    f, g, h = add.ensures, bt.ensures, ba.ensures
    S0 = lambda c: sub(c, True)
    add.ensures = lambda c: f(c) + [('ext', Implies(Select(c.o(BND), c.var) == 0, ext_of(c)))]          # lemma ext_add
    lo = lambda c: If(c.pos < S0(c).n, c.pos, S0(c).n)
    bt.ensures = lambda c: [(n, e) for n, e in g(c) if n != 'undone'] + [('undone', c.m(BND) == UNDO(c.o(BND), S0(c).arr, lo(c), S0(c).n))]    # by definition of UNDO
    ba.ensures = lambda c: [(n, e) for n, e in h(c) if n != 'undone'] + [('undone', c.m(BND) == UNDO(c.o(BND), S0(c).arr, IntVal(0), S0(c).n))]
    b, a = z3.Consts('b a', A1)
    l, n, x = Ints('l n x')
    undo = [FA([b, a, l, n, x], Select(UNDO(b, a, l, n), x) == If(INS(a, l, n, x), IntVal(0), Select(b, x)), Select(UNDO(b, a, l, n), x))]
    add.theory = lambda c: ins_theory() + ext_theory(True)[-1:]
    bt.theory = ba.theory = lambda c: ins_theory() + undo
    return [add, bt, ba]


def ext_of(c):
    S, S0 = sub(c), sub(c, True)
    return EXT(c.o(BND), S0.arr, S0.n, c.m(BND), S.arr, S.n)


def pair_defs():
    a = z3.Const('a', A1)
    n, j = Ints('n j')
    return [FA([a], And(MJ(a, 0), PSUM(a, 0) == 0), MJ(a, IntVal(0)), PSUM(a, IntVal(0))),
            FA([a, n, j], Implies(And(j >= 0, n == j + 2), And(MJ(a, n) == And(MJ(a, j), PV(Select(a, j)) == TV(Select(a, j + 1))),
                                                             PSUM(a, n) == PSUM(a, j) + WT(Select(a, j + 1)) - WT(Select(a, j)))), (MJ(a, n), MJ(a, j)), (PSUM(a, n), PSUM(a, j)), (MJ(a, n), Select(a, j)), (PSUM(a, n), Select(a, j)))]


def two(a, j, j1, v, w):
    return Store(Store(a, j, v), j1, w)


def pair_theory():
    a, b = z3.Consts('a b', A1)
    n, j, v = Ints('n j v')
    j1, w = Ints('j1 w')
    d = dw(a, b, n)
    return pair_defs() + [
        # lemma pairs
        FA([a, b, n], Or(And(MJ(a, n) == MJ(b, n), PSUM(a, n) == PSUM(b, n)), And(d >= 0, d < n, Select(a, d) != Select(b, d))), (MJ(a, n), MJ(b, n)), (PSUM(a, n), PSUM(b, n))),
        FA([a, j, n, v], Implies(j >= n, And(MJ(Store(a, j, v), n) == MJ(a, n), PSUM(Store(a, j, v), n) == PSUM(a, n))), MJ(Store(a, j, v), n), PSUM(Store(a, j, v), n)),
        FA([a, j, j1, v, w, n], Implies(And(j >= 0, j1 == j + 1, n == j + 2), And(MJ(two(a, j, j1, v, w), n) == And(MJ(a, j), PV(v) == TV(w)),
                                                                                 PSUM(two(a, j, j1, v, w), n) == PSUM(a, j) + WT(w) - WT(v))), MJ(two(a, j, j1, v, w), n), PSUM(two(a, j, j1, v, w), n)),
        FA([a, n], Implies(And(n % 2 == 0, n >= 0, MJ(a, n)), PSUM(a, n) >= 0), MJ(a, n)),
    ]


def theory(c):
    T = HT(c.o)
    return wf(T) + count_theory(T) + cached(c, T) + val_theory(T) + resp_theory() + pair_theory() + ext_theory()


def LEMMAS():
    T = HT(lambda k: z3.Const(k + '@L', z3.ArraySort(I, A1) if k.endswith('[]') else A1))
    b, b9, a, a2 = z3.Consts('b0 b9 a0 a2', A1)
    t, x, u, k, n, v, j = z3.Ints('t0 x0 u0 k0 n0 v0 j0')
    q, qk = Ints('q qk')
    L = {}
    g = [Select(b, x) == 0, t != 0, b9 == Store(b, x, t)]
    for z in (x, mrw(b), mrw(b9)):
        g += [Select(b, z) == Select(b, z), Select(b9, z) == Store(b, x, t)[z]]
    inst = lambda r, z: Implies(And(MRESP(r), Select(r, z) != 0), PV(z) == TV(Select(r, z)))
    L['mresp_store'] = dict(axioms=[inst(r, z) for r in (b, b9) for z in (x, mrw(b), mrw(b9))] + [resp_theory()[1]], goals=[
        ('split', Implies(And(g), MRESP(b9) == And(MRESP(b), PV(x) == TV(t))))])
    P, Q = (b, a, n, z3.Const('b1', A1), a2, k), (z3.Const('b1', A1), a2, k, b9, z3.Const('a3', A1), v)
    R = P[:3] + Q[3:]
    wx, wk = extx(*R), extk(*R)
    a3 = Q[4]
    iws = [(a2, n, k), (a3, k, v), (a3, n, v)]
    ks = [wk] + [unify.iw(*i, wx) for i in iws]
    inst = [And(INS(*i, wx) == True, Select(i[0], unify.iw(*i, wx)) == wx, i[1] <= unify.iw(*i, wx), unify.iw(*i, wx) < i[2]) == INS(*i, wx) for i in iws]
    inst += [Implies(And(i[1] <= q, q < i[2], Select(i[0], q) == wx), INS(*i, wx)) for i in iws for q in ks]
    inst += [Implies(EXT(*p), And(*ext_parts(*p, wx, q))) for p in (P, Q) for q in ks] + [Implies(EXT(*p), p[5] >= p[2]) for p in (P, Q)]
    L['ext_trans'] = dict(axioms=inst + [Or(EXT(*R), R[5] < R[2], Not(And(ext_parts(*R, wx, wk))))], goals=[('trans', Implies(And(n >= 0, EXT(*P), EXT(*Q)), EXT(*R)))])
    ux = Int('ux')
    L['ext_undo'] = dict(axioms=[Select(UNDO(P[3], P[4], P[2], P[5]), ux) == If(INS(P[4], P[2], P[5], ux), IntVal(0), Select(P[3], ux)), Implies(EXT(*P), And(ext_parts(*P, ux, ux)))],
                         goals=[('undo', Implies(EXT(*P), Select(UNDO(P[3], P[4], P[2], P[5]), ux) == Select(P[0], ux)))])
    C = P[:4][:3] + (b, a2, n)
    L['ext_cut'] = dict(axioms=[Or(EXT(*C), Not(And(ext_parts(*C, extx(*C), extk(*C))))), Implies(EXT(*P), And(ext_parts(*P, extx(*C), extk(*C)))), Not(INS(a2, n, n, extx(*C)))],
                        goals=[('cut', Implies(EXT(*P), EXT(*C)))])
    Z = (b, a, n, Store(b, x, t), a2, n + 1)
    i0 = unify.iw(a2, n, n + 1, extx(*Z))
    L['ext_add'] = dict(axioms=[Or(EXT(*Z), Not(And(ext_parts(*Z, extx(*Z), extk(*Z))))), FA([q], Implies(And(q >= 0, q < n), Select(a2, q) == Select(a, q)), Select(a2, q)),
                                Implies(INS(a2, n, n + 1, extx(*Z)), And(n <= i0, i0 < n + 1, Select(a2, i0) == extx(*Z))),
                                Implies(Select(a2, n) == extx(*Z), INS(a2, n, n + 1, extx(*Z)))],
                        goals=[('add', Implies(And(Select(b, x) == 0, Select(a2, n) == x), EXT(*Z)))])
    W, wx, wk = P[:3] + P[:3], Int('wx'), Int('wk')
    itself = Or(EXT(*W), Not(And(ext_parts(*W, wx, wk))))
    L['ext_refl'] = dict(axioms=[itself, Implies(INS(a, n, n, wx), And(n <= unify.iw(a, n, n, wx), unify.iw(a, n, n, wx) < n))], goals=[('refl', EXT(*W))])
    D = [FA([q], And(e), Select(P[4], q), Select(P[3], q), Select(P[0], q), INS(P[4], P[2], P[5], q)) for e in zip(*[ext_parts(*P, q, q)])]
    L['ext_intro'] = dict(axioms=[Or(EXT(*P), P[5] < P[2], Not(And(ext_parts(*P, extx(*P), extk(*P)))))] + D, goals=[('intro', Implies(P[5] >= P[2], EXT(*P)))])
    # the instance of a pattern is at least as heavy as the pattern: every tree weighs at least a variable's weight
    SS = Function('SS', I, I, I)
    tree = [SS(t, 0) == 0, FA([qk], Implies(qk >= 0, SS(t, qk + 1) == SS(t, qk) + SZ(PV(T.a(t, qk)))), (SS(t, qk), T.a(t, qk))), FA([q], SZ(PV(q)) >= VW, PV(q)),
            Implies(T.f(t) > 0, SZ(PV(t)) == FW + SS(t, T.n(t)))]
    ih = FA([qk], Implies(And(qk >= 0, qk < T.n(t)), SZ(PV(T.a(t, qk))) >= WT(T.a(t, qk))), T.a(t, qk))
    L['instance_weight'] = dict(axioms=wf(T) + count_theory(T) + tree + [ih], goals=[
        ('base', SS(t, 0) >= SWT(t, IntVal(0))),
        ('step', Implies(And(k >= 0, k < T.n(t), SS(t, k) >= SWT(t, k), T.a(t, k) > 0), SS(t, k + 1) >= SWT(t, k + 1))),
        ('node', Implies(And(SS(t, T.n(t)) >= SWT(t, T.n(t)), T.f(t) != 0), SZ(PV(t)) >= WT(t)))])
    pd = pair_defs()
    inst = lambda a, n: And(MJ(a, n + 2) == And(MJ(a, n), PV(Select(a, n)) == TV(Select(a, n + 1))), PSUM(a, n + 2) == PSUM(a, n) + WT(Select(a, n + 1)) - WT(Select(a, n)))
    dif = lambda a, b, n: Exists([q], And(q >= 0, q < n, Select(a, q) != Select(b, q)))
    cong = lambda n: Or(And(MJ(a, n) == MJ(a2, n), PSUM(a, n) == PSUM(a2, n)), dif(a, a2, n))
    abv = lambda n: Implies(j >= n, And(MJ(Store(a, j, v), n) == MJ(a, n), PSUM(Store(a, j, v), n) == PSUM(a, n)))
    abv2 = lambda n: And(MJ(two(a, n, n + 1, v, u), n) == MJ(a, n), PSUM(two(a, n, n + 1, v, u), n) == PSUM(a, n))
    nn = lambda n: Implies(MJ(a, n), PSUM(a, n) >= 0)
    L['pairs'] = dict(axioms=[pd[0], inst(a, n), inst(a2, n), inst(Store(a, j, v), n)] + [val_theory(T)[0], val_theory(T)[1]], goals=[
        ('congruence.base', cong(IntVal(0))), ('congruence.step', Implies(And(n >= 0, cong(n)), cong(n + 2))),
        ('store.base', abv(IntVal(0))), ('store.step', Implies(And(n >= 0, abv(n)), abv(n + 2))),
        ('push', Implies(And(n >= 0, abv2(n), inst(two(a, n, n + 1, v, u), n)), And(MJ(two(a, n, n + 1, v, u), n + 2) == And(MJ(a, n), PV(v) == TV(u)),
                                                                        PSUM(two(a, n, n + 1, v, u), n + 2) == PSUM(a, n) + WT(u) - WT(v)))),
        ('nonneg.base', nn(IntVal(0))), ('nonneg.step', Implies(And(n >= 0, nn(n)), nn(n + 2)))])
    return L


def contracts():
    base = {c.name: c for c in unify.contracts()}
    cs = [base[n] for n in ('SizeMallocReal', 'SizeFreeReal', 'SubstBacktrackSingle')] + wrapped(base) + stack_contracts() + [c_PLocalStackGrow()]
    x, k = Ints('x k')
    okt = lambda t: t > 0

    def wc_inv(c):
        T, i = HT(c.o), c.v('i')
        return [('i', And(i >= 0, i <= T.n(c.term))), ('sum', c.v('res') == c.fweight + SVC(c.term, i) * c.vweight + SFC(c.term, i) * c.fweight)]
    cs.append(Contract('TermWeightCompute', requires=lambda c: [okt(c.term)], ensures=lambda c: [('weight', c.ret == VCT(c.term) * c.vweight + FCT(c.term) * c.fweight)],
                       frozen=TERM0 + WEIGHT, theory=lambda c: wf(HT(c.o)) + count_theory(HT(c.o)) + cached(c, HT(c.o)), loops=[Loop(wc_inv)]))

    G0 = lambda c: And(MRESP(c.o(BND)), PV(c.matcher) == TV(c.to_match))

    def added(c):
        S, S0, b, b0, T = sub(c), sub(c, True), c.m(BND), c.o(BND), HT(c.o)
        return [('ok', S.ok()), ('ext', ext_of(c)), ('bindok', T.bindok(b))]

    def ens(c):
        b, b0, T = c.m(BND), c.o(BND), HT(c.o)
        S, S0 = sub(c), sub(c, True)
        pp = And(flag(Select(c.o('termcell.properties'), c.to_match), 1 << PREDPOS(c)), T.f(c.matcher) < 0)
        return [('matches', Implies(And(c.ret, MRESP(b)), PV(c.matcher) == TV(c.to_match))),
                ('respects', Implies(And(c.ret, G0(c)), MRESP(b))),
                ('complete', Implies(And(Not(c.ret), Not(pp)), Not(G0(c)))),
                ('restored', Implies(Not(c.ret), And(S.n == S0.n, b == b0)))] + \
               [(l, Implies(c.ret, e)) for l, e in added(c)] + [('ok.always', S.ok()), ('ext.always', ext_of(c)), ('bindok.always', T.bindok(b)), ('s.new', Or(S.p == S0.p, Select(c.o(AL), S.p) != 1)),
                ('kept', alive_kept(c, S0.p)), ('frame.E', same_except(c, E64, S0.p, fresh_ok=True))] + [('frame.' + f, same_except(c, f, c.subst)) for f in sorted(Stk.F)]

    def common(c):
        S, S0 = sub(c), sub(c, True)
        D, cur, size = c.v('jobs_data', PTR), c.v('jobs_current'), c.v('jobs_size')
        return added(c) + [('cap', And(cur >= 0, cur <= size, size > 0, cur % 2 == 0)),
                           ('data', And(D > 0, alive(c.m(AL), D), D != S.p, D != S.s, Or(Select(c.o(AL), D) != 1, D == S0.p))),
                           ('kept', alive_kept(c, S0.p)), ('s.new', Or(S.p == S0.p, Select(c.o(AL), S.p) != 1)),
                           ('terms', FA([k], Implies(And(k >= 0, k < cur), Select(Select(c.m(E64), D), k) > 0), Select(Select(c.m(E64), D), k)))] + \
            [('frame.' + f, same_except(c, f, c.subst)) for f in sorted(Stk.F)] + [('frame.E', same_except(c, E64, S0.p, fresh_ok=True))]

    def outer(c):
        A, cur = Select(c.m(E64), c.v('jobs_data', PTR)), c.v('jobs_current')
        return common(c) + [('equiv', G0(c) == And(MRESP(c.m(BND)), MJ(A, cur))), ('weight', c.v('matcher_weight') + PSUM(A, cur) == WT(c.to_match)),
                            ('tw', c.v('to_match_weight') == WT(c.to_match))]

    def inner(c):
        T = HT(c.o)
        A, cur = Select(c.m(E64), c.v('jobs_data', PTR)), c.v('jobs_current')
        m, t, i = c.v('matcher'), c.v('to_match'), c.v('i')
        return common(c) + [('t', And(okt(m), okt(t), T.f(m) > 0, T.f(m) == T.f(t), i >= -1, i < T.n(m))),
                            ('space', cur + 2 * (i + 1) <= c.v('jobs_size')),
                            ('equiv', G0(c) == And(MRESP(c.m(BND)), MJ(A, cur), MEQ(m, t, i + 1))),
                            ('weight', c.v('matcher_weight') + PSUM(A, cur) + SWT(t, i + 1) - SWT(m, i + 1) == WT(c.to_match))]
    cs.append(Contract('SubstComputeMatch', requires=lambda c: [sub(c).ok(), okt(c.matcher), okt(c.to_match), HT(c.m).bindok(c.m(BND))], ensures=ens,
                       modifies={BND} | PFR, frozen=TERM0 + WEIGHT, theory=theory, ite=True, loops=[Loop(outer), Loop(inner)]))
    return cs
