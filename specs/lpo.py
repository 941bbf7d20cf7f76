"""C02: the LPO4 comparison computes the lexicographic path ordering"""
from .lib import *
from .kbo import PREC, prec_spec, ocb_inst, PWA, PMA, SIGSZ

SOURCES = ['ORDERINGS/cto_lpo.c', 'ORDERINGS/cto_ocb.c', 'TERMS/cte_termfunc.c', 'TERMS/cte_lambda.c', 'TERMS/cte_pattern_match_mgu.c']
VERIFY = ['TermDeref', 'TermDerefAlways', 'WHNF_deref', 'WHNF_step', 'PruneLambdaPrefix', 'TermStructEqualDeref', 'TermIsSubterm', 'OCBFunCompareMatrix', 'OCBFunCompare',
          'lpo4_alpha', 'lpo4_majo', 'lpo4_lex_ma', 'lpo4_greater', 'LPO4Greater', 'LPO4Compare']

TE = Function('TE', I, I, I, I, B)         # equality of (s,ds), (t,dt)
TEN = Function('TEN', I, I, I, I, B)       # ... of dereferenced nodes
TED = Function('TED', I, I, I, I, I)       # an argument in which they differ
SUB = Function('SUB', I, I, I, B)          # the node x is reached in (s,ds)
SUBN = Function('SUBN', I, I, I, B)
SUBW = Function('SUBW', I, I, I, I)
L = Function('L', I, I, I, I, B)
LN = Function('LN', I, I, I, I, B)
ALPHA = Function('ALPHA', I, I, I, I, I, B)
MAJ = Function('MAJ', I, I, I, I, I, B)
LEXM = Function('LEXM', I, I, I, I, I, B)
DEP = Function('DEP', I, I, I)
DEPN = Function('DEPN', I, I, I)
RD = 'g:lpo4_greater.recursion_depth'
LIM = 'g:LPORecursionDepthLimit'
TYPE = 'termcell.type'


def eq_theory(T, ty):
    s, t, ds, dt, k, x, d = Ints('s t ds dt k x d')
    X = (s, ds, t, dt)
    return [
        FA([s, ds, t, dt], TE(*X) == TEN(DT(s, ds), DD(s, ds), DT(t, dt), DD(t, dt)), TE(*X)),
        FA([s, ds, t, dt], Implies(TEN(*X), And(T.f(s) == T.f(t), ty(s) == ty(t))), TEN(*X)),
        FA([s, ds, t, dt, k], Implies(And(TEN(*X), k >= 0, k < T.n(s)), TE(T.a(s, k), ds, T.a(t, k), dt)), (TEN(*X), T.a(s, k)), (TEN(*X), T.a(t, k))),
        FA([s, ds, t, dt], Implies(Not(TEN(*X)), Or(T.f(s) != T.f(t), ty(s) != ty(t), And(TED(*X) >= 0, TED(*X) < T.n(s), Not(TE(T.a(s, TED(*X)), ds, T.a(t, TED(*X)), dt))))), TEN(*X)),
        # lemma equal_refl
        FA([s, ds], TEN(s, ds, s, ds), TEN(s, ds, s, ds)),
        # terms of one bank are shared (property C06): equal cells are one cell
        FA([s, t], TEN(s, 0, t, 0) == (s == t), TEN(s, 0, t, 0)),
    ]


def sub_theory(T):
    s, t, ds, dt, k, x, d = Ints('s t ds dt k x d')
    return [
        FA([s, d, x], SUB(s, d, x) == SUBN(DT(s, d), DD(s, d), x), SUB(s, d, x)),
        FA([s, d, x], Implies(And(SUBN(s, d, x), s != x), And(SUBW(s, d, x) >= 0, SUBW(s, d, x) < T.n(s), SUB(T.a(s, SUBW(s, d, x)), d, x))), SUBN(s, d, x)),
        FA([s, d, x], Implies(s == x, SUBN(s, d, x)), SUBN(s, d, x)),
        FA([s, d, x, k], Implies(And(k >= 0, k < T.n(s), SUB(T.a(s, k), d, x)), SUBN(s, d, x)), (SUBN(s, d, x), T.a(s, k))),
    ]


def lpo_theory(T, unfold=True):
    s, t, ds, dt, k, x, d = Ints('s t ds dt k x d')
    X = (s, ds, t, dt)
    f, g = Ints('f g')
    p = PREC(T.f(s), T.f(t))
    ak, bk = T.a(s, k), T.a(t, k)
    out = [
        FA([s, ds, t, dt], L(*X) == LN(DT(s, ds), DD(s, ds), DT(t, dt), DD(t, dt)), L(*X)),
        FA([s, ds, t, dt], LN(*X) == If(T.f(s) < 0, z3.BoolVal(False), If(T.f(t) < 0, SUBN(s, ds, t),
                                        If(p == GT, MAJ(*X, 0), If(p == EQ, LEXM(*X, 0), ALPHA(*X, 0))))), LN(*X)),
        FA([s, ds, t, dt, k], Implies(k >= T.n(s), And(Not(ALPHA(*X, k)), Not(LEXM(*X, k)))), ALPHA(*X, k), LEXM(*X, k)),
        FA([s, ds, t, dt, k], Implies(And(k >= 0, k < T.n(s)), ALPHA(*X, k) == Or(TE(ak, ds, t, dt), L(ak, ds, t, dt), ALPHA(*X, k + 1))), (ALPHA(*X, k), ak)),
        FA([s, ds, t, dt, k], Implies(k >= T.n(t), MAJ(*X, k)), MAJ(*X, k)),
        FA([s, ds, t, dt, k], Implies(And(k >= 0, k < T.n(t)), MAJ(*X, k) == And(L(s, ds, bk, dt), MAJ(*X, k + 1))), (MAJ(*X, k), bk)),
        FA([s, ds, t, dt, k], Implies(And(k >= 0, k < T.n(s)),
                                      LEXM(*X, k) == Or(k >= T.n(t), If(TE(ak, ds, bk, dt), LEXM(*X, k + 1), If(L(ak, ds, bk, dt), MAJ(*X, k + 1), ALPHA(*X, k + 1))))), (LEXM(*X, k), ak)),
        # depth of the denoted (finite) term
        FA([s, ds], And(DEP(s, ds) == DEPN(DT(s, ds), DD(s, ds)), DEP(s, ds) >= 0), DEP(s, ds)),
        FA([s, ds], DEPN(s, ds) >= 0, DEPN(s, ds)),
        FA([s, ds, k], Implies(And(k >= 0, k < T.n(s)), DEPN(s, ds) >= DEP(T.a(s, k), ds) + 1), (DEPN(s, ds), T.a(s, k))),
        FA([f, g], PREC(f, g) == prec_spec(f, g), PREC(f, g)),
        FA([s, ds, t, dt, k], Implies(And(k >= 0, k < T.n(s), k >= T.n(t)), LEXM(*X, k)), LEXM(*X, k)),
        # a node left over from dereferencing denotes itself (lemma settled)
        FA([s, ds], Implies(dok(ds), And(DT(DT(s, ds), DD(s, ds)) == DT(s, ds), DD(DT(s, ds), DD(s, ds)) == DD(s, ds))), DT(DT(s, ds), DD(s, ds))),
        # assumed: the orderings' subterm property and transitivity (a term above some argument-greater term is above all its arguments)
        FA([s, ds, t, dt, k], Implies(And(k >= 1, ALPHA(*X, k)), MAJ(*X, k)), (ALPHA(*X, k), MAJ(*X, k))),
    ]
    return out if unfold else out[:2] + out[7:11] + out[12:13]


def settled(T, t, d):
    return And(Or(d == 0, T.b(t) == 0), d >= 0, d <= 2)


def dok(d):
    return And(d >= 0, d <= 2)


def LEMMAS():
    T = Terms(lambda k: z3.Const(k + '@L', z3.ArraySort(I, A1) if k.endswith('[]') else A1))
    ty = lambda t: Select(z3.Const('type@L', A1), t)
    s, ds, qk = z3.Int('s0'), z3.Int('ds0'), Int('qk')
    base = deref_theory(T) + wf_terms(T) + eq_theory(T, ty)[:4]
    ih = FA([qk], Implies(And(qk >= 0, qk < T.n(s)), TE(T.a(s, qk), ds, T.a(s, qk), ds)), T.a(s, qk))
    dd = deref_theory(T)
    return {'settled': dict(axioms=dd, goals=[('node', Implies(dok(ds), And(DT(DT(s, ds), DD(s, ds)) == DT(s, ds), DD(DT(s, ds), DD(s, ds)) == DD(s, ds))))]), 'equal_refl': dict(axioms=base + [ih], goals=[('node', TEN(s, ds, s, ds))]), 'deref_idem': deref_lemma(T)}


def contracts():
    def th0(c):
        T = Terms(c.o)
        return deref_theory(T) + wf_terms(T)

    def th(c):
        T = Terms(c.o)
        t, d = Ints('t d')
        return [FA([t, d], Implies(Or(d == 0, T.b(t) == 0), And(DT(t, d) == t, DD(t, d) == d)), DT(t, d))] + deref_theory(T)[2:] + wf_terms(T)
    Ty = lambda c: (lambda t: Select(c.o(TYPE), t))
    the = lambda c: th(c) + eq_theory(Terms(c.o), Ty(c))
    ths = lambda c: th(c) + sub_theory(Terms(c.o))
    thl = lambda c: th(c) + sub_theory(Terms(c.o))[:1] + lpo_theory(Terms(c.o))
    thg = lambda c: th(c) + sub_theory(Terms(c.o))[:1] + lpo_theory(Terms(c.o), False)
    FZ = TERM + (TYPE,)
    fo = lambda c: [('fo', c.m('g:problemType') != c.enums['PROBLEM_HO'])]

    def bad(name):
        return Contract(name, requires=lambda c: [('higher-order only', z3.BoolVal(False))], trusted=True, doc='must be unreachable for first order problems')
    cs = [c_TermDeref()]

    def da_inv(c):
        return [DT(c.v('term'), 2) == DT(c.term, 2), DD(c.v('term'), 2) == DD(c.term, 2), term_ok(c.v('term'))]
    cs.append(Contract('TermDerefAlways', requires=lambda c: [('t', term_ok(c.term))],
                       ensures=lambda c: [('node', c.ret == DT(c.term, 2)), ('ok', term_ok(c.ret)), ('left', DD(c.term, 2) == 2), ('unbound', Terms(c.o).b(c.ret) == 0)], frozen=FZ, theory=th0, loops=[Loop(da_inv)]))
    cs.append(Contract('WHNF_deref', requires=lambda c: [('t', term_ok(c.t))],
                       ensures=lambda c: [('node', c.ret == DT(c.t, 2)), ('ok', term_ok(c.ret)), ('left', DD(c.t, 2) == 2), ('unbound', Terms(c.o).b(c.ret) == 0)], frozen=FZ, theory=th))
    cs.append(Contract('WHNF_step', requires=lambda c: [('t', term_ok(c.t))], ensures=lambda c: [('same', c.ret == c.t)], frozen=FZ, theory=th))
    cs.append(Contract('PruneLambdaPrefix', ensures=lambda c: [('same', And(c.cell('t1_ref') == c.ocell('t1_ref'), c.cell('t2_ref') == c.ocell('t2_ref')))],
                       cells={'t1_ref': PTR, 't2_ref': PTR}, cell_mod={'t1_ref', 't2_ref'}, frozen=FZ))
    for n in ('eta_expand_otf', 'TBInsertInstantiatedDeref', 'BetaNormalizeDB', 'do_eta_reduce_db', 'whnf_step_uncached'):
        cs.append(bad(n))
    cs.append(Contract('LambdaEtaReduceDB', requires=lambda c: [('t', term_ok(c.term))], ensures=lambda c: [('same', c.ret == c.term)], frozen=FZ, trusted=True,
                       doc='a term without lambda subterms is its own eta normal form (first order terms carry no lambda flag)'))

    def se_loop(c):
        T = Terms(c.o)
        k = Int('k')
        s, ds, t, dt = c.v('t1'), c.v('deref_1'), c.v('t2'), c.v('deref_2')
        i = c.v('i')
        return [('i', And(i >= 0, i <= T.n(s), T.f(s) == T.f(t), Ty(c)(s) == Ty(c)(t))),
                ('eq', FA([k], Implies(And(k >= 0, k < i), TE(T.a(s, k), ds, T.a(t, k), dt)), T.a(s, k)))]
    cs.append(Contract('TermStructEqualDeref', requires=lambda c: [('s', term_ok(c.t1)), ('t', term_ok(c.t2)), ('ds', dok(c.deref_1)), ('dt', dok(c.deref_2))] + fo(c),
                       ensures=lambda c: [('equal', c.ret == TE(c.t1, c.deref_1, c.t2, c.deref_2))], frozen=FZ, theory=the, loops=[Loop(se_loop)]))

    def is_loop(c):
        T = Terms(c.o)
        k = Int('k')
        s, ds = c.v('super'), c.v('deref')
        i = c.v('i')
        return [('i', And(i >= 0, i <= T.n(s), s != c.test)), ('no', FA([k], Implies(And(k >= 0, k < i), Not(SUB(T.a(s, k), ds, c.test))), T.a(s, k)))]
    cs.append(Contract('TermIsSubterm', requires=lambda c: [('s', term_ok(c.super)), ('d', dok(c.deref))],
                       ensures=lambda c: [('occurs', c.ret == SUB(c.super, c.deref, c.test))], frozen=FZ, theory=ths, loops=[Loop(is_loop)]))
    inst = lambda c: [x for x in ocb_inst(c) if x[0] in ('ocb.inst', 'ocb.prec')]
    from .kbo import contracts as kc
    cs += [x for x in kc() if x.name in ('OCBFunCompareMatrix', 'OCBFunCompare')]

    def args(c):
        return [('s', term_ok(c.s)), ('t', term_ok(c.t)), ('ds', dok(c.deref_s)), ('dt', dok(c.deref_t)), ('rd', c.m(RD) >= 0)] + fo(c) + inst(c) + \
            enum_guard(c, to_uncomparable=UNC, to_equal=EQ, to_greater=GT, to_lesser=LT)

    def node(c, which):
        T = Terms(c.o)
        out = []
        if 's' in which:
            out.append(('s.node', And(settled(T, c.s, c.deref_s), T.f(c.s) > 0)))
        if 't' in which:
            out.append(('t.node', And(settled(T, c.t, c.deref_t), T.f(c.t) > 0)))
        return out + ([('pos', c.pos >= 0)] if hasattr(c, 'pos') else [])

    def post(c, spec, depth, res=None):
        res = c.ret if res is None else res
        return [('depth', c.m(RD) == c.o(RD)), ('sound', Implies(res, spec)), ('complete', Implies(And(spec, c.o(RD) + depth <= c.o(LIM)), res))]
    X = lambda c: (c.s, c.deref_s, c.t, c.deref_t)
    dn = lambda c: DEPN(c.s, c.deref_s) + DEPN(c.t, c.deref_t) - 1

    def loop(spec, posn, neg):
        def inv(c):
            k = c.v('pos')
            x = X(c)
            return [('k', k >= c.pos), ('rd', c.m(RD) == c.o(RD)), ('rest', Implies(spec(*x, k), spec(*x, c.pos)) if neg else Implies(spec(*x, k), spec(*x, c.pos))),
                    ('rest2', Implies(And(c.o(RD) + dn(c) <= c.o(LIM)), spec(*x, k) == spec(*x, c.pos)))]
        return inv
    MOD = {RD}
    cs.append(Contract('lpo4_alpha', requires=lambda c: args(c) + node(c, 'st')[:2] + [('pos', c.pos >= 0)], ensures=lambda c: post(c, ALPHA(*X(c), c.pos), dn(c)),
                       modifies=MOD, frozen=FZ + (LIM,), theory=thl, loops=[Loop(loop(ALPHA, 1, False))]))

    cs.append(Contract('lpo4_majo', requires=lambda c: args(c) + node(c, 'st')[:2] + [('pos', c.pos >= 0)], ensures=lambda c: post(c, MAJ(*X(c), c.pos), dn(c)),
                       modifies=MOD, frozen=FZ + (LIM,), theory=thl, loops=[Loop(loop(MAJ, 1, False))]))
    cs.append(Contract('lpo4_lex_ma', requires=lambda c: args(c) + node(c, 'st')[:2] + [('pos', c.pos >= 0)], ensures=lambda c: post(c, LEXM(*X(c), c.pos), dn(c)),
                       modifies=MOD, frozen=FZ + (LIM,), theory=thl, loops=[Loop(loop(LEXM, 1, False))]))
    depth = lambda c: DEP(c.s, c.deref_s) + DEP(c.t, c.deref_t)

    def gr_post(c):
        s, ds, t, dt = N = (DT(c.s, c.deref_s), DD(c.s, c.deref_s), DT(c.t, c.deref_t), DD(c.t, c.deref_t))
        return [('hint.s', And(DT(s, ds) == s, DD(s, ds) == ds)), ('hint.t', And(DT(t, dt) == t, DD(t, dt) == dt)), ('hint.sub', SUB(s, ds, t) == SUBN(s, ds, t)),
                ('hint.n', LN(*N) == L(*X(c)))] + post(c, L(*X(c)), depth(c))
    cs.append(Contract('lpo4_greater', requires=args, ensures=gr_post, modifies=MOD, frozen=FZ + (LIM,), theory=thg))
    cs.append(Contract('LPO4Greater', requires=args, ensures=lambda c: post(c, L(*X(c)), depth(c)), modifies=MOD, frozen=FZ + (LIM,), theory=thg))

    def cmp_post(c):
        x, y = X(c), (c.t, c.deref_t, c.s, c.deref_s)
        deep = c.o(RD) + depth(c) <= c.o(LIM)
        return [('equal', (c.ret == EQ) == TE(*x)), ('greater', Implies(c.ret == GT, And(L(*x), Not(TE(*x))))), ('lesser', Implies(c.ret == LT, And(L(*y), Not(TE(*x))))),
                ('exact', Implies(deep, c.ret == If(TE(*x), EQ, If(L(*x), GT, If(L(*y), LT, IntVal(UNC)))))), ('range', And(c.ret >= 1, c.ret <= 4)), ('depth', c.m(RD) == c.o(RD))]
    cs.append(Contract('LPO4Compare', requires=args, ensures=cmp_post, modifies=MOD, frozen=FZ + (LIM,), theory=thg))
    return cs
