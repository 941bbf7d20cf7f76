"""C16: orientation of equations, comparison of equations and literals, maximal literals.

The term ordering is an arbitrary strict partial order (what C01 and C02 show of the concrete ones); TC(s,t) is the answer of TOCompare
for the instances of s and t under the current bindings.  Equations compare as multisets {s,t}, literals of different sign as the
multisets of multisets {{s},{t}} and {{s,t}}, with the multiset extension written out by counting."""
from .lib import *

SOURCES = ['CLAUSES/ccl_eqn.c', 'CLAUSES/ccl_eqnlist.c']
VERIFY = ['EqnSwapSides', 'EqnOrient', 'compare_pos_eqns', 'compare_poseqn_negeqn', 'EqnCompare', 'EqnGreater', 'tfo_literal_compare', 'LiteralCompare', 'LiteralGreater',
          'EqnListOrient', 'EqnListEqnIsMaximal', 'EqnListEqnIsStrictlyMaximal']
ASSUMES = ['the term ordering answers by a strict partial order on term instances, with $true below every other term (properties C01, C02)',
           'a literal whose orientation is marked up to date was marked so by EqnOrient under the same ordering (orientation is stable under instantiation)',
           'EqnListMaximalLiterals itself (which relinks the list) is bounded only']
PARAMS = {'TOCompare': ['ocb', 's', 't', 'deref_s', 'deref_t'], 'OCBFunCompare': ['ocb', 'f1', 'f2']}

P, L, R, N = 'eqncell.properties', 'eqncell.lterm', 'eqncell.rterm', 'eqncell.next'
BK, TT = 'eqncell.bank', 'tbcell.true_term'
FZ = ('termcell.binding', 'termcell.f_code', 'termcell.arity', 'termcell.args[]', 'tbcell.true_term', 'eqncell.bank', 'ocb_cell.lit_cmp')
BITS = [1 << k for k in range(17)]
TC = Function('TC', I, I, I)
FC = Function('FC', I, I, I)
LC = Function('LC', I, I, I)
INL = Function('INL', I, I, B)


def inv(r):
    return If(r == GT, IntVal(LT), If(r == LT, IntVal(GT), r))


def order_theory():
    x, y, z = Ints('x y z')
    return [FA([x, y], And(TC(x, y) >= UNC, TC(x, y) <= LT, TC(y, x) == inv(TC(x, y))), TC(x, y)), FA([x], TC(x, x) == EQ, TC(x, x)),
            FA([x, y, z], Implies(And(TC(x, y) == GT, TC(y, z) == GT), TC(x, z) == GT), (TC(x, y), TC(y, z))),
            FA([x, y, z], Implies(TC(x, y) == EQ, TC(x, z) == TC(y, z)), (TC(x, y), TC(y, z)), (TC(x, y), TC(x, z)))]


def one(b):
    return If(b, IntVal(1), IntVal(0))


def mset(M, Nn):
    """the multiset extension of TC; M and N are lists of (element, multiplicity)"""
    cm = lambda x: sum([one(TC(e, x) == EQ) * k for e, k in M])
    cn = lambda x: sum([one(TC(e, x) == EQ) * k for e, k in Nn])
    els = [e for e, _ in M] + [e for e, _ in Nn]
    eq = And([cm(e) == cn(e) for e in els])
    gt = And(Not(eq), *[Implies(cn(n) > cm(n), Or([And(TC(m, n) == GT, cm(m) > cn(m)) for m, _ in M])) for n, _ in Nn])
    lt = And(Not(eq), *[Implies(cm(n) > cn(n), Or([And(TC(m, n) == GT, cn(m) > cm(m)) for m, _ in Nn])) for n, _ in M])
    return eq, gt, lt


def rel(t):
    eq, gt, lt = t
    return If(eq, IntVal(EQ), If(gt, IntVal(GT), If(lt, IntVal(LT), IntVal(UNC))))


class Lit:
    def __init__(self, get, e):
        self.p, self.l, self.r = Select(get(P), e), Select(get(L), e), Select(get(R), e)
        self.e = e

    def pos(self):
        return flag(self.p, 1)

    def equ(self):
        return flag(self.p, 8)

    def oriented(self):
        return flag(self.p, 16)

    def upd(self):
        return flag(self.p, 32)

    def rep(self, k=1):
        return [(self.l, k), (self.r, k)]


def orel(c, l, r, e):
    """how two sides compare; $true is smallest by construction of literals"""
    tt = Select(c.o(TT), Select(c.o(BK), e))
    return If(l == r, IntVal(EQ), If(l == tt, IntVal(LT), If(r == tt, IntVal(GT), TC(l, r))))


def wfl(c, get, e):
    """literal cell invariant"""
    q = Lit(get, e)
    return And(e > 0, Implies(q.upd(), And(q.oriented() == (orel(c, q.l, q.r, e) == GT), orel(c, q.l, q.r, e) != LT)))


def wfo(get, e):
    """what comparisons use"""
    q = Lit(get, e)
    return And(e > 0, Implies(q.oriented(), TC(q.l, q.r) == GT))


def posneg(a, b):
    """{{s},{t}} against {{u,v}}: the outer extension for one element on the right, which is never equal to one on the left"""
    m1, m2 = mset([(a.l, 1)], b.rep()), mset([(a.r, 1)], b.rep())
    return If(Or(m1[1], m2[1]), IntVal(GT), If(And(m1[2], m2[2]), IntVal(LT), IntVal(UNC)))


def eqn_rel(a, b):
    return rel(mset(a.rep(), b.rep()))


def lit_rel(c, get, e1, e2):
    a, b = Lit(get, e1), Lit(get, e2)
    ps1, ps2, s1, s2 = flag(a.p, 8192), flag(b.p, 8192), flag(a.p, 1024), flag(b.p, 1024)
    lc = Select(c.o('ocb_cell.lit_cmp'), c.ocb)
    en = c.enums
    F, Ar = c.o('termcell.f_code'), None
    f1, f2 = Select(F, a.l), Select(F, b.l)
    fc = FC(f1, f2)
    preds = And(Not(a.equ()), Not(b.equ()), f1 >= 0, f2 >= 0)
    base = If(a.pos() == b.pos(), eqn_rel(a, b), If(a.pos(), posneg(a, b), inv(posneg(b, a))))
    tfo = lambda up, dn: If(And(a.equ(), Not(b.equ())), IntVal(up), If(And(Not(a.equ()), b.equ()), IntVal(dn), If(And(preds, Or(fc == GT, fc == LT)), fc, base)))
    return If(And(ps1, Not(ps2)), IntVal(LT), If(And(ps2, Not(ps1)), IntVal(GT), If(And(s2, Not(s1)), IntVal(LT), If(And(s1, Not(s2)), IntVal(GT),
           If(And(s1, s2, a.pos() != b.pos()), IntVal(UNC), If(lc == en.get('LCNoCmp'), IntVal(UNC),
              If(lc == en.get('LCTFOEqMax'), tfo(GT, LT), If(lc == en.get('LCTFOEqMin'), tfo(LT, GT), base))))))))


def list_theory(c):
    h, p = Ints('h p')
    n = c.o(N)
    return [FA([p], Not(INL(0, p)), INL(0, p)), FA([h, p], Implies(h > 0, INL(h, p) == Or(p == h, INL(Select(n, h), p))), (INL(h, p), Select(n, h))),
            FA([h, p], Implies(INL(h, p), And(h > 0, p > 0, Select(n, p) >= 0)), INL(h, p)),
            # lemma closed
            FA([h, p], Implies(And(INL(h, p), Select(n, p) != 0), INL(h, Select(n, p))), (INL(h, p), Select(n, p)))]


def LEMMAS():
    h, p = z3.Ints('h0 p0')
    n = z3.Const('next@L', A1)
    qh, qp = Ints('qh qp')
    ax = [FA([qp], Not(INL(0, qp)), INL(0, qp)), FA([qh, qp], Implies(qh > 0, INL(qh, qp) == Or(qp == qh, INL(Select(n, qh), qp))), (INL(qh, qp), Select(n, qh))),
          FA([qh], Select(n, qh) >= 0, Select(n, qh)), FA([qh, qp], Implies(INL(qh, qp), qh > 0), INL(qh, qp))]
    cl = lambda h: Implies(And(INL(h, p), Select(n, p) != 0), INL(h, Select(n, p)))
    x, y, z, w = z3.Ints('x0 y0 z0 w0')
    a = lambda r: And(r >= UNC, r <= LT)
    # the mirrored comparison gives the mirrored answer, for any literals
    M, K = [(x, 1), (y, 1)], [(z, 1), (w, 1)]
    return {'closed': dict(axioms=ax, goals=[('empty', cl(IntVal(0))), ('step', Implies(And(h > 0, cl(Select(n, h)), INL(Select(n, p), Select(n, p)) == INL(Select(n, p), Select(n, p)),
                                                                                           Implies(Select(n, h) > 0, INL(Select(n, h), Select(n, h)) == Or(True))), cl(h)))]),
            'mirror': dict(axioms=order_theory(), goals=[('equations', rel(mset(K, M)) == inv(rel(mset(M, K)))),
                                                         ('exclusive', Not(And(mset(M, K)[1], mset(M, K)[2]))), ('equal', Implies(And(x == z, y == w), rel(mset(M, K)) == EQ))])}


def contracts():
    cs = []
    p, k = Ints('p k')
    cs.append(Contract('TOCompare', requires=lambda c: [And(c.deref_s == 2, c.deref_t == 2)], ensures=lambda c: [c.ret == TC(c.s, c.t)], trusted=True,
                       doc='compares the instances of two terms by the term ordering (properties C01 and C02)'))
    cs.append(Contract('OCBFunCompare', ensures=lambda c: [c.ret == FC(c.f1, c.f2), FC(c.f1, c.f2) >= 1, FC(c.f1, c.f2) <= 4], trusted=True, doc='compares two symbols in the precedence (under contract in C01)'))
    en = lambda c: enum_guard(c, to_uncomparable=UNC, to_equal=EQ, to_greater=GT, to_lesser=LT, EPIsPositive=1, EPIsMaximal=2, EPIsStrictlyMaximal=4, EPIsEquLiteral=8, EPIsOriented=16,
                              EPMaxIsUpToDate=32, EPIsSelected=1024, EPPseudoLit=8192)
    th = lambda c: order_theory()

    def others(c, e, changed):
        new, old = Select(c.m(P), e), Select(c.o(P), e)
        return [('flags', And([flag(new, b) == flag(old, b) for b in BITS if b not in changed]))]

    def only(c, e, keys=(P, L, R)):
        return [('frame.' + q, FA([p], Implies(p != e, Select(c.m(q), p) == Select(c.o(q), p)), Select(c.m(q), p))) for q in keys]

    cs.append(Contract('EqnSwapSides', requires=lambda c: [c.eq > 0], modifies={P, L, R}, frozen=FZ, ensures=lambda c: [
        ('swapped', And(Select(c.m(L), c.eq) == Select(c.o(R), c.eq), Select(c.m(R), c.eq) == Select(c.o(L), c.eq))),
        ('stale', Not(anyflag(Select(c.m(P), c.eq), 48)))] + others(c, c.eq, (16, 32)) + only(c, c.eq)))

    def orient(c, e):
        o, n = Lit(c.o, e), Lit(c.m, e)
        r = orel(c, o.l, o.r, e)
        return o, n, r

    def orient_ens(c):
        o, n, r = orient(c, c.eq)
        return [('swapped', c.ret == And(Not(o.upd()), r == LT)), ('sides', If(c.ret, And(n.l == o.r, n.r == o.l), And(n.l == o.l, n.r == o.r))),
                ('oriented', n.oriented() == (orel(c, n.l, n.r, c.eq) == GT)), ('notless', orel(c, n.l, n.r, c.eq) != LT), ('uptodate', n.upd())] + others(c, c.eq, (16, 32)) + only(c, c.eq)
    cs.append(Contract('EqnOrient', requires=lambda c: en(c) + [wfl(c, c.o, c.eq)], ensures=orient_ens, modifies={P, L, R}, frozen=FZ, theory=th))

    two = lambda c: en(c) + [c.eq1 > 0, c.eq2 > 0]
    cs.append(Contract('compare_pos_eqns', requires=two, frozen=FZ + (P, L, R), theory=th,
                       ensures=lambda c: [('multiset', c.ret == eqn_rel(Lit(c.o, c.eq1), Lit(c.o, c.eq2)))]))
    cs.append(Contract('EqnCompare', requires=two, frozen=FZ + (P, L, R), theory=th, ensures=lambda c: [('multiset', c.ret == eqn_rel(Lit(c.o, c.eq1), Lit(c.o, c.eq2)))]))
    cs.append(Contract('EqnGreater', requires=two, frozen=FZ + (P, L, R), theory=th, ensures=lambda c: [('greater', c.ret == (eqn_rel(Lit(c.o, c.eq1), Lit(c.o, c.eq2)) == GT))]))
    cs.append(Contract('compare_poseqn_negeqn', requires=lambda c: two(c) + [wfo(c.o, c.eq1)], frozen=FZ + (P, L, R), theory=th,
                       ensures=lambda c: [('multiset', c.ret == posneg(Lit(c.o, c.eq1), Lit(c.o, c.eq2)))]))

    def tfo_ens(c):
        a, b = Lit(c.o, c.eq1), Lit(c.o, c.eq2)
        lc, E = Select(c.o('ocb_cell.lit_cmp'), c.ocb), c.enums
        F = c.o('termcell.f_code')
        f1, f2 = Select(F, a.l), Select(F, b.l)
        unk = IntVal(E.get('to_unknown'))
        t = lambda up, dn: If(And(a.equ(), Not(b.equ())), IntVal(up), If(And(Not(a.equ()), b.equ()), IntVal(dn), If(And(Not(a.equ()), f1 >= 0, f2 >= 0), FC(f1, f2), unk)))
        return [('tfo', c.ret == If(lc == E.get('LCTFOEqMax'), t(GT, LT), If(lc == E.get('LCTFOEqMin'), t(LT, GT), unk))), ('range', And(c.ret >= 0, c.ret <= 4))]
    cs.append(Contract('tfo_literal_compare', requires=lambda c: two(c) + [c.ocb > 0], frozen=FZ + (P, L, R), theory=th, ensures=tfo_ens))
    lits = lambda c: two(c) + [c.ocb > 0, wfo(c.o, c.eq1), wfo(c.o, c.eq2)]
    cs.append(Contract('LiteralCompare', requires=lits, frozen=FZ + (P, L, R), theory=th, ensures=lambda c: [('literals', c.ret == lit_rel(c, c.o, c.eq1, c.eq2))]))
    cs.append(Contract('LiteralGreater', requires=lits, frozen=FZ + (P, L, R), theory=th, ensures=lambda c: [('greater', c.ret == (lit_rel(c, c.o, c.eq1, c.eq2) == GT))]))
    lth = lambda c: order_theory() + list_theory(c)

    # ---------------------------------------------------------------- lists
    def all_in(c, body, head=None):
        return FA([p], Implies(INL(c.list if head is None else head, p), body(p)), INL(c.list if head is None else head, p))

    def done(c, q):
        o, n = Lit(c.o, q), Lit(c.m, q)
        return And(n.oriented() == (orel(c, n.l, n.r, q) == GT), orel(c, n.l, n.r, q) != LT, n.upd(), Or(And(n.l == o.l, n.r == o.r), And(n.l == o.r, n.r == o.l)),
                   *[flag(n.p, b) == flag(o.p, b) for b in BITS if b not in (16, 32)])

    def same(c, q):
        return And([Select(c.m(f), q) == Select(c.o(f), q) for f in (P, L, R)])

    def eo_inv(c):
        h = c.v('handle')
        return [('h', Or(h == 0, INL(c.list, h))), ('done', FA([p], Implies(INL(c.list, p), Or(done(c, p), And(INL(h, p), same(c, p)))), INL(c.list, p))),
                ('others', FA([p], Implies(Not(INL(c.list, p)), same(c, p)), *[Select(c.m(f), p) for f in (P, L, R)]))]
    cs.append(Contract('EqnListOrient', requires=lambda c: en(c) + [c.list >= 0, all_in(c, lambda q: wfl(c, c.o, q))], modifies={P, L, R}, frozen=FZ + (N,), theory=lth, loops=[Loop(eo_inv)],
                       ensures=lambda c: [('all', all_in(c, lambda q: done(c, q))), ('others', FA([p], Implies(Not(INL(c.list, p)), same(c, p)), *[Select(c.m(f), p) for f in (P, L, R)]))]))

    def dom(c, q, strict):
        r = lit_rel(c, c.o, q, c.eqn)
        return And(q != c.eqn, flag(Select(c.o(P), q), 2), Or(r == GT, r == EQ) if strict else r == GT)

    def mx_inv(strict):
        def f(c):
            h, res = c.v('handle'), c.v('res')
            return [('h', Or(h == 0, INL(c.list, h))), ('res', Or(res == 0, res == 1)),
                    ('none', Implies(res == 1, FA([p], Implies(And(INL(c.list, p), Not(INL(h, p))), Not(dom(c, p, strict))), INL(c.list, p)))),
                    ('some', Implies(res == 0, Exists([p], And(INL(c.list, p), dom(c, p, strict)))))]
        return f
    for nm, strict in (('EqnListEqnIsMaximal', False), ('EqnListEqnIsStrictlyMaximal', True)):
        cs.append(Contract(nm, requires=lambda c: en(c) + [c.ocb > 0, c.list >= 0, wfo(c.o, c.eqn), all_in(c, lambda q: wfo(c.o, q))], frozen=FZ + (P, L, R, N), theory=lth, loops=[Loop(mx_inv(strict))],
                           ensures=lambda c, strict=strict: [('maximal', Implies(c.ret, all_in(c, lambda q: Not(dom(c, q, strict))))),
                                                             ('dominated', Implies(Not(c.ret), Exists([p], And(INL(c.list, p), dom(c, p, strict)))))]))
    return cs
