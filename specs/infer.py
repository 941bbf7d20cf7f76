"""C09: the positions at which inferences are tried are exactly the admitted ones, each reached in turn.

FL(m, s, h) is the first literal of the list h that is maximal (if m) and has the sign s (1 positive, -1 negative, 0 any), 0 if there is none."""
from .lib import *
from .seq import *
from .seq import stack_contracts

SOURCES = ['CLAUSES/ccl_clausepos.c', 'CLAUSES/ccl_eqnresolution.c', 'CLAUSES/ccl_factor.c', 'CLAUSES/ccl_paramod.c', 'CONTROL/cco_eqnresolving.c', 'CONTROL/cco_factoring.c', 'BASICS/clb_pstacks.c']
VERIFY = ['ClausePosFindPosLiteral', 'ClausePosFindMaxLiteral', 'ClausePosFindFirstMaximalSide', 'ClausePosFindNextMaximalSide', 'ClausePosFirstEqResLiteral', 'ClausePosNextEqResLiteral',
          'find_next_potential_eq_factor_partner', 'find_first_eq_factor_partner', 'ClausePosFirstOrderedFactorLiterals', 'ClausePosNextOrderedFactorLiterals',
          'ClausePosFirstEqualityFactorSides', 'ClausePosNextEqualityFactorSides']
P, L, R, N = 'eqncell.properties', 'eqncell.lterm', 'eqncell.rterm', 'eqncell.next'
PC, PL, PS, PP = 'clauseposcell.clause', 'clauseposcell.literal', 'clauseposcell.side', 'clauseposcell.pos'
CL = 'clause_cell.literals'
FZ = (P, L, R, N, CL)
LEFT, RIGHT = 1, 2
FL = Function('FL', B, I, I, I)
OKL = Function('OKL', B, I, I, B)


def tb(v):
    return v if z3.is_bool(v) else v != 0


class Lt:
    def __init__(self, get):
        self.P, self.L, self.R, self.N = get(P), get(L), get(R), get(N)

    def pos(self, e): return flag(Select(self.P, e), 1)
    def max(self, e): return flag(Select(self.P, e), 2)
    def ori(self, e): return flag(Select(self.P, e), 16)
    def nx(self, e): return Select(self.N, e)
    def side(self, e, s): return If(s == LEFT, Select(self.L, e), Select(self.R, e))


def theory(c):
    H = Lt(c.o)
    m, s, h = z3.Bool('m'), Int('s'), Int('h')
    ok = And(Implies(m, H.max(h)), Implies(s == 1, H.pos(h)), Implies(s == -1, Not(H.pos(h))))
    return [FA([m, s, h], Implies(And(h != 0, ok), FL(m, s, h) == h), FL(m, s, h)), FA([m, s], FL(m, s, 0) == 0, FL(m, s, IntVal(0))),
            FA([m, s, h], Implies(And(h != 0, Not(ok)), FL(m, s, h) == FL(m, s, H.nx(h))), (FL(m, s, h), H.nx(h))),
            FA([m, s, h], Implies(FL(m, s, h) != 0, And(*[z3.substitute(x, (h, FL(m, s, h))) for x in ok.children()])), FL(m, s, h)),
            FA([h], H.nx(h) >= 0, H.nx(h)), FA([m, s, h], Implies(h >= 0, FL(m, s, h) >= 0), FL(m, s, h))]


def LEMMAS():
    return {'first_literal': lemma()}


def lemma():
    """the third and the last fact of the theory, by induction on the (finite) list"""
    class c:
        o = staticmethod(lambda k: z3.Const(k, A1))
    H = Lt(c.o)
    m, s, h = z3.Bool('m0'), Int('s0'), Int('h0')
    ok = lambda h: And(Implies(m, H.max(h)), Implies(s == 1, H.pos(h)), Implies(s == -1, Not(H.pos(h))))
    good = lambda h: Implies(FL(m, s, h) != 0, And(ok(FL(m, s, h)), FL(m, s, h) > 0))
    t = theory(c)
    return dict(axioms=t[:3] + [t[4]], goals=[('empty', good(IntVal(0))), ('step', Implies(And(h > 0, good(H.nx(h)), FL(m, s, H.nx(h)) >= 0), And(good(h), FL(m, s, h) >= 0)))])


class Ps:
    def __init__(self, get, p):
        self.c, self.l, self.s, self.st = (Select(get(f), p) for f in (PC, PL, PS, PP))


def only(c, keys, *ps):
    return [('frame.' + k, same_except(c, k, *ps)) for k in keys]


def contracts():
    cs = [c for c in stack_contracts() if c.name in ('PStackReset',)]
    pr = lambda n='pos': (lambda c: [c.arg(n) > 0, Ps(c.m, c.arg(n)).l >= 0])
    so = lambda c, *ns: [stk(c, Ps(c.m, c.arg(n)).st).ok() for n in ns]

    def find(nm, flagpar, f):
        def ens(c):
            r = f(c, Ps(c.o, c.pos).l)
            return [('first', c.ret == r), ('set', Ps(c.m, c.pos).l == r)] + only(c, [PL], c.pos)
        return Contract(nm, requires=pr(), ensures=ens, modifies={PL}, frozen=FZ, theory=theory, loops=[Loop(lambda c: [('at', And(c.v('handle') >= 0, f(c, c.v('handle')) == f(c, Ps(c.o, c.pos).l)))])])
    cs.append(find('ClausePosFindPosLiteral', 'maximal', lambda c, h: FL(tb(c.maximal), IntVal(1), h)))
    cs.append(find('ClausePosFindMaxLiteral', 'positive', lambda c, h: FL(z3.BoolVal(True), If(tb(c.positive), IntVal(1), IntVal(0)), h)))

    T = z3.BoolVal(True)
    sg = lambda c: If(tb(c.positive), IntVal(1), IntVal(0))

    def fs_ens(c):
        H, l = Lt(c.o), FL(T, sg(c), Ps(c.o, c.pos).l)
        q = Ps(c.m, c.pos)
        return [('literal', q.l == l), ('side', Implies(l != 0, q.s == LEFT)), ('term', c.ret == If(l != 0, Select(H.L, l), 0)), ('top', Implies(l != 0, stk(c, q.st).n == 0))] + only(c, [PL, PS], c.pos) + only(c, ['pstackcell.current'], q.st) + [('ok', stk(c, q.st).ok())]
    x = Int('x')

    def good(c, h, *ls):
        return [FA([x], Implies(INL(h, x), And(Select(c.m(L), x) > 0, Select(c.m(R), x) > 0)), INL(h, x))] + [INL(h, l) for l in ls]
    both = lambda c: [('ok', And(stk(c, Ps(c.m, c.pos1).st).ok(), stk(c, Ps(c.m, c.pos2).st).ok()))] + only(c, ['pstackcell.current'], Ps(c.m, c.pos1).st, Ps(c.m, c.pos2).st)
    inlt = lambda c: theory(c) + inl_theory(c) + trans(c)
    cs.append(Contract('ClausePosFindFirstMaximalSide', requires=lambda c: pr()(c) + so(c, 'pos'), ensures=fs_ens, modifies={PL, PS, 'pstackcell.current'}, frozen=FZ, theory=theory))

    def ns_ens(c):
        H, o, q = Lt(c.o), Ps(c.o, c.pos), Ps(c.m, c.pos)
        l = FL(T, sg(c), H.nx(o.l))
        return [('none', Implies(o.l == 0, And(c.ret == 0, q.l == 0))),
                ('right', Implies(And(o.l != 0, o.s == LEFT, Not(H.ori(o.l))), And(q.l == o.l, q.s == RIGHT, c.ret == Select(H.R, o.l)))),
                ('next', Implies(And(o.l != 0, Not(And(o.s == LEFT, Not(H.ori(o.l))))), And(q.l == l, Implies(l != 0, q.s == LEFT), c.ret == If(l != 0, Select(H.L, l), 0)))),
                ('top', Implies(q.l != 0, stk(c, q.st).n == 0))] + only(c, [PL, PS], c.pos) + only(c, ['pstackcell.current'], q.st) + [('ok', stk(c, q.st).ok())]
    cs.append(Contract('ClausePosFindNextMaximalSide', requires=lambda c: pr()(c) + so(c, 'pos'), ensures=ns_ens, modifies={PL, PS, 'pstackcell.current'}, frozen=FZ, theory=theory))

    # equality resolution
    ro = lambda c: c.o('g:EqResOnMaximalLiteralsOnly')
    er = lambda c, h: FL(tb(ro(c)), IntVal(-1), h)

    def er1(c):
        q = Ps(c.m, c.pos)
        r = er(c, Select(c.o(CL), c.clause))
        return [('first', c.ret == r), ('literal', q.l == r), ('clause', q.c == c.clause), ('top', stk(c, q.st).n == 0)] + only(c, [PL, PC], c.pos) + only(c, ['pstackcell.current'], q.st)
    cs.append(Contract('ClausePosFirstEqResLiteral', requires=lambda c: [c.pos > 0, c.clause > 0, Select(c.m(CL), c.clause) >= 0] + so(c, 'pos'), ensures=er1, modifies={PL, PC, 'pstackcell.current'},
                       frozen=FZ + ('g:EqResOnMaximalLiteralsOnly',), theory=theory,
                       loops=[Loop(lambda c: [('at', And(Ps(c.m, c.pos).l >= 0, er(c, Ps(c.m, c.pos).l) == er(c, Select(c.o(CL), c.clause)))), ('clause', Ps(c.m, c.pos).c == c.clause), ('top', stk(c, Ps(c.m, c.pos).st).n == 0)] + only(c, [PL, PC], c.pos) + only(c, ['pstackcell.current'], Ps(c.m, c.pos).st))]))

    def er2(c):
        q, o = Ps(c.m, c.pos), Ps(c.o, c.pos)
        r = er(c, Lt(c.o).nx(o.l))
        return [('next', c.ret == r), ('literal', q.l == r)] + only(c, [PL], c.pos)
    cs.append(Contract('ClausePosNextEqResLiteral', requires=lambda c: [c.pos > 0, Ps(c.m, c.pos).l > 0], ensures=er2, modifies={PL}, frozen=FZ + ('g:EqResOnMaximalLiteralsOnly',), theory=theory,
                       loops=[Loop(lambda c: [('at', And(Ps(c.m, c.pos).l >= 0, er(c, Ps(c.m, c.pos).l) == er(c, Lt(c.o).nx(Ps(c.o, c.pos).l))))] + only(c, [PL], c.pos))]))

    # equality factoring partners: the first positive literal other than pos1's
    def partner(H, l1, h):
        a = FL(z3.BoolVal(False), IntVal(1), h)
        return If(And(a == l1, a != 0), FL(z3.BoolVal(False), IntVal(1), H.nx(a)), a)
    two = lambda c: [c.pos1 > 0, c.pos2 > 0, c.pos1 != c.pos2]

    def np_ens(c):
        r = partner(Lt(c.o), Ps(c.o, c.pos1).l, Ps(c.o, c.pos2).l)
        return [('partner', c.ret == r), ('literal', Ps(c.m, c.pos2).l == r)] + only(c, [PL], c.pos2)
    cs.append(Contract('find_next_potential_eq_factor_partner', requires=lambda c: two(c) + [Ps(c.m, c.pos1).l > 0, Ps(c.m, c.pos2).l >= 0], ensures=np_ens, modifies={PL}, frozen=FZ, theory=theory))

    def fp_ens(c):
        o, q = Ps(c.o, c.pos1), Ps(c.m, c.pos2)
        r = partner(Lt(c.o), o.l, Select(c.o(CL), o.c))
        return [('partner', c.ret == r), ('literal', q.l == r), ('side', q.s == LEFT), ('clause', q.c == o.c), ('top', stk(c, q.st).n == 0)] + only(c, [PL, PC, PS], c.pos2) + only(c, ['pstackcell.current'], q.st)
    fp_req = lambda c: two(c) + [Ps(c.m, c.pos1).l > 0, Ps(c.m, c.pos1).c > 0, Select(c.m(CL), Ps(c.m, c.pos1).c) >= 0] + so(c, 'pos2')
    cs.append(Contract('find_first_eq_factor_partner', requires=fp_req, ensures=fp_ens, modifies={PL, PC, PS, 'pstackcell.current'}, frozen=FZ, theory=theory))

    # ordered factoring: pairs of maximal positive literals, the second after the first
    mp = lambda h: FL(T, IntVal(1), h)

    def pair(c, l1, l2, new1, new2, s2):
        """the next pair after (l1, l2): same first literal, or the next first literal that has a second one"""
        H = Lt(c.o)
        a, b = mp(H.nx(l2)), mp(H.nx(l1))
        return If(a != 0, And(new1 == l1, new2 == a, s2 == LEFT), If(And(b != 0, mp(H.nx(b)) != 0), And(new1 == b, new2 == mp(H.nx(b)), s2 == LEFT), new2 == 0))

    def of_next(c):
        H, o1, o2, q1, q2 = Lt(c.o), Ps(c.o, c.pos1), Ps(c.o, c.pos2), Ps(c.m, c.pos1), Ps(c.m, c.pos2)
        turn = And(o2.s == LEFT, Or(Not(H.ori(o1.l)), Not(H.ori(o2.l))))
        return [('turned', Implies(turn, And(c.ret == o2.l, q2.l == o2.l, q1.l == o1.l, q2.s == RIGHT))), ('next', Implies(Not(turn), pair(c, o1.l, o2.l, q1.l, c.ret, q2.s))), ('second', Implies(c.ret != 0, q2.l == c.ret))] + \
            only(c, [PL], c.pos1, c.pos2) + only(c, [PS], c.pos2)

    def of_inv(c):
        H, o1, o2, q1, q2, lit = Lt(c.o), Ps(c.o, c.pos1), Ps(c.o, c.pos2), Ps(c.m, c.pos1), Ps(c.m, c.pos2), c.v('lit')
        a, b = mp(H.nx(o2.l)), mp(H.nx(o1.l))
        return [('at', Or(And(q1.l == o1.l, lit == a), And(a == 0, b != 0, q1.l == b, lit == mp(H.nx(b))))), ('second', q2.l == lit), ('side', q2.s == LEFT), ('first', q1.l > 0)] + only(c, [PL], c.pos1, c.pos2) + only(c, [PS], c.pos2)
    ofr = lambda c: two(c) + [Ps(c.m, c.pos1).l > 0, Ps(c.m, c.pos2).l > 0]
    cs.append(Contract('ClausePosNextOrderedFactorLiterals', requires=ofr, ensures=of_next, modifies={PL, PS}, frozen=FZ, theory=theory, loops=[Loop(of_inv)]))

    def of_first(c):
        H, q1, q2 = Lt(c.o), Ps(c.m, c.pos1), Ps(c.m, c.pos2)
        a = mp(Select(c.o(CL), c.clause))
        return [('none', Implies(a == 0, c.ret == 0)), ('first', Implies(a != 0, pair(c, a, a, q1.l, c.ret, q2.s))), ('second', Implies(c.ret != 0, q2.l == c.ret)), ('clause', Implies(c.ret != 0, And(q1.c == c.clause, q2.c == c.clause))), ('side', q1.s == LEFT),
                ('top', Implies(c.ret != 0, And(stk(c, q1.st).n == 0, stk(c, q2.st).n == 0)))] + only(c, [PL, PC, PS], c.pos1, c.pos2)
    sep = lambda c: [Ps(c.m, c.pos1).st != Ps(c.m, c.pos2).st]
    cs.append(Contract('ClausePosFirstOrderedFactorLiterals', requires=lambda c: two(c) + [c.clause > 0, Select(c.m(CL), c.clause) >= 0] + so(c, 'pos1', 'pos2') + sep(c), ensures=lambda c: of_first(c) + both(c), modifies={PL, PC, PS, 'pstackcell.current'},
                       frozen=FZ, theory=theory))

    # equality factoring: every maximal side of a maximal positive literal with every side of every other positive literal
    def ef_part(c, l1, q2, ret):
        """the partners of literal l1 from the start of the clause"""
        r = partner(Lt(c.o), l1, Select(c.o(CL), Ps(c.o, c.pos1).c))
        return r

    def ef_first(c):
        H, q1, q2 = Lt(c.o), Ps(c.m, c.pos1), Ps(c.m, c.pos2)
        h = Select(c.o(CL), c.clause)
        a = mp(h)
        return [('none', Implies(a == 0, c.ret == 0)), ('first', Implies(a != 0, And(q1.l == a, q1.s == LEFT, q1.c == c.clause, c.ret == partner(H, a, h), q2.l == c.ret, q2.s == LEFT, q2.c == c.clause)))] + only(c, [PL, PC, PS], c.pos1, c.pos2)
    cs.append(Contract('ClausePosFirstEqualityFactorSides', requires=lambda c: good(c, Select(c.m(CL), c.clause)) + two(c) + [c.clause > 0, Select(c.m(CL), c.clause) >= 0] + so(c, 'pos1', 'pos2') + sep(c), ensures=lambda c: ef_first(c) + both(c), modifies={PL, PC, PS, 'pstackcell.current'},
                       frozen=FZ, theory=inlt))

    def ef_next(c):
        H, o1, o2, q1, q2 = Lt(c.o), Ps(c.o, c.pos1), Ps(c.o, c.pos2), Ps(c.m, c.pos1), Ps(c.m, c.pos2)
        h = Select(c.o(CL), o1.c)
        n = partner(H, o1.l, H.nx(o2.l))
        right = And(o1.s == LEFT, Not(H.ori(o1.l)))
        l1 = If(right, o1.l, mp(H.nx(o1.l)))
        s1 = If(right, IntVal(RIGHT), IntVal(LEFT))
        return [('turned', Implies(o2.s == LEFT, And(c.ret == o2.l, q2.l == o2.l, q2.s == RIGHT, q1.l == o1.l, q1.s == o1.s))),
                ('same', Implies(And(o2.s != LEFT, n != 0), And(c.ret == n, q2.l == n, q2.s == LEFT, q1.l == o1.l, q1.s == o1.s))),
                ('moved', Implies(And(o2.s != LEFT, n == 0, l1 != 0), And(q1.l == l1, q1.s == s1, c.ret == partner(H, l1, h), q2.l == c.ret, q2.s == LEFT))),
                ('end', Implies(And(o2.s != LEFT, n == 0, l1 == 0), c.ret == 0)),
                ('clause', Implies(c.ret != 0, And(q2.c == If(And(o2.s != LEFT, n == 0), o1.c, o2.c), q1.c == o1.c)))] + only(c, [PL, PC, PS], c.pos1, c.pos2)
    cs.append(Contract('ClausePosNextEqualityFactorSides', requires=lambda c: good(c, Select(c.m(CL), Ps(c.m, c.pos1).c), Ps(c.m, c.pos1).l) + two(c) + [Ps(c.m, c.pos1).l > 0, Ps(c.m, c.pos2).l > 0, Ps(c.m, c.pos1).c > 0, Select(c.m(CL), Ps(c.m, c.pos1).c) >= 0] + so(c, 'pos1', 'pos2') + sep(c),
                       ensures=lambda c: ef_next(c) + both(c), modifies={PL, PC, PS, 'pstackcell.current'}, frozen=FZ, theory=inlt))
    return cs


# ------------------------------------------------------------------ the loops over all positions
VERIFY += ['ComputeAllEqnResolvents', 'ComputeAllOrderedFactors', 'ComputeAllEqualityFactors']
ASSUMES = ['ghost:tried records the positions for which an inference is computed (written by the assumed contracts of ComputeEqRes, ComputeOrderedFactor and ComputeEqualityFactor, '
           'whose conclusions are checked by the bounded stand-in)', 'documentation of clause creation and ClauseSetInsert change no literal and no position']
TR, ST = 'ghost:tried', 'ghost:stored'
PARAMS = {'ClauseSetInsert': ['set', 'newclause']}
INL = Function('INL', I, I, B)
KEY = Function('KEY', I, I, I, I, I)
NN, PN = 'clause_cell.neg_lit_no', 'clause_cell.pos_lit_no'


def inl_theory(c):
    """INL(h, p): p is a literal of the list h; the last three facts are lemma reach"""
    H = Lt(c.o)
    m, s = z3.Bool('m'), Int('s')
    h, p, q = Ints('h p q')
    ok = And(Implies(m, H.max(p)), Implies(s == 1, H.pos(p)), Implies(s == -1, Not(H.pos(p))))
    return [FA([h, p], INL(h, p) == And(h != 0, Or(p == h, INL(H.nx(h), p))), (INL(h, p), H.nx(h))), FA([p], Not(INL(0, p)), INL(IntVal(0), p)), FA([h], Implies(h != 0, INL(h, h)), H.nx(h)), FA([h, p], Implies(And(h != 0, INL(H.nx(h), p)), INL(h, p)), INL(H.nx(h), p)),
            FA([m, s, h, p], Implies(And(INL(h, p), ok), And(FL(m, s, h) != 0, INL(FL(m, s, h), p))), (FL(m, s, h), INL(h, p))),
            FA([m, s, h, p], Implies(INL(FL(m, s, h), p), INL(h, p)), INL(FL(m, s, h), p)),
            FA([m, s, h], Implies(FL(m, s, h) != 0, INL(h, FL(m, s, h))), FL(m, s, h))]


def trans(c):
    p, q, r = Ints('p q r')
    return [FA([p, q, r], Implies(And(INL(p, q), INL(q, r)), INL(p, r)), (INL(p, q), INL(q, r)))]


def trans_lemma():
    class c:
        o = staticmethod(lambda k: z3.Const(k, A1))
    H = Lt(c.o)
    h, q, r = Ints('h0 q0 r0')
    good = lambda h: Implies(And(INL(h, q), INL(q, r)), INL(h, r))
    return dict(axioms=inl_theory(c)[:2], goals=[('empty', good(IntVal(0))), ('step', Implies(And(h != 0, good(H.nx(h)), H.nx(h) == H.nx(h)), good(h)))])


def reach_lemma():
    class c:
        o = staticmethod(lambda k: z3.Const(k, A1))
    H = Lt(c.o)
    m, s = z3.Bool('m0'), Int('s0')
    h, p = Ints('h0 p0')
    ok = And(Implies(m, H.max(p)), Implies(s == 1, H.pos(p)), Implies(s == -1, Not(H.pos(p))))
    good = lambda h: And(Implies(And(INL(h, p), ok), And(FL(m, s, h) != 0, INL(FL(m, s, h), p))), Implies(INL(FL(m, s, h), p), INL(h, p)), Implies(FL(m, s, h) != 0, INL(h, FL(m, s, h))))
    return dict(axioms=theory(c)[:3] + inl_theory(c)[:2], goals=[('empty', good(IntVal(0))), ('step', Implies(And(h != 0, good(H.nx(h)), H.nx(h) == H.nx(h)), good(h)))])


_l0 = LEMMAS


def LEMMAS():
    return dict(_l0(), reach=reach_lemma(), list_trans=trans_lemma())


_c0 = contracts


def contracts():
    cs = [c for c in _c0() if c.name != 'PStackReset'] + [c for c in stack_contracts() if c.name in ('PStackReset', 'PStackAlloc', 'PStackFree', 'PStackPop', 'PStackGrow')]
    cs += [c_SizeMalloc(), c_SizeFree()]
    p, q, s1, s2 = Ints('p q s1 s2')
    T = z3.BoolVal(True)
    triv = lambda n, **kw: Contract(n, trusted=True, **kw)
    NOTE = {'clause_cell.proof_depth', 'clause_cell.proof_size', 'clause_cell.properties', 'clause_cell.derivation'}
    cs.append(triv('ClausePushDerivation', modifies={'clause_cell.derivation'}))
    cs.append(triv('DocClauseCreation', modifies=set()))
    cs.append(triv('ClauseSetTPTPType', modifies={'clause_cell.properties'}))
    cs.append(triv('ClauseSetInsert', ensures=lambda c: [c.m(ST) == Store(c.o(ST), c.newclause, 1)], modifies={ST, 'clause_cell.set', 'clause_cell.pred', 'clause_cell.succ'}))

    def alloc(c):
        q = Ps(c.m, c.ret)
        return [('new', And(c.ret > 0, Select(c.o(AL), c.ret) != 1)), ('stack', And(stk(c, q.st).ok(), Select(c.o(AL), q.st) != 1, Select(c.o(AL), stk(c, q.st).p) != 1, q.st != c.ret, stk(c, q.st).p != c.ret)), ('kept', alive_kept(c)), ('alive', Select(c.m(AL), c.ret) == 1)] + \
            [('frame.' + f, same_except(c, f, q.st)) for f in sorted(Stk.F)] + only(c, [PP], c.ret)
    cs.append(Contract('ClausePosAlloc', ensures=alloc, modifies=Stk.F | {AL, PP, PC, PL, PS}))
    cs.append(Contract('ClausePosFree', requires=lambda c: [stk(c, Ps(c.m, c.junk).st).ok()], ensures=lambda c: [('kept', alive_kept(c, c.junk, Ps(c.o, c.junk).st, stk(c, Ps(c.o, c.junk).st, True).p))], modifies={AL}))

    def pushes(st):
        return lambda c: [stk(c, c.arg(st)).ok(), stk(c, c.arg(st)).n >= stk(c, c.arg(st), True).n, Or(stk(c, c.arg(st)).p == stk(c, c.arg(st), True).p, Select(c.o(AL), stk(c, c.arg(st)).p) != 1), alive_kept(c, stk(c, c.arg(st), True).p)] + \
            [same_except(c, f, c.arg(st)) for f in sorted(Stk.F)]
    cs.append(triv('ComputeEqRes', requires=lambda c: [Ps(c.m, c.pos).l > 0, Not(Lt(c.m).pos(Ps(c.m, c.pos).l)), c.res_cls > 0],
                   ensures=lambda c: pushes('res_cls')(c) + [c.m(TR) == Store(c.o(TR), KEY(Ps(c.o, c.pos).l, 0, 0, 0), 1)], modifies=PFR | {TR}, cells={'subst_is_ho': ('i', 8)}, cell_mod={'subst_is_ho'}))

    def lits(c):
        h = Select(c.m(CL), c.clause)
        H = Lt(c.m)
        return [c.clause > 0, h >= 0, FA([p], Implies(INL(h, p), And(p > 0, Select(H.L, p) > 0, Select(H.R, p) > 0)), INL(h, p))]
    NOGEN = lambda c: flag(Select(c.o('clause_cell.properties'), c.clause), c.enums['CPNoGeneration'])

    def st_ok(c, *more):
        """the working stacks stay proper and apart"""
        S = stk(c, c.v('res_cls'))
        return S
    ro = lambda c: tb(c.o('g:EqResOnMaximalLiteralsOnly'))
    adm = lambda c, e: And(Not(Lt(c.o).pos(e)), Implies(ro(c), Lt(c.o).max(e)))

    def working(c, *ps):
        S = stk(c, c.v('res_cls')) if 'res_cls' in ps else None
        out = []
        pos = [c.v(x) for x in ps if x != 'res_cls']
        ss = [Ps(c.m, x).st for x in pos] + ([c.v('res_cls')] if S is not None else [])
        out += [('ok', And([And(x > 0, Select(c.m(AL), x) == 1) for x in pos] + [stk(c, s).ok() for s in ss]))]
        out += [('apart', And([a != b for i, a in enumerate(ss) for b in ss[:i]] + [a != b for i, a in enumerate(pos) for b in pos[:i]] + [stk(c, a).p != stk(c, b).p for i, a in enumerate(ss) for b in ss[:i]] + [stk(c, a).p != b for a in ss for b in ss + pos]))]
        return out

    def er_inv(c):
        H, t = Lt(c.o), c.v('test')
        h = Select(c.o(CL), c.clause)
        return working(c, 'pos', 'res_cls') + [('at', And(t >= 0, t == Ps(c.m, c.v('pos')).l, Implies(t != 0, adm(c, t)), FA([p], Implies(INL(t, p), INL(h, p)), INL(t, p)))), ('empty', stk(c, c.v('res_cls')).n == 0),
                                               ('done', FA([p], Implies(And(INL(h, p), Not(INL(t, p)), adm(c, p)), Select(c.m(TR), KEY(p, 0, 0, 0)) == 1), INL(h, p)))]

    def er_in(c):
        H, t = Lt(c.o), c.v('test')
        h = Select(c.o(CL), c.clause)
        return working(c, 'pos', 'res_cls') + [('at', And(t > 0, t == Ps(c.m, c.v('pos')).l, adm(c, t), FA([p], Implies(INL(t, p), INL(h, p)), INL(t, p)))),
                                               ('n', stk(c, c.v('res_cls')).n >= 0), ('done', FA([p], Implies(And(INL(h, p), Or(p == t, Not(INL(t, p))), adm(c, p)), Select(c.m(TR), KEY(p, 0, 0, 0)) == 1), INL(h, p)))]
    MOD = PFR | NOTE | {TR, ST, 'clause_cell.set', 'clause_cell.pred', 'clause_cell.succ', PC, PL, PS, PP}
    cs.append(Contract('ComputeAllEqnResolvents', requires=lambda c: lits(c) + [FA([p], Implies(And(INL(Select(c.m(CL), c.clause), p), Not(Lt(c.m).pos(p))), Select(c.m(NN), c.clause) != 0), INL(Select(c.m(CL), c.clause), p))],
                       ensures=lambda c: [('all', Or(NOGEN(c), FA([p], Implies(And(INL(Select(c.o(CL), c.clause), p), adm(c, p)), Select(c.m(TR), KEY(p, 0, 0, 0)) == 1), INL(Select(c.o(CL), c.clause), p))))],
                       modifies=MOD, frozen=FZ + ('g:EqResOnMaximalLiteralsOnly', NN), theory=lambda c: theory(c) + inl_theory(c), loops=[Loop(er_inv), Loop(er_in)]))

    # ordered factoring: every pair of maximal positive literals, the second after the first, in each order of sides that orientation leaves open
    mpl = lambda c, e: And(Lt(c.o).pos(e), Lt(c.o).max(e))
    sides = lambda c, a, b: Or(s2 == LEFT, And(s2 == RIGHT, Or(Not(Lt(c.o).ori(a)), Not(Lt(c.o).ori(b)))))
    okpos = lambda c, x: Ps(c.m, c.v(x))
    HORN = lambda c: Select(c.o(PN), c.clause) <= 1
    LTm = lambda c, h, a, b: And(INL(h, a), INL(Lt(c.o).nx(a), b))
    cs.append(triv('ComputeOrderedFactor', requires=lambda c: [Ps(c.m, c.pos1).l > 0, Ps(c.m, c.pos2).l > 0, Ps(c.m, c.pos1).l != Ps(c.m, c.pos2).l, Ps(c.m, c.pos1).s == LEFT, Ps(c.m, c.pos1).c == Ps(c.m, c.pos2).c],
                   ensures=lambda c: [c.m(TR) == Store(c.o(TR), KEY(Ps(c.o, c.pos1).l, 0, Ps(c.o, c.pos2).l, Ps(c.o, c.pos2).s), 1), c.ret >= 0], modifies={TR}))

    def of_all(c, before):
        h = Select(c.o(CL), c.clause)
        return FA([p, q, s2], Implies(And(LTm(c, h, p, q), mpl(c, p), mpl(c, q), sides(c, p, q), before), Select(c.m(TR), KEY(p, 0, q, s2)) == 1), (INL(h, p), INL(Lt(c.o).nx(p), q), KEY(p, 0, q, s2)))

    def of_inv(c):
        H, t = Lt(c.o), c.v('test')
        a, b = okpos(c, 'pos1'), okpos(c, 'pos2')
        h = Select(c.o(CL), c.clause)
        return working(c, 'pos1', 'pos2') + [('at%d' % i, Implies(t != 0, x)) for i, x in enumerate([t > 0, t == b.l, mpl(c, a.l), mpl(c, b.l), a.s == LEFT, a.c == c.clause, b.c == c.clause, sides1(c, a.l, b.l, b.s), INL(h, a.l), INL(H.nx(a.l), b.l)])] + [
                                             ('done', of_all(c, Or(t == 0, Not(INL(a.l, p)), And(p == a.l, Not(INL(b.l, q))), And(p == a.l, q == b.l, s2 == LEFT, b.s == RIGHT))))]
    sides1 = lambda c, a, b, s: Or(s == LEFT, And(s == RIGHT, Or(Not(Lt(c.o).ori(a)), Not(Lt(c.o).ori(b)))))

    def horn(c):
        """with at most one positive literal by count, there is at most one in the list, and the list has no cycle"""
        h = Select(c.m(CL), c.clause)
        return [FA([p, q], Implies(And(INL(h, p), INL(h, q), Lt(c.m).pos(p), Lt(c.m).pos(q), p != q), Select(c.m(PN), c.clause) > 1), (INL(h, p), INL(h, q))),
                FA([p], Implies(INL(h, p), Not(INL(Lt(c.m).nx(p), p))), INL(h, p))]
    FIN = FZ + (PN, NN)
    cs.append(Contract('ComputeAllOrderedFactors', requires=lambda c: lits(c) + horn(c), ensures=lambda c: [('all', Or(NOGEN(c), of_all(c, z3.BoolVal(True))))], modifies=MOD, frozen=FIN,
                       theory=lambda c: theory(c) + inl_theory(c) + trans(c), loops=[Loop(of_inv)]))

    # equality factoring: every maximal side of a maximal positive literal with every side of every other positive literal
    cs.append(triv('ComputeEqualityFactor', requires=lambda c: [Ps(c.m, c.pos1).l > 0, Ps(c.m, c.pos2).l > 0, Ps(c.m, c.pos1).l != Ps(c.m, c.pos2).l, mpl_m(c, Ps(c.m, c.pos1).l), Lt(c.m).pos(Ps(c.m, c.pos2).l),
                                                                Or(Not(Lt(c.m).ori(Ps(c.m, c.pos1).l)), Ps(c.m, c.pos1).s == LEFT), Ps(c.m, c.pos1).c == Ps(c.m, c.pos2).c],
                   ensures=lambda c: pushes('res_clauses')(c) + [c.m(TR) == Store(c.o(TR), KEY(Ps(c.o, c.pos1).l, Ps(c.o, c.pos1).s, Ps(c.o, c.pos2).l, Ps(c.o, c.pos2).s), 1)], modifies=PFR | {TR},
                   cells={'subst_is_ho': ('i', 8)}, cell_mod={'subst_is_ho'}))
    mpl_m = lambda c, e: And(Lt(c.m).pos(e), Lt(c.m).max(e))
    okside = lambda c, e, s: Or(s == LEFT, And(s == RIGHT, Not(Lt(c.o).ori(e))))

    def ef_all(c, before):
        h = Select(c.o(CL), c.clause)
        return FA([p, s1, q, s2], Implies(And(INL(h, p), INL(h, q), p != q, mpl(c, p), Lt(c.o).pos(q), okside(c, p, s1), Or(s2 == LEFT, s2 == RIGHT), before), Select(c.m(TR), KEY(p, s1, q, s2)) == 1),
                  (INL(h, p), INL(h, q), KEY(p, s1, q, s2)))

    def ef_common(c, own):
        H, t = Lt(c.o), c.v('test')
        a, b = okpos(c, 'pos1'), okpos(c, 'pos2')
        h = Select(c.o(CL), c.clause)
        cur = And(p == a.l, s1 == a.s)
        return working(c, 'pos1', 'pos2', 'res_cls') + [('at%d' % i, Implies(t != 0, x)) for i, x in enumerate([t > 0, t == b.l, mpl(c, a.l), H.pos(b.l), okside(c, a.l, a.s), Or(b.s == LEFT, b.s == RIGHT), a.c == c.clause, b.c == c.clause, INL(h, a.l), INL(h, b.l), a.l != b.l])] + [
                                             ('done', ef_all(c, Or(t == 0, Not(INL(a.l, p)), And(p == a.l, s1 == LEFT, a.s == RIGHT), And(cur, Not(INL(b.l, q))), And(cur, q == b.l, s2 == LEFT, b.s == RIGHT), And(cur, q == b.l, s2 == b.s, own))))]
    cs.append(Contract('ComputeAllEqualityFactors', requires=lambda c: lits(c) + horn(c), ensures=lambda c: [('all', Or(NOGEN(c), ef_all(c, z3.BoolVal(True))))], modifies=MOD, frozen=FIN,
                       theory=lambda c: theory(c) + inl_theory(c) + trans(c), loops=[Loop(lambda c: ef_common(c, z3.BoolVal(False)) + [('empty', stk(c, c.v('res_cls')).n == 0)]),
                                                                                     Loop(lambda c: ef_common(c, z3.BoolVal(True)) + [('n', stk(c, c.v('res_cls')).n >= 0), ('t', c.v('test') > 0)])]))
    return cs
