"""C18: multiset subsumption between clauses is sound and complete (relative to matching, property C03).

PV is an arbitrary valuation of the subsumer's terms in the finite trees, TV takes a candidate term to itself (see match.py).
LI(l, e): PV makes literal l the literal e (same sign and kind, sides possibly exchanged).
SUBM(l, A, h): PV maps the literals from l on injectively to literals of the list h whose positions are not taken in A.
With PV arbitrary, "MRESP(b0) and SUBM imply success" says that every subsumption is found, and "success and MRESP(b) imply SUBM"
says that the substitution found is one (generalising over PV)."""
import copy
from .lib import *
from .seq import *
from . import seq, unify, match
from .unify import HT, wf, INS, ins_theory, BND, TERM0, sub, below
from .match import PV, TV, HEADV, SZ, MRESP, mrw, EXT, ext_theory, ext_of, WEIGHT, WT, VCT, FCT, count_theory, cached

SOURCES = ['CLAUSES/ccl_subsumption.c', 'CLAUSES/ccl_eqn.c', 'TERMS/cte_termfunc.c', 'TERMS/cte_subst.c', 'BASICS/clb_pstacks.c', '@probe_terms.c']
VERIFY = ['EqnSubsumeQOrderCompare', 'find_spec_literal', 'check_subsumption_possibility', 'eqn_list_rec_subsume']
ASSUMES = ['the literals of both clauses are in subsumption order (ClauseSubsumeOrderSortLits) and cached term weights are the real ones (property C06)',
           'orientation marks are those of a term ordering that is stable under instantiation: an instance of an oriented equation is oriented the same way (properties C01, C02, C16)',
           'a literal that is not equational has a predicate term on its left side and $true on its right side; the sides of an equational literal are not marked as predicates']

P, L, R, N = 'eqncell.properties', 'eqncell.lterm', 'eqncell.rterm', 'eqncell.next'
SHARED = 16384   # TPIsShared: checked against the program's constant in contracts()
FZ = TERM0 + WEIGHT + (P, L, R, N)
PARAMS = {'SubstComputeMatch': ['matcher', 'to_match', 'subst']}
NTH = Function('NTH', I, I, I)
LEN = Function('LEN', I, I)
LI = Function('LI', I, I, B)
LID = Function('LID', I, I, B)            # without exchanging sides
CAN = Function('CAN', I, A1, I, I, B)
NOC = Function('NOC', I, A1, I, I, B)
SUBM = Function('SUBM', I, A1, I, B)
sw = Function('subm_wit', I, A1, I, I)
NOL = Function('NOL', I, I, B)            # no literal of the list is an instance
DOWN = Function('DOWN', I, B)             # the list descends in subsumption order
ANY = Function('ANY', I, I, B)            # every literal of the first list has an instance in the second
WFL = Function('WFL', I, B)             # a list of well-formed literals


class LT:
    def __init__(self, get):
        self.P, self.L, self.R, self.N = get(P), get(L), get(R), get(N)
        self.T = HT(get)
        self.TP = get('termcell.properties')

    def pos(self, e): return flag(Select(self.P, e), 1)
    def equ(self, e): return flag(Select(self.P, e), 8)
    def ori(self, e): return flag(Select(self.P, e), 16)
    def l(self, e): return Select(self.L, e)
    def r(self, e): return Select(self.R, e)
    def nx(self, e): return Select(self.N, e)
    def w(self, e): return WT(self.l(e)) + WT(self.r(e))
    def f(self, e): return self.T.f(self.l(e))

    def cls(self, a, b):
        """sign of the class comparison of literals a and b"""
        one = lambda x: If(x, IntVal(1), IntVal(0))
        d1, d2 = one(self.pos(a)) - one(self.pos(b)), one(self.equ(a)) - one(self.equ(b))
        fc = If(self.f(a) > self.f(b), IntVal(1), If(self.f(a) < self.f(b), IntVal(-1), IntVal(0)))
        return If(d1 != 0, d1, If(d2 != 0, d2, If(self.equ(a), IntVal(0), fc)))


def list_theory(E):
    h, k = Ints('h k')
    return [FA([h], NTH(h, 0) == h, NTH(h, IntVal(0))), FA([h], And(LEN(h) >= 0, (LEN(h) == 0) == (h == 0)), LEN(h)),
            FA([h, k], Implies(k >= 0, NTH(h, k + 1) == E.nx(NTH(h, k))), (NTH(h, k), E.nx(NTH(h, k))), NTH(h, k + 1)),
            FA([h, k], And(Implies(And(k >= 0, k < LEN(h)), NTH(h, k) > 0), Implies(k == LEN(h), NTH(h, k) == 0)), (NTH(h, k), LEN(h)))]


def li_theory(E):
    l, e = Ints('l e')
    T = E.T
    kind = lambda l, e: And(E.pos(l) == E.pos(e), E.equ(l) == E.equ(e))
    D = lambda l, e: And(PV(E.l(l)) == TV(E.l(e)), PV(E.r(l)) == TV(E.r(e)))
    S = lambda l, e: And(PV(E.l(l)) == TV(E.r(e)), PV(E.r(l)) == TV(E.l(e)))
    return [FA([l, e], LI(l, e) == And(kind(l, e), Or(D(l, e), S(l, e))), LI(l, e)),
            # stability of the term ordering
            FA([l, e], Implies(And(LI(l, e), E.ori(l)), And(E.ori(e), D(l, e))), LI(l, e)),
            # lemma instance_class
            FA([l, e], Implies(LI(l, e), And(E.cls(l, e) == 0, E.cls(e, l) == 0, E.w(l) <= E.w(e))), LI(l, e))]


def subm_theory(E):
    l, h, k, j = Ints('l h k j')
    A = z3.Const('A', A1)
    w = sw(l, A, h)
    return [FA([A, h], SUBM(0, A, h), SUBM(0, A, h)),
            # SUBM(l, A, h) for l != 0: some position can take l
            FA([l, A, h], Implies(And(l != 0, SUBM(l, A, h)), And(w >= 0, w < LEN(h), CAN(l, A, h, w))), SUBM(l, A, h)),
            FA([l, A, h, k], Implies(And(k >= 0, k < LEN(h), CAN(l, A, h, k)), SUBM(l, A, h)), (SUBM(l, A, h), CAN(l, A, h, k))),
            FA([l, A, h, k, j], Implies(And(k >= 0, k < LEN(h), j == 1, CAN(l, A, h, k)), SUBM(l, A, h)), (SUBM(l, A, h), SUBM(E.nx(l), Store(A, k, j), h))),
            FA([l, A, h, k], CAN(l, A, h, k) == And(Select(A, k) == 0, LI(l, NTH(h, k)), SUBM(E.nx(l), Store(A, k, 1), h)), CAN(l, A, h, k)),
            # NOC(l, A, h, k): no position below k can
            FA([l, A, h], NOC(l, A, h, 0), NOC(l, A, h, IntVal(0))),
            FA([l, A, h, j, k], Implies(And(j >= 0, k == j + 1), NOC(l, A, h, k) == And(NOC(l, A, h, j), Not(CAN(l, A, h, j)))), (NOC(l, A, h, k), NOC(l, A, h, j))),
            # lemma noc
            FA([l, A, h, j, k], Implies(And(NOC(l, A, h, k), j >= 0, j < k), Not(CAN(l, A, h, j))), (NOC(l, A, h, k), CAN(l, A, h, j)))]


def big(E, l, e):
    return Or(E.cls(l, e) > 0, And(E.cls(l, e) == 0, E.w(l) > E.w(e)))


def nol_theory(E):
    l, h, p, q = Ints('l h p q')
    return [FA([l, p], NOL(l, p) == Or(p == 0, And(Not(LI(l, p)), NOL(l, E.nx(p)))), (NOL(l, p), E.nx(p))), FA([l], NOL(l, 0), NOL(l, IntVal(0))),
            FA([p], DOWN(p) == Or(p == 0, And(DOWN(E.nx(p)), Or(E.nx(p) == 0, Not(big(E, E.nx(p), p))))), (DOWN(p), E.nx(p))),
            # lemma too_big
            FA([l, p], Implies(And(p != 0, DOWN(p), WFL(p), big(E, l, p)), NOL(l, p)), (NOL(l, p), DOWN(p)))]


def any_theory(E):
    l, h = Ints('l h')
    return [FA([l, h], ANY(l, h) == Or(l == 0, And(Not(NOL(l, h)), ANY(E.nx(l), h))), (ANY(l, h), E.nx(l))), FA([h], ANY(0, h), ANY(IntVal(0), h))]


def resp_theory():
    b, b2 = z3.Consts('b b2', A1)
    x = Int('x')
    return match.resp_theory()[:2]


def val_theory(T):
    t, m = Ints('t m')
    return [FA([t], And(HEADV(TV(t)) == T.f(t), SZ(TV(t)) == WT(t)), TV(t)), FA([m], And(Implies(T.f(m) > 0, HEADV(PV(m)) == T.f(m)), SZ(PV(m)) >= WT(m)), PV(m))]


def wfl(E, e):
    """literals"""
    sh = lambda t: And(t > 0, flag(Select(E.TP, t), SHARED))
    pp = lambda t: flag(Select(E.TP, t), 8)
    return And(e > 0, sh(E.l(e)), sh(E.r(e)), Implies(Not(E.equ(e)), And(E.f(e) > 0, E.T.f(E.r(e)) > 0)), Implies(E.equ(e), And(Not(pp(E.l(e))), Not(pp(E.r(e))))))


def sorted_(E, h):
    i, j = Ints('i j')
    a, b = NTH(h, i), NTH(h, j)
    return FA([i, j], Implies(And(i >= 0, i <= j, j < LEN(h)), And(E.cls(a, b) >= 0, Implies(E.cls(a, b) == 0, E.w(a) >= E.w(b)))), (NTH(h, i), NTH(h, j)))


def allwf(E, h):
    i = Int('i')
    return FA([i], Implies(And(i >= 0, i < LEN(h)), wfl(E, NTH(h, i))), NTH(h, i))


def wfl_theory(E):
    l = Int('l')
    return [FA([l], WFL(l) == Or(l == 0, And(wfl(E, l), WFL(E.nx(l)))), (WFL(l), E.nx(l)), (WFL(l), E.l(l)))]


def theory(c):
    E = LT(c.o)
    assert c.enums['TPIsShared'] == SHARED and 1 << unify.PREDPOS(c) == 8
    return wf(E.T) + cached(c, E.T) + wfl_theory(E) + list_theory(E) + li_theory(E) + subm_theory(E) + resp_theory() + ext_theory()


def LEMMAS():
    get = lambda k: z3.Const(k + '@L', z3.ArraySort(I, A1) if k.endswith('[]') else A1)
    E = LT(get)
    Ls = {}
    l, e, h, k, j = z3.Ints('l0 e0 h0 k0 j0')
    A = z3.Const('A0', A1)
    tt = Int('true0')
    nonequ = lambda x: Implies(Not(E.equ(x)), And(E.r(x) == tt, E.f(x) > 0))
    Ls['instance_class'] = dict(axioms=[li_theory(E)[0]] + val_theory(E.T), goals=[
        ('class', Implies(And(LI(l, e), wfl(E, l), wfl(E, e), nonequ(l), nonequ(e), E.T.f(tt) > 0), And(E.cls(l, e) == 0, E.cls(e, l) == 0, E.w(l) <= E.w(e))))])
    nt = nol_theory(E)
    n = E.nx(h)
    Ls['too_big'] = dict(axioms=[NOL(l, h) == Or(h == 0, And(Not(LI(l, h)), NOL(l, n))), NOL(l, 0), DOWN(h) == Or(h == 0, And(DOWN(n), Or(n == 0, Not(big(E, n, h))))),
                                 Implies(LI(l, h), And(E.cls(l, h) == 0, E.w(l) <= E.w(h))), Implies(And(n != 0, DOWN(n), big(E, l, n)), NOL(l, n))],
                         goals=[('step', Implies(And(h != 0, DOWN(h), big(E, l, h)), NOL(l, h)))])
    Ls['subm_any'] = dict(axioms=[SUBM(l, A, h) == Or(l == 0, And(k >= 0, k < LEN(h), CAN(l, A, h, k))), CAN(l, A, h, k) == And(Select(A, k) == 0, LI(l, NTH(h, k)), SUBM(E.nx(l), Store(A, k, 1), h)),
                                  Implies(And(k >= 0, k < LEN(h), NOL(l, h)), NOL(l, NTH(h, k))), NTH(h, k + 1) == E.nx(NTH(h, k)), NTH(h, 0) == h, Implies(And(k >= 0, k < LEN(h)), NTH(h, k) > 0),
                                  *[NOL(l, e) == Or(e == 0, And(Not(LI(l, e)), NOL(l, E.nx(e)))) for e in (NTH(h, k),)],
                                  ANY(l, h) == Or(l == 0, And(Not(NOL(l, h)), ANY(E.nx(l), h))), Implies(SUBM(E.nx(l), Store(A, k, 1), h), ANY(E.nx(l), h))],
                          goals=[('suffix.base', Implies(NOL(l, h), NOL(l, NTH(h, 0)))), ('suffix.step', Implies(And(k >= 0, k < LEN(h), NOL(l, NTH(h, k))), NOL(l, NTH(h, k + 1)))),
                                 ('step', Implies(SUBM(l, A, h), ANY(l, h)))])
    st = subm_theory(E)
    claim = lambda k: Implies(And(NOC(l, A, h, k), j >= 0, j < k), Not(CAN(l, A, h, j)))
    Ls['noc'] = dict(axioms=[st[4], NOC(l, A, h, k + 1) == And(NOC(l, A, h, k), Not(CAN(l, A, h, k)))], goals=[('base', claim(IntVal(0))), ('step', Implies(And(k >= 0, claim(k)), claim(k + 1)))])
    return Ls


def contracts():
    mc = {c.name: c for c in match.contracts()}
    cs = [mc[n] for n in ('SubstComputeMatch', 'TermWeightCompute', 'SizeMallocReal', 'SizeFreeReal', 'SubstBacktrackToPos', 'SubstBacktrack')] + stack_contracts()
    x, k, j = Ints('x k j')
    fo = lambda c: [('fo', c.m('g:problemType') == c.enums['PROBLEM_FO'])]
    frames = lambda c: [('frame.' + f, same_except(c, f, c.subst)) for f in sorted(Stk.F)]

    cs.append(Contract('EqnSubsumeQOrderCompare', requires=lambda c: fo(c) + [c.lit1 > 0, c.lit2 > 0, LT(c.m).l(c.lit1) > 0, LT(c.m).l(c.lit2) > 0],
                       ensures=lambda c: [('class', And((c.ret > 0) == (LT(c.o).cls(c.lit1, c.lit2) > 0), (c.ret < 0) == (LT(c.o).cls(c.lit1, c.lit2) < 0)))],
                       frozen=FZ, theory=lambda c: wf(HT(c.o))))

    # ------------------------------------------------------------- recursion over the subsumer's literals
    def pk(c, pre=False):
        return Select((c.o if pre else c.m)(E64), c.arg('pick_list'))

    def base(c):
        S, S0, T = sub(c), sub(c, True), HT(c.o)
        q = c.arg('pick_list')
        return [('ok', S.ok()), ('ext', ext_of(c)), ('bindok', T.bindok(c.m(BND))), ('s.new', Or(S.p == S0.p, Select(c.o(AL), S.p) != 1)),
                ('kept', alive_kept(c, S0.p)), ('frame.E', same_except(c, E64, S0.p, q, fresh_ok=True))] + frames(c)

    def rec_req(c):
        E, S, q = LT(c.m), sub(c), c.pick_list
        return fo(c) + [S.ok(), HT(c.m).bindok(c.m(BND)), q > 0, alive(c.m(AL), q), q != S.p, q != S.s, c.subsum_list >= 0, c.sub_cand_list >= 0,
                        sorted_(E, c.sub_cand_list), allwf(E, c.sub_cand_list), WFL(c.subsum_list)]

    def rec_ens(c):
        l, h = c.subsum_list, c.sub_cand_list
        return base(c) + [('sound', Implies(And(c.ret, MRESP(c.m(BND))), SUBM(l, pk(c, True), h))),
                          ('complete', Implies(And(MRESP(c.o(BND)), SUBM(l, pk(c, True), h)), c.ret)),
                          ('restored', Implies(Not(c.ret), And(sub(c).n == sub(c, True).n, c.m(BND) == c.o(BND), pk(c) == pk(c, True))))]

    def rec_inv(c):
        l, h, E, i = c.subsum_list, c.sub_cand_list, LT(c.o), c.v('lcount')
        return base(c) + [('i', And(i >= 0, i <= LEN(h), c.v('eqn') == NTH(h, i))), ('l', And(l > 0, wfl(E, l), WFL(E.nx(l)))),
                          ('same', And(sub(c).n == sub(c, True).n, c.m(BND) == c.o(BND), pk(c) == pk(c, True))),
                          ('none', Implies(MRESP(c.o(BND)), NOC(l, pk(c, True), h, i)))]
    cs.append(Contract('eqn_list_rec_subsume', requires=rec_req, ensures=rec_ens, modifies={BND} | PFR, frozen=FZ, theory=theory, loops=[Loop(rec_inv)]))

    # ------------------------------------------------------------- the pre-test
    def fs_req(c):
        E = LT(c.m)
        return fo(c) + [wfl(E, c.lit), c.list >= 0, DOWN(c.list), WFL(c.list), HT(c.m).bindok(c.m(BND))]

    def fs_ens(c):
        return [('none', Implies(And(c.ret == 0, MRESP(c.o(BND))), NOL(c.lit, c.list))), ('restored', c.m(BND) == c.o(BND)), ('kept', alive_kept(c)), ('frame.E', same_except(c, E64, fresh_ok=True))] + \
            [('frame.' + f, same_except(c, f, fresh_ok=True)) for f in sorted(Stk.F)]

    def fs_inv(c):
        E, h, p, s = LT(c.o), c.list, c.v('list'), c.v('subst')
        S = stk(c, s)
        return [('at', And(p >= 0, DOWN(p), WFL(p))), ('none', Implies(And(MRESP(c.o(BND)), NOL(c.lit, p)), NOL(c.lit, h))), ('same', c.m(BND) == c.o(BND)),
                ('s', And(S.ok(), S.n == 0, Select(c.o(AL), s) != 1, Select(c.o(AL), S.p) != 1)), ('kept', alive_kept(c)), ('frame.E', same_except(c, E64, fresh_ok=True))] + \
            [('frame.' + f, same_except(c, f, fresh_ok=True)) for f in sorted(Stk.F)]

    def fs_theory(c):
        E = LT(c.o)
        assert c.enums['TPIsShared'] == SHARED and 1 << unify.PREDPOS(c) == 8
        return wf(E.T) + cached(c, E.T) + wfl_theory(E) + li_theory(E) + nol_theory(E) + resp_theory() + ext_theory()
    cs.append(Contract('find_spec_literal', requires=fs_req, ensures=fs_ens, modifies={BND} | PFR, frozen=FZ, theory=fs_theory, loops=[Loop(fs_inv)]))

    lits = lambda c, x: Select(c.m('clause_cell.literals'), x)

    def cp_req(c):
        return fo(c) + [c.subsumer > 0, c.sub_candidate > 0, lits(c, c.subsumer) >= 0, lits(c, c.sub_candidate) >= 0, WFL(lits(c, c.subsumer)), WFL(lits(c, c.sub_candidate)),
                        DOWN(lits(c, c.sub_candidate)), HT(c.m).bindok(c.m(BND))]

    def cp_ens(c):
        return [('complete', Implies(And(Not(c.ret), MRESP(c.o(BND))), Not(ANY(lits(c, c.subsumer), lits(c, c.sub_candidate))))), ('restored', c.m(BND) == c.o(BND)), ('kept', alive_kept(c)),
                ('frame.E', same_except(c, E64, fresh_ok=True))] + [('frame.' + f, same_except(c, f, fresh_ok=True)) for f in sorted(Stk.F)]

    def cp_inv(c):
        p, h = c.v('sub_eqn'), lits(c, c.sub_candidate)
        return [('at', And(p >= 0, WFL(p))), ('any', Implies(And(MRESP(c.o(BND)), ANY(lits(c, c.subsumer), h)), ANY(p, h))), ('same', c.m(BND) == c.o(BND)), ('kept', alive_kept(c)),
                ('frame.E', same_except(c, E64, fresh_ok=True))] + [('frame.' + f, same_except(c, f, fresh_ok=True)) for f in sorted(Stk.F)]
    cs.append(Contract('check_subsumption_possibility', requires=cp_req, ensures=cp_ens, modifies={BND} | PFR, frozen=FZ + ('clause_cell.literals',),
                       theory=lambda c: wf(HT(c.o)) + wfl_theory(LT(c.o)) + any_theory(LT(c.o)), loops=[Loop(cp_inv)]))
    return cs
