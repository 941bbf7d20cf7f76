"""C04/C05: first order unification computes most general unifiers, and undoing a substitution restores the bindings.

The argument is relative to an arbitrary valuation VAL of terms in the algebra of finite well-sorted trees
(an uninterpreted function constrained by the homomorphism axioms only): RESP(b) says that VAL is an instance
of the binding map b.  Unification keeps  "VAL respects the initial bindings and equates the two terms"
equivalent to  "VAL respects the current bindings and equates all pending pairs"."""
from .lib import *
from .seq import *
from . import seq

SOURCES = ['TERMS/cte_match_mgu_1-1.c', 'TERMS/cte_subst.c', 'BASICS/clb_pqueue.c', 'BASICS/clb_pstacks.c', '@probe_terms.c']
VERIFY = ['TermDerefAlways', 'OccurCheck', 'SubstAddBinding', 'SubstBacktrackSingle', 'SubstBacktrackToPos', 'SubstBacktrack', 'SubstComputeMgu']
ASSUMES = ['terms are finite, well-sorted first order terms; the arity and, given the arguments, the sort of a term are functions of its head symbol',
           'binding maps are acyclic on entry (preservation is lemma acyclic_extension)']

BND = 'termcell.binding'
TERM0 = ('termcell.f_code', 'termcell.arity', 'termcell.args[]', 'termcell.type')
VAL = Function('VAL', I, I)
HEADV, SIZE, TYP = Function('HEADV', I, I), Function('SIZE', I, I), Function('TYP', I, I)
AEQ = Function('AEQ', I, I, I, B)        # the first k arguments have equal values
RESP = Function('RESP', A1, B)
rw = Function('resp_wit', A1, I)
DA = Function('DA', A1, I, I)            # exhaustive dereferencing
OCC = Function('OCC', A1, I, I, B)       # variable occurs in the instance
ow = Function('occ_wit', A1, I, I, I)
ACYC = Function('ACYC', A1, B)
INS = Function('INS', A1, I, I, I, B)    # x is among array elements lo..hi-1
iw = Function('ins_wit', A1, I, I, I, I)
JB = Function('JB', A1, I, I, I, B)      # all pending pairs (queue array, size, tail, count) have equal values
jw = Function('jb_wit', A1, I, I, I, I)
arity = z3.Function('sigarity', I, I)


class HT:
    def __init__(self, get):
        self.F, self.N, self.A, self.Ty = (get(k) for k in TERM0)

    def f(self, t): return Select(self.F, t)
    def n(self, t): return Select(self.N, t)
    def a(self, t, i): return Select(Select(self.A, t), i)
    def ty(self, t): return Select(self.Ty, t)
    def bound(self, b, t): return Select(b, t) != 0
    def bindok(self, b):
        x = Int('x')
        return FA([x], And(Select(b, x) >= 0, Implies(Select(b, x) != 0, self.f(x) < 0)), Select(b, x))


def wf(T):
    t, i = Ints('t i')
    return [FA([t], And(T.n(t) >= 0, T.f(t) != 0, Implies(T.f(t) < 0, T.n(t) == 0), Implies(T.f(t) > 0, T.n(t) == arity(T.f(t)))), T.n(t), T.f(t)),
            FA([t, i], Implies(And(i >= 0, i < T.n(t)), T.a(t, i) > 0), T.a(t, i))]


def val_theory(T):
    t, u, k, v = Ints('t u k v')
    return [
        FA([t], And(TYP(VAL(t)) == T.ty(t), Implies(T.f(t) > 0, HEADV(VAL(t)) == T.f(t)), SIZE(VAL(t)) > 0), VAL(t)),
        # free constructors: equal values iff equal heads and pairwise equal arguments
        FA([t, u], Implies(And(T.f(t) > 0, T.f(t) == T.f(u)), (VAL(t) == VAL(u)) == AEQ(t, u, T.n(t))), (VAL(t), VAL(u))),
        FA([t, u], AEQ(t, u, 0), AEQ(t, u, IntVal(0))),
        FA([t, u, k], Implies(And(k >= 0, k < T.n(t)), AEQ(t, u, k + 1) == And(AEQ(t, u, k), VAL(T.a(t, k)) == VAL(T.a(u, k)))), (AEQ(t, u, k + 1), T.a(t, k)), (AEQ(t, u, k), T.a(t, k))),
        # finite trees
        FA([t, k], Implies(And(k >= 0, k < T.n(t)), SIZE(VAL(T.a(t, k))) < SIZE(VAL(t))), T.a(t, k)),
    ]


def bind_theory(T, occ=True):
    t, x, k = Ints('t x k')
    b = z3.Const('b', A1)
    return [
        FA([b, t], Implies(T.bound(b, t), DA(b, t) == DA(b, Select(b, t))), (DA(b, t), Select(b, t))),
        FA([b, t], Implies(Not(T.bound(b, t)), DA(b, t) == t), (DA(b, t), Select(b, t))),
        FA([b, x], Implies(And(RESP(b), T.bound(b, x)), VAL(x) == VAL(Select(b, x))), (RESP(b), Select(b, x))),
        FA([b], Implies(Not(RESP(b)), And(T.bound(b, rw(b)), VAL(rw(b)) != VAL(Select(b, rw(b))))), RESP(b)),
        # lemma resp_deref
        FA([b, t], And(Implies(RESP(b), VAL(DA(b, t)) == VAL(t)), Not(T.bound(b, DA(b, t)))), DA(b, t)),
    ] + ([] if not occ else [
        # occurrence in the instance
        FA([b, t, x], Implies(DA(b, t) == x, OCC(b, t, x)), OCC(b, t, x)),
        FA([b, t, x], Implies(And(OCC(b, t, x), DA(b, t) != x),
                              And(ow(b, t, x) >= 0, ow(b, t, x) < T.n(DA(b, t)), OCC(b, T.a(DA(b, t), ow(b, t, x)), x))), OCC(b, t, x)),
        FA([b, t, x, k], Implies(And(k >= 0, k < T.n(DA(b, t)), OCC(b, T.a(DA(b, t), k), x)), OCC(b, t, x)), (OCC(b, t, x), T.a(DA(b, t), k))),
    ]) + [
        # lemma acyclic_extension
        FA([b, x, t], Implies(And(ACYC(b), Not(T.bound(b, x)), T.f(x) < 0, Not(OCC(b, t, x))), ACYC(Store(b, x, t))), ACYC(Store(b, x, t))),
        # lemma resp_store
        FA([b, x, t], Implies(And(Select(b, x) == 0, t != 0), RESP(Store(b, x, t)) == And(RESP(b), VAL(x) == VAL(t))), RESP(Store(b, x, t))),
    ]


def ins_theory():
    a = z3.Const('a', A1)
    lo, hi, x, k = Ints('lo hi x k')
    return [FA([a, lo, hi, x], Implies(INS(a, lo, hi, x), And(lo <= iw(a, lo, hi, x), iw(a, lo, hi, x) < hi, Select(a, iw(a, lo, hi, x)) == x)), INS(a, lo, hi, x)),
            FA([a, lo, hi, x, k], Implies(And(lo <= k, k < hi, Select(a, k) == x), INS(a, lo, hi, x)), (INS(a, lo, hi, x), Select(a, k)))]


def jb_theory():
    return qn_theory() + jb_theory_()


def qn_theory():
    n, h, t = Ints('n h t')
    return [FA([n, h, t], Implies(And(n >= 2, h >= 0, h < n, t >= 0, t < n), And(QN(n, h, t) >= 0, QN(n, h, t) < n, (QN(n, h, t) == 0) == (h == t))), QN(n, h, t))]


def jb_theory_():
    a = z3.Const('a', A1)
    s, t, n, j, j1 = Ints('s t n j j1')
    neq = lambda j, j1: And(j >= 0, j + 1 < n, j % 2 == 0, j1 == j + 1, VAL(QE(a, s, t, j)) != VAL(QE(a, s, t, j1)))
    w = jw(a, s, t, n)
    return [FA([a, s, t, n], Implies(Not(JB(a, s, t, n)), neq(w, w + 1)), JB(a, s, t, n)),
            FA([a, s, t, n, j, j1], Implies(JB(a, s, t, n), Not(neq(j, j1))), (JB(a, s, t, n), QE(a, s, t, j), QE(a, s, t, j1)))]


def theory(c, occ=True):
    T = HT(c.o)
    return wf(T) + val_theory(T) + bind_theory(T, occ) + ins_theory() + jb_theory()


def LEMMAS():
    T = HT(lambda k: z3.Const(k + '@L', z3.ArraySort(I, A1) if k.endswith('[]') else A1))
    b = z3.Const('b0', A1)
    t, x, u, y, k = z3.Ints('t0 x0 u0 y0 k0')
    qt, qk = Ints('qt qk')
    L = {}
    bt = bind_theory(T)
    ok = lambda t: And(Implies(RESP(b), VAL(DA(b, t)) == VAL(t)), Not(T.bound(b, DA(b, t))))
    L['resp_deref'] = dict(axioms=bt[:4], goals=[  # induction on the length of the binding chain
        ('unbound', Implies(Not(T.bound(b, t)), ok(t))), ('bound', Implies(And(T.bound(b, t), ok(Select(b, t))), ok(t)))])
    b9 = z3.Const('b9', A1)
    g = [Select(b, x) == 0, t != 0, b9 == Store(b, x, t)]
    for z in (x, rw(b), rw(b9)):
        g += [Select(b, z) == Select(b, z), Select(b9, z) == Store(b, x, t)[z]]
    inst = lambda q, z: Implies(And(RESP(q), Select(q, z) != 0), VAL(z) == VAL(Select(q, z)))
    L['resp_store'] = dict(axioms=[inst(q, z) for q in (b, b9) for z in (x, rw(b), rw(b9))] + [bt[3]], goals=[
        ('split', Implies(And(g), RESP(b9) == And(RESP(b), VAL(x) == VAL(t))))])
    # ACYC(b) means: there is a rank that drops along bindings and into arguments.  A rank of b yields one of b[x:=t].
    RK = Function('RK', I, I)
    R2 = lambda z: RK(z) + If(OCC(b, z, x), RK(t) + 1, IntVal(0))
    rank = [FA([qt], Implies(T.bound(b, qt), RK(Select(b, qt)) < RK(qt)), Select(b, qt)), FA([qt], RK(qt) >= 0, RK(qt)),
            FA([qt, qk], Implies(And(qk >= 0, qk < T.n(qt)), RK(T.a(qt, qk)) < RK(qt)), T.a(qt, qk))]
    b2 = Store(b, x, t)
    hyp = And(Not(T.bound(b, x)), T.f(x) < 0, Not(OCC(b, t, x)), Select(b, y) >= 0, Select(b, x) >= 0)
    L['acyclic_extension'] = dict(axioms=bt[:2] + bt[4:8] + rank + wf(T), goals=[
        ('nonneg', Implies(hyp, R2(y) >= 0)),
        ('binding', Implies(And(hyp, T.bound(b2, y), OCC(b, Select(b, y), x) == OCC(b, Select(b, y), x), DA(b, y) == DA(b, y), DA(b, x) == x), R2(Select(b2, y)) < R2(y))),
        ('argument', Implies(And(hyp, k >= 0, k < T.n(y), DA(b, y) == DA(b, y), Not(T.bound(b, y))), R2(T.a(y, k)) < R2(y)))])
    return L


def sub(c, pre=False):
    return stk(c, c.subst, pre)


def below(c, n, S, S0):
    k = Int('k')
    return FA([k], Implies(And(k >= 0, k < n), S.el(k) == S0.el(k)), S.el(k), S0.el(k))


def configure(v):
    v.classic = True


def contracts():
    cs = [c_SizeMalloc(), c_SizeFree()] + stack_contracts() + queue_contracts()
    x, k = Ints('x k')
    okt = lambda t: t > 0

    cs.append(Contract('TermDerefAlways', requires=lambda c: [okt(c.term), HT(c.m).bindok(c.m(BND))], ensures=lambda c: [('node', c.ret == DA(c.m(BND), c.term)), ('some', okt(c.ret))],
                       theory=lambda c: bind_theory(HT(c.o))[:2], frozen=TERM0, loops=[Loop(lambda c: [('same', DA(c.m(BND), c.v('term')) == DA(c.m(BND), c.term)), ('some', okt(c.v('term')))])]))

    def occ_ens(c):
        b = c.m(BND)
        T = HT(c.o)
        return [('occurs', c.ret == OCC(b, c.term, c.var)),
                # an instance that equates the variable with a term properly containing it would be infinite
                ('smaller', Implies(And(c.ret, RESP(b)), And(SIZE(VAL(c.var)) <= SIZE(VAL(c.term)), Implies(DA(b, c.term) != c.var, SIZE(VAL(c.var)) < SIZE(VAL(c.term))))))]

    def occ_inv(c):
        b = c.m(BND)
        T = HT(c.o)
        t, i = c.v('term'), c.v('i')
        return [('t', And(t == DA(b, c.term), t != c.var, okt(t))), ('i', And(i >= 0, i <= T.n(t))),
                ('none', FA([k], Implies(And(k >= 0, k < i), Not(OCC(b, T.a(t, k), c.var))), T.a(t, k)))]
    cs.append(Contract('OccurCheck', requires=lambda c: [okt(c.term), okt(c.var), HT(c.m).bindok(c.m(BND))], ensures=occ_ens, theory=theory, frozen=TERM0, loops=[Loop(occ_inv)]))

    def add_ens(c):
        return [('bound', c.m(BND) == Store(c.o(BND), c.var, c.bind)), ('pos', c.ret == sub(c, True).n)] + seq.push_ens('subst', 'var')(c)
    cs.append(Contract('SubstAddBinding', requires=lambda c: [sub(c).ok(), okt(c.var), okt(c.bind)], ensures=add_ens, modifies={BND} | PFR))

    def single_ens(c):
        S, S0 = sub(c), sub(c, True)
        return [('ret', c.ret == (S0.n > 0)), ('len', S.n == If(S0.n > 0, S0.n - 1, IntVal(0))),
                ('undone', c.m(BND) == If(S0.n > 0, Store(c.o(BND), S0.el(S0.n - 1), 0), c.o(BND))),
                ('frame', same_except(c, 'pstackcell.current', c.subst))]
    cs.append(Contract('SubstBacktrackSingle', requires=lambda c: [sub(c).ok()], ensures=single_ens, modifies={BND, 'pstackcell.current'}))

    def undone(c, lo):
        S0 = sub(c, True)
        b, b0 = c.m(BND), c.o(BND)
        return FA([x], Select(b, x) == If(INS(S0.arr, lo, S0.n, x), IntVal(0), Select(b0, x)), Select(b, x), Select(b0, x))

    def bt_ens(c):
        S, S0 = sub(c), sub(c, True)
        lo = If(c.pos < S0.n, c.pos, S0.n)
        return [('len', S.n == lo), ('undone', undone(c, lo)), ('count', c.ret == S0.n - lo), ('frame', same_except(c, 'pstackcell.current', c.subst))]

    def bt_inv(c):
        S, S0 = sub(c), sub(c, True)
        return [('len', And(S.n <= S0.n, Or(S.n >= c.pos, S.n == S0.n), S.n >= 0)), ('undone', undone(c, S.n)), ('count', c.v('ret') == S0.n - S.n),
                ('frame', same_except(c, 'pstackcell.current', c.subst))]
    cs.append(Contract('SubstBacktrackToPos', requires=lambda c: [sub(c).ok(), c.pos >= 0], ensures=bt_ens, modifies={BND, 'pstackcell.current'},
                       loops=[Loop(bt_inv)], theory=lambda c: ins_theory()))
    cs.append(Contract('SubstBacktrack', requires=lambda c: [sub(c).ok()],
                       ensures=lambda c: [('len', sub(c).n == 0), ('undone', undone(c, IntVal(0))), ('count', c.ret == sub(c, True).n), ('frame', same_except(c, 'pstackcell.current', c.subst))],
                       modifies={BND, 'pstackcell.current'}, theory=lambda c: ins_theory(),
                       loops=[Loop(lambda c: [('len', And(sub(c).n >= 0, sub(c).n <= sub(c, True).n)), ('undone', undone(c, sub(c).n)), ('count', c.v('ret') == sub(c, True).n - sub(c).n),
                                              ('frame', same_except(c, 'pstackcell.current', c.subst))])]))

    # ---------------------------------------------------------------- the unification algorithm
    G0 = lambda c: And(RESP(c.o(BND)), VAL(c.t1) == VAL(c.t2))

    def added(c):
        """what the substitution gained: only unbound variables were bound, well-sorted, and all of them are on the stack"""
        S, S0, b, b0, T = sub(c), sub(c, True), c.m(BND), c.o(BND), HT(c.o)
        return [('ok', S.ok()), ('len', S.n >= S0.n), ('below', below(c, S0.n, S, S0)),
                ('trace', FA([x], Or(Select(b, x) == Select(b0, x),
                                     And(Select(b0, x) == 0, T.f(x) < 0, T.ty(x) == T.ty(Select(b, x)), INS(S.arr, S0.n, S.n, x))), Select(b, x), Select(b0, x))),
                ('new', FA([x], Implies(INS(S.arr, S0.n, S.n, x), Select(b0, x) == 0), INS(S.arr, S0.n, S.n, x))),
                ('acyclic', ACYC(b)), ('bindok', T.bindok(b))]

    def mgu_req(c):
        b, T = c.m(BND), HT(c.m)
        return [sub(c).ok(), okt(c.t1), okt(c.t2), ACYC(b), T.bindok(b)]
    predpos = lambda c, t: bit_predpos(c, t)

    def mgu_ens(c):
        b, b0, T = c.m(BND), c.o(BND), HT(c.o)
        S, S0 = sub(c), sub(c, True)
        pp = lambda t, u: And(flag(Select(c.o('termcell.properties'), t), 1 << PREDPOS(c)), T.f(u) < 0)
        return [('enum', z3.BoolVal(PREDPOS(c) is not None)),
                ('unifier', Implies(And(c.ret, RESP(b)), VAL(c.t1) == VAL(c.t2))),
                ('most general', Implies(And(c.ret, G0(c)), RESP(b))),
                ('complete', Implies(And(Not(c.ret), Not(pp(c.t1, c.t2)), Not(pp(c.t2, c.t1))), Not(G0(c)))),
                ('restored', Implies(Not(c.ret), And(S.n == S0.n, FA([x], Select(b, x) == Select(b0, x), Select(b, x)))))] + \
               [(l, Implies(c.ret, e)) for l, e in added(c)] + \
               [('frame.' + f, same_except(c, f, c.subst)) for f in sorted(Stk.F)]

    def jobs(c):
        return que(c, c.v('jobs'))

    def common(c):
        S, S0, Q = sub(c), sub(c, True), jobs(c)
        al = c.m(AL)
        return added(c) + [
            ('q', And(Q.ok(), Q.n % 2 == 0, Q.q != S.s, Q.p != S.s, Q.p != S.p, Q.q != S.p)),
            ('q.new', And(Select(c.o(AL), Q.q) != 1, Or(Select(c.o(AL), Q.p) != 1, Q.p == S0.p))),
            ('kept', alive_kept(c, S0.p)), ('s.new', Or(S.p == S0.p, Select(c.o(AL), S.p) != 1)),
            ('terms', FA([k], Implies(And(k >= 0, k < Q.n), Q.el(k) > 0), Q.el(k)))] + \
            [('frame.' + f, same_except(c, f, c.subst)) for f in sorted(Stk.F)]

    def outer(c):
        Q = jobs(c)
        # res is still true at the loop head
        return common(c) + [('equiv', G0(c) == And(RESP(c.m(BND)), JB(Q.arr, Q.size, Q.tail, Q.n))), ('res', c.v('res') if not z3.is_int(c.v('res')) else c.v('res') % 2 == 1)]

    def inner(c):
        Q, T = jobs(c), HT(c.o)
        t, u, i = c.v('t1'), c.v('t2'), c.v('i')
        return common(c) + [('t', And(okt(t), okt(u), T.f(t) > 0, T.f(t) == T.f(u), i >= -1, i < T.n(t))),
                            ('equiv', G0(c) == And(RESP(c.m(BND)), JB(Q.arr, Q.size, Q.tail, Q.n), AEQ(t, u, i + 1))),
                            ('bnd', c.m(BND) == c.e(BND))]
    cs.append(Contract('SubstComputeMgu', requires=mgu_req, ensures=mgu_ens, modifies={BND} | PFR | Que.F, frozen=TERM0, theory=lambda c: theory(c, False),
                       loops=[Loop(outer), Loop(inner)]))
    return cs


def PREDPOS(c):
    v = c.enums.get('TPPredPos')
    return None if not v or v & (v - 1) else v.bit_length() - 1
