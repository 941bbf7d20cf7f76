"""C12: the formula transformations of clausification preserve truth.

Formulas are cells of the term bank, which never change; allocation of a formula returns the one cell with the given
symbol and arguments (property C06), so the heap is read through immutable maps.  SEM(t) is the set of variable
assignments that satisfy t in an arbitrary fixed interpretation (an array from assignments to truth values); connectives
act pointwise, ALLV(x, v) is the quantifier, and every transformation is to return a formula with the same SEM."""
from .lib import *

SOURCES = ['CLAUSES/ccl_tcnf.c', 'CLAUSES/ccl_tformulae.c', 'TERMS/cte_signature.c']
VERIFY = ['TFormulaIsPropConst', 'tprop_arg_return', 'tprop_arg_return_other', 'TFormulaNegAlloc', 'EncodePredicateAsEqn', 'TFormulaVarIsFree', 'TFormulaSimplify', 'troot_nnf', 'TFormulaNNF',
          'TFormulaMiniScope', 'TFormulaDistributeDisjunctions', 'TFormulaNegate', 'tform_copy_mod', 'TFormulaQuantorAlloc', 'TFormulaAddQuantor']
ASSUMES = ['first order formulas: no lambda, let, if-then-else or Boolean variables in formula positions',
           'the signature was set up by SigInsertInternalCodes: the codes of the logical symbols are pairwise different and exactly the connectives carry FPFOFOp',
           'partial correctness: the transformations are not shown to terminate']

PARAMS = {'EqnTermsTBTermEncode': ['bank', 'lterm', 'rterm', 'positive', 'dir']}

Rho = z3.DeclareSort('Rho')
FV, TVS = z3.ArraySort(Rho, B), z3.ArraySort(Rho, I)
CODES = ('eqn', 'neqn', 'not', 'and', 'or', 'impl', 'equiv', 'nand', 'nor', 'bimpl', 'xor', 'qex', 'qall')
OPS = ('not', 'and', 'or', 'impl', 'equiv', 'nand', 'nor', 'bimpl', 'xor')
FLD = ('termcell.f_code', 'termcell.arity', 'termcell.args[]', 'termcell.type', 'termcell.v_count', 'termcell.weight', 'type_cell.f_code', 'funccell.properties', 'tbcell.sig',
       'tbcell.true_term', 'tbcell.false_term', 'sigcell.f_info', 'sigcell.answer_code', 'sigcell.type_bank') + tuple('sigcell.%s_code' % k for k in CODES)

SEM = Function('SEM', I, FV)
TV = Function('TVAL', I, TVS)
NOTV = Function('NOTV', FV, FV)
ANDV, ORV, IMPV, EQVV = (Function(n, FV, FV, FV) for n in ('ANDV', 'ORV', 'IMPV', 'EQVV'))
ALLV, EXV = Function('ALLV', I, FV, FV), Function('EXV', I, FV, FV)
SAME = Function('SAME', TVS, TVS, FV)
TT, FF = z3.Consts('TT FF', TVS)              # the values of $true and $false
TOP = z3.K(Rho, z3.BoolVal(True))
BOT = z3.K(Rho, z3.BoolVal(False))
FREE = Function('FREE', I, I, B)
FREEP = Function('FREEP', I, I, I, B)
INDEP = Function('INDEP', FV, I, B)
WFF, WFT = Function('WFF', I, B), Function('WFT', I, B)
VCT = Function('VCT', I, I)
upd = Function('upd', Rho, I, I, Rho)
look = Function('look', Rho, I, I)

_not = z3.Function
_p, _q = z3.Bools('p q')
NOTD, ANDD, ORD, IFFD = z3.Not(_p).decl(), z3.And(_p, _q).decl(), z3.Or(_p, _q).decl(), (_p == _q).decl()


class FT(Terms):
    def __init__(self, get):
        self.F, self.N, self.A = get('termcell.f_code'), get('termcell.arity'), get('termcell.args[]')


class Env:
    """the codes of the logical symbols of the bank at hand"""

    def __init__(self, c, bank=None, sig=None):
        self.sig = sig if sig is not None else Select(c.o('tbcell.sig'), bank)
        for k in CODES + ('answer',):
            setattr(self, k, Select(c.o('sigcell.%s_code' % k), self.sig))
        self.nott, self.andd, self.orr = getattr(self, 'not'), getattr(self, 'and'), getattr(self, 'or')
        self.info = Select(c.o('sigcell.f_info'), self.sig)
        self.props = c.o('funccell.properties')
        self.sz = c._ver.sizeof(('struct', 'struct.funccell'), c._ver.prog.mods[0])
        self.T = FT(c.o)
        self.c = c

    def isop(self, f):
        return Or([f == getattr(self, k) for k in OPS])

    def islog(self, f):
        return Or([f == getattr(self, k) for k in CODES])

    def quant(self, f):
        return Or(f == self.qex, f == self.qall)

    def bin(self, f):
        return Or([f == getattr(self, k) for k in OPS if k != 'not'])

    def lit(self, f):
        return Or(f == self.eqn, f == self.neqn)

    def ok(self):
        cs = [getattr(self, k) for k in CODES]
        return [z3.Distinct(cs), self.sig > 0] + [x > 21 if False else And(x > 2, x < 17) for x in cs] + [Not(Or([self.answer == x for x in cs])), self.answer > 2]


def codes_theory(E):
    t = Int('t')
    f = E.T.f(t)
    return [FA([t], flag(Select(E.props, E.info + f * E.sz), 4) == E.isop(f), f)]


def bool_theory():
    v, w = z3.Consts('v w', FV)
    s, t = z3.Consts('s t', TVS)
    r = z3.Const('r', Rho)
    return [FA([v], NOTV(v) == z3.Map(NOTD, v), NOTV(v)),
            FA([v, w], ANDV(v, w) == z3.Map(ANDD, v, w), ANDV(v, w)), FA([v, w], ORV(v, w) == z3.Map(ORD, v, w), ORV(v, w)),
            FA([v, w], IMPV(v, w) == z3.Map(ORD, z3.Map(NOTD, v), w), IMPV(v, w)), FA([v, w], EQVV(v, w) == z3.Map(IFFD, v, w), EQVV(v, w)),
            FA([s], SAME(s, s) == TOP, SAME(s, s)), SAME(FF, TT) == BOT]


def sem_theory(E):
    T = E.T
    t = Int('t')
    f, a, b = T.f(t), SEM(T.a(t, 0)), SEM(T.a(t, 1))
    pat = (SEM(t), T.f(t))
    D = lambda cond, val: FA([t], Implies(cond, SEM(t) == val), pat)
    return [D(f == E.nott, NOTV(a)), D(f == E.andd, ANDV(a, b)), D(f == E.orr, ORV(a, b)), D(f == E.impl, IMPV(a, b)), D(f == E.bimpl, IMPV(b, a)), D(f == E.equiv, EQVV(a, b)),
            D(f == E.xor, NOTV(EQVV(a, b))), D(f == E.nand, NOTV(ANDV(a, b))), D(f == E.nor, NOTV(ORV(a, b))),
            D(f == E.qall, ALLV(T.a(t, 0), b)), D(f == E.qex, EXV(T.a(t, 0), b)),
            D(f == E.eqn, SAME(TV(T.a(t, 0)), TV(T.a(t, 1)))), D(f == E.neqn, NOTV(SAME(TV(T.a(t, 0)), TV(T.a(t, 1))))),
            D(Not(E.islog(f)), SAME(TV(t), TT)),
            FA([t], And(Implies(f == 1, TV(t) == TT), Implies(f == 2, TV(t) == FF)), (TV(t), T.f(t)))]


def wff_theory(E):
    T = E.T
    t, i = Ints('t i')
    f = T.f(t)
    pat = (WFF(t), T.f(t))
    vc = E.c.o('termcell.v_count')
    ty, tyf = E.c.o('termcell.type'), E.c.o('type_cell.f_code')
    return [FA([t], Implies(WFF(t), And(t > 0, f > 0, f != 18, Select(tyf, Select(ty, t)) != 0, T.n(t) >= 0)), WFF(t)),
            FA([t], Implies(WFF(t), And(Implies(f == E.nott, And(T.n(t) == 1, WFF(T.a(t, 0)))),
                                        Implies(E.bin(f), And(T.n(t) == 2, WFF(T.a(t, 0)), WFF(T.a(t, 1)))),
                                        Implies(E.quant(f), And(T.n(t) == 2, T.a(t, 0) > 0, T.f(T.a(t, 0)) < 0, WFF(T.a(t, 1)))),
                                        Implies(E.lit(f), And(T.n(t) == 2, WFT(T.a(t, 0)), WFT(T.a(t, 1)))),
                                        Implies(Not(E.islog(f)), WFT(t)))), pat),
            # the cached number of variable occurrences (property C06) counts the bound variable
            FA([t], Implies(And(WFF(t), E.quant(f)), Select(vc, t) > 0), (WFF(t), T.f(t), Select(vc, t))),
            # terms below literals contain no logical symbols
            FA([t], Implies(WFT(t), And(t > 0, Not(E.islog(f)), f != 0, T.n(t) >= 0, Implies(f < 0, T.n(t) == 0))), WFT(t)),
            FA([t, i], Implies(And(WFT(t), i >= 0, i < T.n(t)), WFT(T.a(t, i))), (WFT(t), T.a(t, i)))]


def quant_theory():
    """identities of quantifiers, each a lemma"""
    x = Int('x')
    v, w = z3.Consts('v w', FV)
    return [FA([x, v], ALLV(x, NOTV(v)) == NOTV(EXV(x, v)), ALLV(x, NOTV(v))),
            FA([x, v], EXV(x, NOTV(v)) == NOTV(ALLV(x, v)), EXV(x, NOTV(v))),
            FA([x, v, w], ALLV(x, ANDV(v, w)) == ANDV(ALLV(x, v), ALLV(x, w)), ALLV(x, ANDV(v, w))),
            FA([x, v, w], EXV(x, ORV(v, w)) == ORV(EXV(x, v), EXV(x, w)), EXV(x, ORV(v, w))),
            FA([x, v, w], Implies(INDEP(v, x), And(ALLV(x, ORV(v, w)) == ORV(v, ALLV(x, w)))), ALLV(x, ORV(v, w))),
            FA([x, v, w], Implies(INDEP(w, x), And(ALLV(x, ORV(v, w)) == ORV(ALLV(x, v), w))), ALLV(x, ORV(v, w))),
            FA([x, v, w], Implies(INDEP(v, x), And(EXV(x, ANDV(v, w)) == ANDV(v, EXV(x, w)))), EXV(x, ANDV(v, w))),
            FA([x, v, w], Implies(INDEP(w, x), And(EXV(x, ANDV(v, w)) == ANDV(EXV(x, v), w))), EXV(x, ANDV(v, w))),
            FA([x, v], Implies(INDEP(v, x), And(ALLV(x, v) == v, EXV(x, v) == v)), ALLV(x, v), EXV(x, v))]


def free_defs(E):
    T = E.T
    t, x, k = Ints('t x k')
    f = T.f(t)
    pat = (FREE(t, x), T.f(t))
    return [FA([t, x], Implies(t == x, FREE(t, x)), pat),
            FA([t, x], Implies(And(t != x, E.quant(f)), FREE(t, x) == And(T.a(t, 0) != x, FREE(T.a(t, 1), x))), pat),
            FA([t, x], Implies(And(t != x, Not(E.quant(f))), FREE(t, x) == FREEP(t, x, T.n(t))), pat),
            FA([t, x], Not(FREEP(t, x, 0)), FREEP(t, x, IntVal(0)), (FREE(t, x), T.n(t))),
            FA([t, x, k], Implies(k >= 0, FREEP(t, x, k + 1) == Or(FREEP(t, x, k), FREE(T.a(t, k), x))), (FREEP(t, x, k), T.a(t, k)))]


def free_mono(E):
    T = E.T
    t, x, k = Ints('t x k')
    # lemma prefix: a variable that is free in the first k arguments is free
    return [FA([t, x, k], Implies(And(k >= 0, k <= T.n(t), FREEP(t, x, k)), FREEP(t, x, T.n(t))), FREEP(t, x, k))]


def free_theory(E):
    t, x = Ints('t x')
    vc = E.c.o('termcell.v_count')
    return free_defs(E) + free_mono(E) + [
        # lemma no_variables
        FA([t, x], Implies(And(Select(vc, t) == 0, E.T.f(x) < 0), Not(FREE(t, x))), (FREE(t, x), Select(vc, t)))]


def indep_theory(E):
    t, x = Ints('t x')
    # lemma independence
    return [FA([t, x], Implies(And(WFF(t), E.T.f(x) < 0, Not(FREE(t, x))), INDEP(SEM(t), x)), (FREE(t, x), SEM(t)))]


def E_(c):
    if c.has('bank'):
        return Env(c, c.bank)
    if c.has('terms'):
        return Env(c, c.terms)
    if c.has('bank_'):
        return Env(c, c.bank_)
    return Env(c, sig=c.sig)


def theory(c, quant=False, free=False):
    E = E_(c)
    out = codes_theory(E) + bool_theory() + sem_theory(E) + wff_theory(E)
    if quant:
        out += quant_theory()
    if free:
        out += indep_theory(E)
    return out


def q_theory(c):
    return theory(c, quant=True)


def f_theory(c):
    return theory(c, quant=True, free=True)


def contracts():
    cs = []
    x, t = Ints('x t')

    def base(c):
        E = E_(c)
        out = list(E.ok())
        if c.has('bank') or c.has('terms'):
            b = c.bank if c.has('bank') else c.terms
            out += [b > 0, E.T.f(Select(c.o('tbcell.true_term'), b)) == 1, E.T.f(Select(c.o('tbcell.false_term'), b)) == 2, WFF(Select(c.o('tbcell.true_term'), b)), WFT(Select(c.o('tbcell.true_term'), b))]
        return out

    def keeps(c, form):
        return [('meaning', SEM(c.ret) == SEM(form)), ('wff', WFF(c.ret))]

    # ---------------------------------------------------------------- allocation
    def alloc_req(c):
        E = E_(c)
        op, a, b = c.op, c.arg1, c.arg2
        return base(c) + [('shape', Or(And(op == E.nott, WFF(a)), And(E.bin(op), WFF(a), WFF(b)), And(E.quant(op), a > 0, E.T.f(a) < 0, WFF(b)), And(E.lit(op), WFT(a), WFT(b))))]

    def alloc_ens(c):
        E = E_(c)
        T = E.T
        return [T.f(c.ret) == c.op, T.n(c.ret) == If(c.op == E.nott, IntVal(1), IntVal(2)), T.a(c.ret, 0) == c.arg1, Implies(c.op != E.nott, T.a(c.ret, 1) == c.arg2), WFF(c.ret), SEM(c.ret) == SEM(c.ret)]
    cs.append(Contract('TFormulaFCodeAlloc', requires=alloc_req, ensures=alloc_ens, trusted=True, frozen=FLD,
                       doc='returns the shared formula cell with the given symbol and arguments and changes no existing cell (term bank, property C06)'))
    cs.append(Contract('TFormulaQuantorAlloc', requires=lambda c: base(c) + [('shape', And(E_(c).quant(c.quantor), c.var > 0, E_(c).T.f(c.var) < 0, WFF(c.arg('arg'))))],
                       ensures=lambda c: [('f', E_(c).T.f(c.ret) == c.quantor), ('n', E_(c).T.n(c.ret) == 2), ('a0', E_(c).T.a(c.ret, 0) == c.var), ('a1', E_(c).T.a(c.ret, 1) == c.arg('arg')),
                                          ('wff', WFF(c.ret))], frozen=FLD, theory=theory))

    def enc_ens(c):
        E = E_(c)
        T = E.T
        return [T.f(c.ret) == If(c.positive, E.eqn, E.neqn), T.n(c.ret) == 2, T.a(c.ret, 0) == c.lterm, T.a(c.ret, 1) == c.rterm, WFF(c.ret), SEM(c.ret) == SEM(c.ret)]
    cs.append(Contract('EqnTermsTBTermEncode', requires=lambda c: base(c) + [WFT(c.lterm), WFT(c.rterm), c.dir == c.enums.get('PENormal')], ensures=enc_ens, trusted=True, frozen=FLD,
                       doc='returns the shared cell of the literal (term bank, property C06)'))

    def pc_ens(c):
        E = E_(c)
        T = E.T
        return [T.f(c.ret) == If(c.positive, E.eqn, E.neqn), T.n(c.ret) == 2, T.f(T.a(c.ret, 0)) == 1, T.f(T.a(c.ret, 1)) == 1, WFF(c.ret), SEM(c.ret) == If(c.positive, TOP, BOT)]
    cs.append(Contract('TFormulaPropConstantAlloc', requires=base, ensures=pc_ens, trusted=True, frozen=FLD,
                       doc='returns the encoding $eq($true,$true) or $neq($true,$true) (built through a literal cell and the term bank)'))
    for n in ('SigInsertId',):
        cs.append(Contract(n, requires=lambda c: [z3.BoolVal(False)], trusted=True, doc='only called when the equality codes do not exist yet: shown unreachable'))

    # ---------------------------------------------------------------- constants
    cs.append(Contract('TFormulaIsPropConst', requires=lambda c: base(c) + [WFF(c.form)], frozen=FLD, theory=theory, ensures=lambda c: [
        ('true', Implies(And(c.ret, c.positive), SEM(c.form) == TOP)), ('false', Implies(And(c.ret, Not(c.positive)), SEM(c.form) == BOT))]))
    truth = lambda c: If(c.positive, TOP, BOT)
    cs.append(Contract('tprop_arg_return_other', requires=lambda c: base(c) + [WFF(c.arg1), WFF(c.arg2)], frozen=FLD, theory=theory, ensures=lambda c: [
        ('other', Implies(c.ret != 0, Or(And(c.ret == c.arg2, SEM(c.arg1) == truth(c)), And(c.ret == c.arg1, SEM(c.arg2) == truth(c)))))]))
    cs.append(Contract('tprop_arg_return', requires=lambda c: base(c) + [WFF(c.arg1), WFF(c.arg2)], frozen=FLD, theory=theory, ensures=lambda c: [
        ('it', Implies(c.ret != 0, And(Or(c.ret == c.arg1, c.ret == c.arg2), SEM(c.ret) == truth(c))))]))
    neg = lambda c: [('negated', SEM(c.ret) == NOTV(SEM(c.form))), ('wff', WFF(c.ret))]
    cs.append(Contract('TFormulaNegAlloc', requires=lambda c: base(c) + [WFF(c.form)], ensures=neg, frozen=FLD, theory=theory))
    cs.append(Contract('TFormulaNegate', requires=lambda c: base(c) + [WFF(c.form)], ensures=neg, frozen=FLD, theory=theory))
    cs.append(Contract('EncodePredicateAsEqn', requires=lambda c: base(c) + [WFF(c.f)], ensures=lambda c: keeps(c, c.f), frozen=FLD, theory=theory))

    # ---------------------------------------------------------------- free variables
    def vf_inv(c):
        E, i = E_(c), c.v('i')
        return [('i', And(i >= 0, i <= E.T.n(c.form))), ('none', And(Not(FREEP(c.form, c.var, i)), c.v('res') == 0))]
    cs.append(Contract('TFormulaVarIsFree', requires=lambda c: base(c) + [Or(WFF(c.form), WFT(c.form)), c.var > 0, E_(c).T.f(c.var) < 0], frozen=FLD,
                       theory=lambda c: wff_theory(E_(c)) + free_theory(E_(c)), ensures=lambda c: [('free', c.ret == FREE(c.form, c.var))], loops=[Loop(vf_inv)]))

    # ---------------------------------------------------------------- transformations
    pre = lambda c: base(c) + [WFF(c.form)]

    def simp_inv(c):
        out = [('wff', WFF(c.v('form'))), ('meaning', SEM(c.v('form')) == SEM(c.form))]
        if c.hasv('newform'):
            out.append(('done', Implies(c.v('modified') == 0, c.v('newform') == c.v('form'))))
        return out
    cs.append(Contract('TFormulaSimplify', requires=pre, ensures=lambda c: keeps(c, c.form), frozen=FLD, theory=f_theory, loops=[Loop(simp_inv)], ite=True))
    nn_inv = lambda c: [('wff', WFF(c.v('form'))), ('meaning', SEM(c.v('form')) == SEM(c.form))]
    pol = lambda c: pre(c) + [c.polarity >= -1, c.polarity <= 1]
    cs.append(Contract('troot_nnf', requires=pol, ensures=lambda c: keeps(c, c.form), frozen=FLD, theory=q_theory, loops=[Loop(nn_inv)]))
    cs.append(Contract('TFormulaNNF', requires=pol, ensures=lambda c: keeps(c, c.form), frozen=FLD, theory=q_theory, loops=[Loop(nn_inv)]))
    cs.append(Contract('TFormulaMiniScope', requires=pre, ensures=lambda c: keeps(c, c.form), frozen=FLD, theory=f_theory))
    cs.append(Contract('TFormulaDistributeDisjunctions', requires=pre, ensures=lambda c: keeps(c, c.form), frozen=FLD, theory=theory))
    BND = 'termcell.binding'

    def bok(c):
        b = c.o(BND)
        return FA([t], Implies(And(WFF(t), Select(b, t) != 0), And(WFF(Select(b, t)), SEM(Select(b, t)) == SEM(t))), Select(b, t))
    cs.append(Contract('tform_copy_mod', requires=lambda c: pre(c) + [('bindings', bok(c))], ensures=lambda c: keeps(c, c.form), frozen=FLD + (BND,), theory=theory))
    cs.append(Contract('TFormulaAddQuantor', requires=lambda c: pre(c) + [c.var > 0, E_(c).T.f(c.var) < 0], frozen=FLD, theory=theory,
                       ensures=lambda c: [('quantified', SEM(c.ret) == If(c.universal, ALLV(c.var, SEM(c.form)), EXV(c.var, SEM(c.form)))), ('wff', WFF(c.ret))]))
    return cs


def LEMMAS():
    T = FT(lambda k: z3.Const(k + '@L', z3.ArraySort(I, A1) if k.endswith('[]') else A1))
    x, y, d, e, k, t = z3.Ints('x0 y0 d0 e0 k0 t0')
    v, w = z3.Consts('v0 w0', FV)
    r = z3.Const('r0', Rho)
    qr, qs = z3.Consts('qr qs', Rho)
    qx, qy, qd, qe, qk, qt = Ints('qx qy qd qe qk qt')
    qv, qw = z3.Consts('qv qw', FV)
    s1, s2 = z3.Consts('qs1 qs2', TVS)
    updax = [FA([qr, qx, qd, qe], upd(upd(qr, qx, qd), qx, qe) == upd(qr, qx, qe), upd(upd(qr, qx, qd), qx, qe)),
             FA([qr, qx, qd, qy, qe], Implies(qx != qy, upd(upd(qr, qx, qd), qy, qe) == upd(upd(qr, qy, qe), qx, qd)), upd(upd(qr, qx, qd), qy, qe)),
             FA([qr, qx, qd, qy], look(upd(qr, qx, qd), qy) == If(qx == qy, qd, look(qr, qy)), look(upd(qr, qx, qd), qy))]
    aw, ew = Function('all_wit', I, FV, Rho, I), Function('ex_wit', I, FV, Rho, I)
    qdef = [FA([qx, qv, qr, qd], Implies(Select(ALLV(qx, qv), qr), Select(qv, upd(qr, qx, qd))), (Select(ALLV(qx, qv), qr), upd(qr, qx, qd))),
            FA([qx, qv, qr], Implies(Not(Select(ALLV(qx, qv), qr)), Not(Select(qv, upd(qr, qx, aw(qx, qv, qr))))), Select(ALLV(qx, qv), qr)),
            FA([qx, qv, qr, qd], Implies(Not(Select(EXV(qx, qv), qr)), Not(Select(qv, upd(qr, qx, qd)))), (Select(EXV(qx, qv), qr), upd(qr, qx, qd))),
            FA([qx, qv, qr], Implies(Select(EXV(qx, qv), qr), Select(qv, upd(qr, qx, ew(qx, qv, qr)))), Select(EXV(qx, qv), qr))]
    pw = [FA([qv, qr], Select(NOTV(qv), qr) == Not(Select(qv, qr)), Select(NOTV(qv), qr)),
          FA([qv, qw, qr], Select(ANDV(qv, qw), qr) == And(Select(qv, qr), Select(qw, qr)), Select(ANDV(qv, qw), qr)),
          FA([qv, qw, qr], Select(ORV(qv, qw), qr) == Or(Select(qv, qr), Select(qw, qr)), Select(ORV(qv, qw), qr)),
          FA([qv, qw, qr], Select(IMPV(qv, qw), qr) == Or(Not(Select(qv, qr)), Select(qw, qr)), Select(IMPV(qv, qw), qr)),
          FA([qv, qw, qr], Select(EQVV(qv, qw), qr) == (Select(qv, qr) == Select(qw, qr)), Select(EQVV(qv, qw), qr)),
          FA([s1, s2, qr], Select(SAME(s1, s2), qr) == (Select(s1, qr) == Select(s2, qr)), Select(SAME(s1, s2), qr)),
          FA([qr], And(Select(TT, qr) == 1, Select(FF, qr) == 0), Select(TT, qr), Select(FF, qr))]
    ind = FA([qv, qx, qr, qd], Implies(INDEP(qv, qx), Select(qv, upd(qr, qx, qd)) == Select(qv, qr)), (INDEP(qv, qx), upd(qr, qx, qd)))
    ax = pw + qdef + [ind]
    pt = lambda a, b: Select(a, r) == Select(b, r)
    see = Function('see', Rho, B)        # only mentions a term so that axioms are instantiated for it; free, hence without loss of generality true
    W = lambda *vs: And([see(upd(r, x, z)) for vv in vs for z in (aw(x, vv, r), ew(x, vv, r))])
    L = {}
    L['quantifiers'] = dict(axioms=ax, goals=[
        ('all.not', Implies(W(NOTV(v), v), pt(ALLV(x, NOTV(v)), NOTV(EXV(x, v))))), ('ex.not', Implies(W(NOTV(v), v), pt(EXV(x, NOTV(v)), NOTV(ALLV(x, v))))),
        ('all.and', Implies(W(ANDV(v, w), v, w), pt(ALLV(x, ANDV(v, w)), ANDV(ALLV(x, v), ALLV(x, w))))), ('ex.or', Implies(W(ORV(v, w), v, w), pt(EXV(x, ORV(v, w)), ORV(EXV(x, v), EXV(x, w))))),
        ('all.or.left', Implies(And(W(ORV(v, w), v, w), INDEP(v, x)), pt(ALLV(x, ORV(v, w)), ORV(v, ALLV(x, w))))), ('all.or.right', Implies(And(W(ORV(v, w), v, w), INDEP(w, x)), pt(ALLV(x, ORV(v, w)), ORV(ALLV(x, v), w)))),
        ('ex.and.left', Implies(And(W(ANDV(v, w), v, w), INDEP(v, x)), pt(EXV(x, ANDV(v, w)), ANDV(v, EXV(x, w))))), ('ex.and.right', Implies(And(W(ANDV(v, w), v, w), INDEP(w, x)), pt(EXV(x, ANDV(v, w)), ANDV(EXV(x, v), w)))),
        ('vacuous', Implies(And(W(v), INDEP(v, x)), And(pt(ALLV(x, v), v), pt(EXV(x, v), v))))])
    i2 = lambda u, z: FA([qr, qd], Select(u, upd(qr, z, qd)) == Select(u, qr), upd(qr, z, qd))
    r1 = upd(r, x, d)
    at = lambda u: Select(u, r1) == Select(u, r)
    near = lambda vv: And([And(see(upd(q, y, f(y, vv, q))), see(upd(upd(r, y, f(y, vv, q)), x, d)), see(upd(upd(r, x, d), y, f(y, vv, q))), see(upd(r, y, f(y, vv, q))))
                           for f in (aw, ew) for q in (r, r1)])
    same = lambda vv: And([And(see(upd(q, x, f(x, vv, q))), see(upd(r, x, f(x, vv, q))), see(upd(r1, x, f(x, vv, q))))
                           for f in (aw, ew) for q in (r, r1)])
    dep = FA([qr, qs], Or(Select(TV(t), qr) == Select(TV(t), qs), Exists([qk], And(qk >= 0, qk < T.n(t), Select(TV(T.a(t, qk)), qr) != Select(TV(T.a(t, qk)), qs)))), (Select(TV(t), qr), Select(TV(t), qs)))
    tind = FA([qk, qr, qd], Implies(And(qk >= 0, qk < T.n(t), Not(FREE(T.a(t, qk), x))), Select(TV(T.a(t, qk)), upd(qr, x, qd)) == Select(TV(T.a(t, qk)), qr)), (T.a(t, qk), upd(qr, x, qd)))
    fp = FA([qk], Implies(And(qk >= 0, qk < T.n(t), Not(FREEP(t, x, T.n(t)))), Not(FREE(T.a(t, qk), x))), T.a(t, qk))
    L['independence'] = dict(axioms=pw + qdef + updax, goals=[
        ('variable', Implies(And(t != x, FA([qr], Select(TV(t), qr) == look(qr, t), Select(TV(t), qr))), at(TV(t)))),
        ('application', Implies(And(dep, tind, fp, Not(FREEP(t, x, T.n(t)))), at(TV(t)))),
        ('atom', Implies(at(TV(t)), at(SAME(TV(t), TT)))), ('literal', Implies(And(at(TV(t)), at(TV(y))), And(at(SAME(TV(t), TV(y))), at(NOTV(SAME(TV(t), TV(y))))))),
        ('not', Implies(at(v), at(NOTV(v)))), ('binary', Implies(And(at(v), at(w)), And(at(ANDV(v, w)), at(ORV(v, w)), at(IMPV(v, w)), at(EQVV(v, w))))),
        ('bound', Implies(same(v), And(at(ALLV(x, v)), at(EXV(x, v))))),
        ('all', Implies(And(x != y, i2(v, x), near(v)), at(ALLV(y, v)))), ('ex', Implies(And(x != y, i2(v, x), near(v)), at(EXV(y, v))))])
    fd = [Not(FREEP(t, x, 0)), FA([qk], Implies(qk >= 0, FREEP(t, x, qk + 1) == Or(FREEP(t, x, qk), FREE(T.a(t, qk), x))), FREEP(t, x, qk), T.a(t, qk))]
    L['prefix'] = dict(axioms=fd, goals=[('step', Implies(And(k >= 0, k < T.n(t), FREEP(t, x, k)), FREEP(t, x, k + 1))),
                                         ('argument', Implies(And(k >= 0, k < T.n(t), FREE(T.a(t, k), x)), FREEP(t, x, k + 1)))])
    SV = Function('SV', I, I, I)
    cnt = [SV(t, 0) == 0, FA([qk], Implies(qk >= 0, SV(t, qk + 1) == SV(t, qk) + VCT(T.a(t, qk))), T.a(t, qk)), FA([qt], VCT(qt) >= 0, VCT(qt)), FA([qk], SV(t, qk) >= 0, SV(t, qk))]
    ih = FA([qk], Implies(And(qk >= 0, qk < T.n(t), VCT(T.a(t, qk)) == 0), Not(FREE(T.a(t, qk), x))), T.a(t, qk))
    zp = lambda k: Implies(SV(t, k) == 0, Not(FREEP(t, x, k)))
    L['no_variables'] = dict(axioms=fd + cnt + [ih], goals=[
        ('base', zp(IntVal(0))), ('step', Implies(And(k >= 0, k < T.n(t), zp(k), T.a(t, k) == T.a(t, k)), zp(k + 1))),
        ('quantifier', Implies(And(T.n(t) == 2, SV(t, 2) == 0, SV(t, 2) == SV(t, 1) + VCT(T.a(t, 1)), SV(t, 1) == VCT(T.a(t, 0))), Not(FREE(T.a(t, 1), x))))])
    L['equality'] = dict(axioms=pw, goals=[('same', Select(SAME(TV(t), TV(t)), r)), ('different', Not(Select(SAME(FF, TT), r)))])
    return L
