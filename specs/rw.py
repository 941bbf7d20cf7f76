"""C10: rewriting replaces terms by equal, smaller terms.

V is the value of a (shared) term in an arbitrary model of the demodulators (a model of their universal closures), under an arbitrary assignment.  GT is the term ordering.
INS(t, m) is the shared term that t instantiated with the bindings m denotes."""
from .lib import *
from .seq import same_except

SOURCES = ['CLAUSES/ccl_rewrite.c', 'TERMS/cte_replace.c']
VERIFY = ['TermAddRWLink', 'subst_complete_min_instance', 'instance_is_rule', 'term_follow_top_RW_chain', 'term_is_top_rewritable', 'term_is_rewritable', 'indexed_find_demodulator', 'rewrite_with_clause_set', 'rewrite_with_clause_set_list',
          'term_find_rw_clauses', 'term_subterm_rewrite', 'term_li_normalform', 'eqn_li_normalform', 'ClauseComputeLINormalform']
ASSUMES = ['terms are shared and TBTermTopInsert and TBInsertInstantiated deliver the cell of the term described (property C06)',
           'the ordering is monotone and stable under substitutions (properties C01, C02), and an equation marked oriented has a greater left side (C16)',
           'matching and substitutions as in C03 and C05; the demodulator index returns unit equations of the set one side of which matches (bounded stand-in)']
AL, SH, BS, ST = 'ghost:alive', 'ghost:shared', 'ghost:base[]', 'ghost:sought'
F, N, A, P, BN = 'termcell.f_code', 'termcell.arity', 'termcell.args[]', 'termcell.properties', 'termcell.binding'
RP, RD, NF = 'termcell.rw_data.rw_desc.f0', 'termcell.rw_data.rw_desc.f1', 'termcell.rw_data.nf_date[]'
L, R, EP = 'eqncell.lterm', 'eqncell.rterm', 'eqncell.properties'
CL, PL, PS, PC = 'clause_cell.literals', 'clauseposcell.literal', 'clauseposcell.side', 'clauseposcell.clause'
PARAMS = {'TOGreater': ['ocb', 's', 't', 'deref_s', 'deref_t'], 'SubstComputeMatch': ['matcher', 'to_match', 'subst'], 'TBInsertInstantiated': ['bank', 'term'], 'TBTermTopInsert': ['bank', 't'],
          'TermTopCopyWithoutArgs': ['source'], 'TermTopFree': ['junk'], 'SubstDelete': ['junk'], 'SubstAddBinding': ['subst', 'var', 'bind'], 'PDTreeSearchInit': ['tree', 'term', 'age', 'prefer'],
          'PDTreeFindNextDemodulator': ['tree', 'subst'], 'SubstBacktrack': ['subst']}
V = Function('V', I, I)
GT = Function('GT', I, I, B)
INST = Function('INST', I, A1, I)
COV = Function('COV', I, A1, B)
EXT = Function('EXT', A1, A1, B)
DEM = Function('DEM', I, B)      # a literal that is a demodulator
LEFT, RIGHT = 1, 2
t, x, i, e = Ints('t x i e')
m, m2 = z3.Consts('m m2', A1)
HEAP = {F, N, A, P, RP, RD, NF, SH, AL}


class Tm:
    def __init__(self, get):
        self.g = get

    def __getattr__(self, k):
        return self.g({'f': F, 'n': N, 'a': A, 'p': P, 'rp': RP, 'sh': SH, 'al': AL, 'l': L, 'r': R, 'ep': EP, 'bn': BN}[k])


def link(T, t):
    return Implies(And(Select(T.sh, t) == 1, flag(Select(T.p, t), 4096)), And(Select(T.rp, t) > 0, Select(T.sh, Select(T.rp, t)) == 1, V(Select(T.rp, t)) == V(t), GT(t, Select(T.rp, t))))


def links(T):
    """the link of a term marked rewritten leads to an equal, smaller term"""
    return FA([t], link(T, t), Select(T.rp, t))


def shared(T):
    a = Select(Select(T.a, t), i)
    return And(FA([t, i], Implies(And(Select(T.sh, t) == 1, i >= 0, i < Select(T.n, t)), And(a > 0, Select(T.sh, a) == 1)), a), FA([t], Implies(Select(T.sh, t) == 1, And(t > 0, Select(T.al, t) == 1, Select(T.n, t) >= 0)), Select(T.sh, t)))


def demods(T):
    """demodulators hold in the model, and their terms are shared"""
    il, ir = INST(Select(T.l, e), m), INST(Select(T.r, e), m)
    return And(FA([e, m], Implies(DEM(e), V(il) == V(ir)), (DEM(e), il), (DEM(e), ir)), FA([e, m], Implies(And(DEM(e), flag(Select(T.ep, e), 16)), GT(il, ir)), (DEM(e), il)))


def inv(T):
    return [('links', links(T)), ('shared', shared(T)), ('demods', demods(T))]


def keep(c, but=()):
    """cells that were alive keep their structure; shared terms stay shared"""
    return [('kept.' + k.split('.')[-1].split(':')[-1], FA([x], Implies(And([Select(c.o(AL), x) == 1] + [x != b for b in but]), Select(c.m(k), x) == Select(c.o(k), x)), Select(c.m(k), x))) for k in (F, N, A, AL)] + \
        [('kept.shared', FA([x], Implies(Select(c.o(SH), x) == 1, Select(c.m(SH), x) == 1), Select(c.m(SH), x))), ('unshared', FA([x], Implies(And(Select(c.o(AL), x) == 1, Select(c.o(SH), x) != 1), Select(c.m(SH), x) != 1), Select(c.m(SH), x)))]


def good(c, old, new):
    return [('value', V(new) == V(old)), ('smaller', Or(new == old, GT(old, new))), ('is.shared', Select(c.m(SH), new) == 1), ('is.term', new > 0)]


def gt_theory(c):
    y, z = Ints('y z')
    return [FA([x, y, z], Implies(And(GT(x, y), GT(y, z)), GT(x, z)), (GT(x, y), GT(y, z)))]


def ext_theory(c):
    return [FA([m, m2], EXT(m, m2) == FA([x], Implies(Select(m, x) != 0, Select(m2, x) == Select(m, x)), Select(m2, x)), EXT(m, m2)),
            FA([m, m2, t], Implies(And(EXT(m, m2), COV(t, m)), And(COV(t, m2), INST(t, m2) == INST(t, m))), (EXT(m, m2), COV(t, m)))]


def tb(v):
    return v if z3.is_bool(v) else v != 0


def contracts():
    cs = []
    triv = lambda n, **kw: cs.append(Contract(n, trusted=True, **kw))
    FO = lambda c: [c.m('g:problemType') != c.enums['PROBLEM_HO']]
    ONCE = 1
    # --- assumed
    triv('PStackAlloc', ensures=lambda c: [c.ret > 0, Select(c.m(BS), c.ret) == c.o(BN), same_except(c, BS, c.ret)], modifies={BS})
    triv('SubstDelete', ensures=lambda c: [c.m(BN) == Select(c.o(BS), c.junk)], modifies={BN})
    triv('SubstBacktrack', ensures=lambda c: [c.m(BN) == Select(c.o(BS), c.subst), c.ret >= 0], modifies={BN})
    triv('SubstAddBinding', requires=lambda c: [Select(c.m(BN), c.var) == 0, c.bind > 0], ensures=lambda c: [c.m(BN) == Store(c.o(BN), c.var, c.bind)], modifies={BN})
    LS = lambda T: [('links', links(T)), ('shared', shared(T))]
    lsr = lambda c: [g for _, g in LS(Tm(c.m))]
    triv('OCBFindMinConst')
    triv('TBCreateMinTerm', requires=lsr, ensures=lambda c: [c.ret > 0, Select(c.m(SH), c.ret) == 1] + lsr(c) + [g for _, g in keep(c)], modifies=HEAP)
    triv('PStackVarAlloc', ensures=lambda c: [c.ret > 0])
    triv('SubstIsRenaming')
    triv('PStackFree')
    triv('TermHasUnboundVariables')
    triv('TermIsDBClosed')
    triv('SubstComputeMatch', ensures=lambda c: [Implies(tb(c.ret), And(INST(c.matcher, c.m(BN)) == c.to_match, COV(c.matcher, c.m(BN)))), Implies(Not(tb(c.ret)), c.m(BN) == c.o(BN))], modifies={BN})
    triv('TOGreater', requires=lambda c: [c.deref_s == ONCE, c.deref_t == ONCE], ensures=lambda c: [Implies(tb(c.ret), GT(INST(c.s, c.o(BN)), INST(c.t, c.o(BN))))])

    def ins_ens(c):
        T, O = Tm(c.m), Tm(c.o)
        return [c.ret == INST(c.term, c.o(BN)), c.ret > 0, Select(T.sh, c.ret) == 1, links(T), shared(T)] + [g for _, g in keep(c)]
    triv('TBInsertInstantiated', requires=lsr, ensures=ins_ens, modifies=HEAP)
    triv('TermTopCopyWithoutArgs', ensures=lambda c: [c.ret > 0, Select(c.o(AL), c.ret) != 1, c.m(AL) == Store(c.o(AL), c.ret, 1), c.m(F) == Store(c.o(F), c.ret, Select(c.o(F), c.source)),
                                                      c.m(N) == Store(c.o(N), c.ret, Select(c.o(N), c.source))] + [same_except(c, k, c.ret) for k in (A, P, RP, RD, NF)], modifies=HEAP - {SH})
    triv('TermTopFree', requires=lambda c: [Select(c.m(SH), c.junk) != 1], ensures=lambda c: [c.m(AL) == Store(c.o(AL), c.junk, 0)], modifies={AL})

    def top_req(c):
        T = Tm(c.m)
        a = Select(Select(T.a, c.t), i)
        return lsr(c) + [Select(T.al, c.t) == 1, Select(T.sh, c.t) != 1, FA([i], Implies(And(i >= 0, i < Select(T.n, c.t)), And(a > 0, Select(T.sh, a) == 1)), a)]

    def top_ens(c):
        """the shared cell for this symbol and these arguments; its value is congruent, and the ordering monotone"""
        T, O = Tm(c.m), Tm(c.o)
        r = c.ret
        a, b = Select(Select(O.a, x), i), Select(Select(O.a, c.t), i)
        same = And(Select(O.sh, x) == 1, Select(O.f, x) == Select(O.f, c.t), Select(O.n, x) == Select(O.n, c.t))
        rng_ = And(i >= 0, i < Select(O.n, x))
        return [r > 0, Select(T.sh, r) == 1, links(T), shared(T), FA([x], Implies(And(same, FA([i], Implies(rng_, V(a) == V(b)), a)), V(x) == V(r)), V(x)),
                FA([x], Implies(And(same, FA([i], Implies(rng_, Or(a == b, GT(a, b))), a), Exists([i], And(rng_, a != b))), And(GT(x, r), x != r)), GT(x, r))] + [g for _, g in keep(c, (c.t,))]
    triv('TBTermTopInsert', requires=top_req, ensures=top_ens, modifies=HEAP)
    triv('PDTreeSearchInit', ensures=lambda c: [c.m(ST) == Store(c.o(ST), c.tree, c.term)], modifies={ST})
    triv('PDTreeSearchExit')
    other = lambda c, p, get: If(Select(get(PS), p) == LEFT, Select(get(R), Select(get(PL), p)), Select(get(L), Select(get(PL), p)))
    mine = lambda c, p, get: If(Select(get(PS), p) == LEFT, Select(get(L), Select(get(PL), p)), Select(get(R), Select(get(PL), p)))

    def found(c):
        p = c.ret
        return [c.ret >= 0, Implies(p != 0, And(DEM(Select(c.m(PL), p)), Or(Select(c.m(PS), p) == LEFT, And(Select(c.m(PS), p) == RIGHT, Not(flag(Select(c.m(EP), Select(c.m(PL), p)), 16)))),
                                                INST(mine(c, p, c.m), c.m(BN)) == Select(c.o(ST), c.tree), COV(mine(c, p, c.m), c.m(BN))))]
    triv('PDTreeFindNextDemodulator', ensures=found, modifies={BN})

    # --- under contract
    def add_ens(c):
        T = Tm(c.m)
        return [('links', links(T)), ('frame.p', same_except(c, P, c.term)), ('frame.r', same_except(c, RP, c.term)), ('frame.d', same_except(c, RD, c.term)), ('repl', Select(c.m(RP), c.term) == c.replace), ('demod', Select(c.m(RD), c.term) == c.demod), ('flag', flag(Select(c.m(P), c.term), 4096))]
    cs.append(Contract('TermAddRWLink', requires=lambda c: [links(Tm(c.m)), c.term > 0, c.replace > 0, c.term != c.replace, Implies(Select(c.m(SH), c.term) == 1, And(Select(c.m(SH), c.replace) == 1, V(c.term) == V(c.replace), GT(c.term, c.replace)))],
                       ensures=add_ens, modifies={P, RP, RD}))
    cs.append(Contract('subst_complete_min_instance', requires=lambda c: lsr(c) + [Select(c.m(SH), c.term) == 1, c.term > 0], ensures=lambda c: [('ext', EXT(c.o(BN), c.m(BN)))] + LS(Tm(c.m)) + keep(c), modifies={BN} | HEAP, theory=lambda c: ext_theory(c)[:1],
                       loops=[Loop(lambda c: [('ext', EXT(c.o(BN), c.m(BN))), ('i', c.v('i') >= 0)] + LS(Tm(c.m)) + keep(c))]))

    def rule_ens(c):
        r = tb(c.ret)
        return [('greater', Implies(And(r, COV(c.lside, c.o(BN))), And(GT(INST(c.lside, c.o(BN)), INST(c.rside, c.m(BN))), INST(c.lside, c.m(BN)) == INST(c.lside, c.o(BN)), COV(c.lside, c.m(BN)))))]
    refl = lambda c: [EXT(c.o(BN), c.o(BN))]
    cs.append(Contract('instance_is_rule', requires=lambda c: lsr(c) + [Select(c.m(SH), c.rside) == 1, c.rside > 0], ensures=lambda c: rule_ens(c) + LS(Tm(c.m)) + keep(c), modifies={BN, 'g:RewriteUnboundVarFails'} | HEAP, theory=lambda c: ext_theory(c)[1:] + refl(c)))
    cs.append(Contract('term_follow_top_RW_chain', requires=lambda c: [links(Tm(c.m)), Select(c.m(SH), c.term) == 1, c.term > 0], ensures=lambda c: good(c, c.term, c.ret), theory=gt_theory, modifies={'rw_desc_cell.sos_rewritten'},
                       loops=[Loop(lambda c: good(c, c.term, c.v('term')))]))
    sides = lambda c, e: [Select(c.m(L), e) > 0, Select(c.m(R), e) > 0]

    def fd_ens(c):
        p = c.ret
        l = Select(c.m(PL), p)
        return [('match', Implies(p != 0, And(DEM(l), INST(mine(c, p, c.m), c.m(BN)) == c.term))), ('smaller', Implies(p != 0, GT(c.term, INST(other(c, p, c.m), c.m(BN))))), ('ptr', p >= 0)]
    fd_inv = lambda c: [('term', Select(c.m(ST), Select(c.o('clausesetcell.demod_index'), c.demodulators)) == c.term), ('res', c.v('res') == 0)] + LS(Tm(c.m)) + keep(c)
    lits = lambda c: [FA([e], Implies(DEM(e), And(Select(c.m(L), e) > 0, Select(c.m(R), e) > 0, Select(c.m(SH), Select(c.m(L), e)) == 1, Select(c.m(SH), Select(c.m(R), e)) == 1)), DEM(e))]
    cs.append(Contract('indexed_find_demodulator', requires=lambda c: lsr(c) + [demods(Tm(c.m)), c.term > 0, c.demodulators > 0] + lits(c), ensures=lambda c: fd_ens(c) + LS(Tm(c.m)) + keep(c), modifies=HEAP | {BN, ST, 'g:RewriteAttempts', 'g:RewriteUnboundVarFails'}, 
                       loops=[Loop(fd_inv), Loop(fd_inv)]))
    st0 = lambda c, tm: [g for _, g in inv(Tm(c.m))] + [Select(c.m(SH), tm) == 1, tm > 0] + lits(c) + FO(c)
    out = lambda c, old, new: good(c, old, new) + [x for x in inv(Tm(c.m)) if x[0] != 'demods'] + keep(c)
    FZ = {'g:problemType'}
    CNT = {'g:RewriteAttempts', 'g:RewriteUnboundVarFails', 'g:RewriteSuccesses', 'g:RewriteUncached'}
    RWM = HEAP | {BN, BS, ST} | CNT
    bind = lambda c: [('bindings', c.m(BN) == c.o(BN))]
    cs.append(Contract('rewrite_with_clause_set', requires=lambda c: st0(c, c.term) + [c.demodulators > 0], ensures=lambda c: out(c, c.term, c.ret) + bind(c), modifies=RWM, frozen=FZ))
    cs.append(Contract('rewrite_with_clause_set_list', requires=lambda c: st0(c, c.term) + [FA([i], Select(Select(c.m('elem:w64'), c.demodulators), i) > 0, Select(Select(c.m('elem:w64'), c.demodulators), i))], ensures=lambda c: out(c, c.term, c.ret) + bind(c),
                       modifies=RWM, frozen=FZ, loops=[Loop(lambda c: out(c, c.term, c.v('res')) + bind(c) + [('same', c.v('res') == c.term)])]))
    dsc = lambda c: [FA([i], Select(Select(c.m('elem:w64'), Select(c.m('rw_desc_cell.demods'), c.desc)), i) > 0, Select(Select(c.m('elem:w64'), Select(c.m('rw_desc_cell.demods'), c.desc)), i))]
    LIM = RWM | {'rw_desc_cell.sos_rewritten'}
    FZ2 = FZ

    def sub_inv(c):
        o, nt, T, k = c.ocell('term'), c.v('new_term'), Tm(c.m), c.v('i')
        a, b = Select(Select(c.o(A), o), i), Select(Select(T.a, nt), i)
        mod = tb(c.v('modified'))
        return [('i', And(k >= 0, k <= Select(c.o(N), o))), ('term', c.cell('term') == o), ('new', And(nt > 0, Select(c.o(AL), nt) != 1, Select(T.al, nt) == 1, Select(T.sh, nt) != 1, Select(T.f, nt) == Select(c.o(F), o), Select(T.n, nt) == Select(c.o(N), o))),
                ('args', FA([i], Implies(And(i >= 0, i < k), And(b > 0, Select(T.sh, b) == 1, V(a) == V(b), Or(a == b, GT(a, b)))), b)),
                ('modified', If(mod, Exists([i], And(i >= 0, i < k, a != b)), FA([i], Implies(And(i >= 0, i < k), a == b), b)))] + [x for x in inv(T) if x[0] != 'demods'] + keep(c) + bind(c)

    cs.append(Contract('term_subterm_rewrite', requires=lambda c: st0(c, c.cell('term')) + dsc(c), ensures=lambda c: out(c, c.ocell('term'), c.cell('term')) + bind(c) + [('changed', tb(c.ret) == (c.cell('term') != c.ocell('term')))],
                       cells={'term': PTR}, cell_mod={'term'}, modifies=LIM, frozen=FZ2, loops=[Loop(sub_inv)]))
    cs.append(Contract('term_li_normalform', requires=lambda c: st0(c, c.term) + dsc(c), ensures=lambda c: out(c, c.term, c.ret) + bind(c), modifies=LIM, frozen=FZ2, theory=gt_theory,
                       loops=[Loop(lambda c: out(c, c.term, c.v('term')) + bind(c))]))

    # --- backward: marking a term as rewritable with a new demodulator links it to an equal, smaller term
    def tr_req(c):
        l = Select(c.m(CL), c.new_demod)
        return st0(c, c.term) + [DEM(l), l > 0]

    def tr_ens(c):
        return [x for x in inv(Tm(c.m)) if x[0] != 'demods'] + keep(c) + bind(c)
    cs.append(Contract('term_is_top_rewritable', requires=tr_req, ensures=tr_ens, modifies=RWM | {'g:BWRWMatchAttempts', 'g:BWRWMatchSuccesses'}, frozen=FZ))
    cs.append(Contract('term_is_rewritable', requires=tr_req, ensures=tr_ens, modifies=RWM | {'g:BWRWMatchAttempts', 'g:BWRWMatchSuccesses'}, frozen=FZ, loops=[Loop(lambda c: tr_ens(c) + [('i', c.v('i') >= 0)])]))

    triv('clause_tree_push')

    def fr_req(c):
        l, tm = Select(c.m(CL), c.demod), Select(c.m('subterm_occ_cell.term'), c.termocc)
        return st0(c, tm) + [DEM(l), l > 0, Or(And(c.lterm == Select(c.m(L), l), c.rterm == Select(c.m(R), l)), And(c.rterm == Select(c.m(L), l), c.lterm == Select(c.m(R), l), Not(tb(c.oriented)))), Implies(tb(c.oriented), flag(Select(c.m(EP), l), 16))]
    cs.append(Contract('term_find_rw_clauses', requires=fr_req, ensures=tr_ens, modifies=RWM | {'g:BWRWMatchAttempts', 'g:BWRWMatchSuccesses'}, frozen=FZ))

    # --- literals
    lit = lambda c: Select(c.o(PL), c.pos)

    def eq_req(c):
        l = lit(c)
        return st0(c, Select(c.m(L), l)) + [Select(c.m(SH), Select(c.m(R), l)) == 1, Select(c.m(R), l) > 0, l > 0, c.pos > 0, Not(DEM(l))] + dsc(c)

    def eq_ens(c):
        l = lit(c)
        out_ = []
        for nm, k in (('left', L), ('right', R)):
            o, n = Select(c.o(k), l), Select(c.m(k), l)
            out_ += [(nm + '.value', V(n) == V(o)), (nm + '.smaller', Or(n == o, GT(o, n))), (nm + '.frame', same_except(c, k, l)), (nm + '.term', And(n > 0, Select(c.m(SH), n) == 1))]
        return out_ + [('sign', flag(Select(c.m(EP), l), 1) == flag(Select(c.o(EP), l), 1)), ('props', same_except(c, EP, l))] + [x for x in inv(Tm(c.m)) if x[0] != 'demods'] + keep(c) + bind(c)
    triv('TermComputeRWSequence')
    triv('DocClauseRewrite')
    cs.append(Contract('eqn_li_normalform', requires=eq_req, ensures=eq_ens, modifies=LIM | {L, R, EP, PS, 'clause_cell.derivation'}, frozen=FZ))

    # --- clauses
    INL = Function('INL', I, I, B)
    NX = 'eqncell.next'
    h0 = lambda c: Select(c.o(CL), c.clause)
    ltheory = lambda c: [FA([x, t], INL(x, t) == And(x != 0, Or(t == x, INL(Select(c.o(NX), x), t))), (INL(x, t), Select(c.o(NX), x))), FA([t], Not(INL(0, t)), INL(IntVal(0), t)), FA([x], Implies(x != 0, INL(x, x)), Select(c.o(NX), x)),
                         FA([x, t], Implies(And(INL(x, t), t != 0, Select(c.o(NX), t) != 0), INL(x, Select(c.o(NX), t))), (INL(x, t), Select(c.o(NX), t))), Implies(h0(c) != 0, INL(h0(c), h0(c)))]
    lok = lambda c, T: FA([e], Implies(INL(h0(c), e), And(e > 0, Not(DEM(e)), Select(T.l, e) > 0, Select(T.r, e) > 0, Select(T.sh, Select(T.l, e)) == 1, Select(T.sh, Select(T.r, e)) == 1)), INL(h0(c), e))

    def cl_lits(c):
        return [('terms', lok(c, Tm(c.m))), ('lits', FA([e], Implies(INL(h0(c), e), And([And(V(Select(c.m(k), e)) == V(Select(c.o(k), e)), Or(Select(c.m(k), e) == Select(c.o(k), e), GT(Select(c.o(k), e), Select(c.m(k), e)))) for k in (L, R)] + [flag(Select(c.m(EP), e), 1) == flag(Select(c.o(EP), e), 1)])), INL(h0(c), e))),
                ('others', FA([e], Implies(Not(INL(h0(c), e)), And([Select(c.m(k), e) == Select(c.o(k), e) for k in (L, R, EP)])), INL(h0(c), e)))] + [x for x in inv(Tm(c.m))] + keep(c) + bind(c) + [('demodterms', lits(c)[0])]
    triv('rw_desc_cell_alloc', requires=lambda c: [c.demodulators > 0], ensures=lambda c: [c.ret > 0, Select(c.m('rw_desc_cell.demods'), c.ret) == c.demodulators, same_except(c, 'rw_desc_cell.demods', c.ret)], modifies={'rw_desc_cell.demods', 'rw_desc_cell.ocb', 'rw_desc_cell.bank', 'rw_desc_cell.level', 'rw_desc_cell.demod_date', 'rw_desc_cell.prefer_general', 'rw_desc_cell.sos_rewritten'})
    cs.append(Contract('ClauseComputeLINormalform', requires=lambda c: [g for _, g in inv(Tm(c.m))] + lits(c) + FO(c) + [c.clause > 0, h0(c) >= 0, lok(c, Tm(c.m)), c.demodulators > 0, FA([i], Select(Select(c.m('elem:w64'), c.demodulators), i) > 0, Select(Select(c.m('elem:w64'), c.demodulators), i))], ensures=cl_lits,
                       modifies=LIM | {L, R, EP, PS, PL, PC, 'g:free_mem_list', 'memcell.next', 'clause_cell.derivation', 'clause_cell.properties', 'rw_desc_cell.demods', 'rw_desc_cell.ocb', 'rw_desc_cell.bank', 'rw_desc_cell.level', 'rw_desc_cell.demod_date', 'rw_desc_cell.prefer_general'}, frozen=FZ | {CL, NX}, theory=lambda c: ltheory(c) + gt_theory(c),
                       loops=[Loop(lambda c: cl_lits(c)), Loop(lambda c: cl_lits(c) + [('at', And(c.v('handle') >= 0, Implies(c.v('handle') != 0, INL(h0(c), c.v('handle')))))])]))
    return cs
