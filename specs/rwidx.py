"""C10: the terms under which a clause is filed for backward rewriting are subterms of it that are no variables, and include its sides and their arguments.

That deeper subterms are not filed is a known finding (KNOWN_FINDINGS); the lower bound proved here is what the current code gives, and a repaired one gives more."""
from .lib import *

SOURCES = ['CLAUSES/ccl_subterm_index.c']
VERIFY = ['term_collect_idx_subterms', 'eqn_collect_idx_subterms', 'ClauseCollectIdxSubterms']
ASSUMES = ['PTreeStore adds its key to the tree and nothing else']
F, N, A = 'termcell.f_code', 'termcell.arity', 'termcell.args[]'
L, R, EP, NX, CL = 'eqncell.lterm', 'eqncell.rterm', 'eqncell.properties', 'eqncell.next', 'clause_cell.literals'
HAS = 'ghost:has[]'
PARAMS = {'PTreeStore': ['root', 'key'], 'TermIsDBClosed': ['term']}
SUB = Function('SUB', I, I, B)         # x is a subterm of t
BEL = Function('BEL', I, I, I, B)      # x is a subterm of one of the first k arguments of t
INL = Function('INL', I, I, B)
FULL = Function('FULL', I, I, B)       # x may be filed for full rewriting because of literal e; LEAST: has to be
REST = Function('REST', I, I, B)
LEAST = Function('LEAST', I, I, B)
t, x, i, e, k = Ints('t x i e k')


def theory(c):
    n, a = c.o(N), c.o(A)
    arg = Select(Select(a, t), k)
    return [FA([t, x], SUB(t, x) == Or(x == t, BEL(t, x, Select(n, t))), SUB(t, x)), FA([t, x], Not(BEL(t, x, 0)), BEL(t, x, IntVal(0))),
            FA([t, x, k], Implies(k >= 0, BEL(t, x, k + 1) == Or(BEL(t, x, k), SUB(arg, x))), (BEL(t, x, k), arg)),
            FA([t, k], Implies(And(k >= 0, k < Select(n, t)), arg > 0), arg), FA([t], And(Select(n, t) >= 0, Implies(Select(c.o(F), t) < 0, Select(n, t) == 0)), Select(n, t))]


def has(get, tree, x):
    return Select(Select(get(HAS), tree), x) == 1


def filed(c, least, most, rest):
    """the two trees hold what they held and the given terms"""
    f, r = c.full, c.rest
    pat = Select(Select(c.m(HAS), f), x)
    return [('full.least', FA([x], Implies(Or(has(c.o, f, x), least(x)), has(c.m, f, x)), pat)), ('full.most', FA([x], Implies(has(c.m, f, x), Or(has(c.o, f, x), most(x))), pat)),
            ('rest', FA([x], has(c.m, r, x) == Or(has(c.o, r, x), rest(x)), Select(Select(c.m(HAS), r), x))),
            ('frame', FA([t], Implies(And(t != f, t != r), Select(c.m(HAS), t) == Select(c.o(HAS), t)), Select(c.m(HAS), t)))]


def contracts():
    cs = []
    tb = lambda v: v if z3.is_bool(v) else v != 0
    cs.append(Contract('PTreeStore', trusted=True, ensures=lambda c: [c.m(HAS) == Store(c.o(HAS), c.root, Store(Select(c.o(HAS), c.root), c.key, 1))], modifies={HAS}))
    cs.append(Contract('TermIsDBClosed', trusted=True, ensures=lambda c: [tb(c.ret)]))
    nv = lambda c, x: Select(c.o(F), x) >= 0
    FZ = {F, N, A}
    base = lambda c: [c.rest > 0, c.full > 0, c.rest != c.full]

    arg1 = lambda c, tm, x, n: Exists([i], And(i >= 0, i < n, x == Select(Select(c.o(A), tm), i)))

    def spec(c, n):
        rs = tb(c.restricted)
        self_ = lambda x: And(x == c.term, Not(rs))
        return filed(c, lambda x: And(nv(c, x), Or(self_(x), And(Not(tb(c.lambda_demod)), arg1(c, c.term, x, n)))), lambda x: And(nv(c, x), Or(self_(x), BEL(c.term, x, n))), lambda x: And(rs, x == c.term, nv(c, x)))
    cs.append(Contract('term_collect_idx_subterms', requires=lambda c: base(c) + [c.term > 0], ensures=lambda c: spec(c, Select(c.o(N), c.term)), modifies={HAS}, frozen=FZ, theory=theory,
                       loops=[Loop(lambda c: [('i', And(c.v('i') >= 0, c.v('i') <= Select(c.o(N), c.term)))] + spec(c, c.v('i')))]))

    lim = lambda c, l: And(flag(Select(c.o(EP), l), 2), flag(Select(c.o(EP), l), 1), flag(Select(c.o(EP), l), 16))
    both = lambda c, l, P: Or(P(Select(c.o(L), l)), P(Select(c.o(R), l)))
    top = lambda c, l, x: Or(And(x == Select(c.o(L), l), Not(lim(c, l))), x == Select(c.o(R), l))
    fullx = lambda c, l, x: And(nv(c, x), Or(top(c, l, x), both(c, l, lambda tm: BEL(tm, x, Select(c.o(N), tm)))))
    fulll = lambda c, l, x: And(nv(c, x), Or(top(c, l, x), And(Not(tb(c.lambda_demod)), both(c, l, lambda tm: arg1(c, tm, x, Select(c.o(N), tm))))))
    restx = lambda c, l, x: And(lim(c, l), x == Select(c.o(L), l), nv(c, x))
    FZ2 = FZ | {L, R, EP, NX, CL}
    deft = lambda c: [FA([e, x], FULL(e, x) == fullx(c, e, x), FULL(e, x)), FA([e, x], LEAST(e, x) == fulll(c, e, x), LEAST(e, x)), FA([e, x], REST(e, x) == restx(c, e, x), REST(e, x))]
    cs.append(Contract('eqn_collect_idx_subterms', requires=lambda c: base(c) + [Select(c.m(L), c.eqn) > 0, Select(c.m(R), c.eqn) > 0], ensures=lambda c: filed(c, lambda x: LEAST(c.eqn, x), lambda x: FULL(c.eqn, x), lambda x: REST(c.eqn, x)), modifies={HAS}, frozen=FZ2, theory=deft))

    h0 = lambda c: Select(c.o(CL), c.clause)
    ltheory = lambda c: [FA([x, t], INL(x, t) == And(x != 0, Or(t == x, INL(Select(c.o(NX), x), t))), (INL(x, t), Select(c.o(NX), x))), FA([t], Not(INL(0, t)), INL(IntVal(0), t)), FA([x], Implies(x != 0, INL(x, x)), Select(c.o(NX), x))]

    def cl_loop(c):
        h = c.v('handle')
        return [('h', And(h >= 0, FA([t], Implies(INL(h, t), INL(h0(c), t)), INL(h, t))))] + filed(c, lambda x: Exists([e], And(INL(h0(c), e), Not(INL(h, e)), LEAST(e, x))), lambda x: Exists([e], And(INL(h0(c), e), Not(INL(h, e)), FULL(e, x))), lambda x: Exists([e], And(INL(h0(c), e), Not(INL(h, e)), REST(e, x))))
    nolit = lambda c: [FA([e], Implies(INL(h0(c), e), And(e > 0, Select(c.m(L), e) > 0, Select(c.m(R), e) > 0, Select(c.m(NX), e) >= 0, Not(INL(Select(c.m(NX), e), e)))), INL(h0(c), e))]
    cs.append(Contract('ClauseCollectIdxSubterms', requires=lambda c: base(c) + nolit(c) + [c.clause > 0, h0(c) >= 0], ensures=lambda c: filed(c, lambda x: Exists([e], And(INL(h0(c), e), LEAST(e, x))), lambda x: Exists([e], And(INL(h0(c), e), FULL(e, x))), lambda x: Exists([e], And(INL(h0(c), e), REST(e, x)))),
                       modifies={HAS}, frozen=FZ2, theory=ltheory, loops=[Loop(cl_loop)]))
    return cs
