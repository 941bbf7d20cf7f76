"""shared spec vocabulary"""
import sys
import z3
from z3 import And, Or, Not, Implies, If, ForAll, Exists, Select, Store, Function, Int, Ints, IntSort, BoolSort, IntVal
from ecv.engine import Contract, Loop, flag, anyflag, bit, SpecError, Addr, fresh, UNTAG4, TAG4, AL8

I, B = IntSort(), BoolSort()
A1 = z3.ArraySort(I, I)
TERM = ('termcell.f_code', 'termcell.arity', 'termcell.args[]', 'termcell.binding')
W64 = ('i', 64)
I32 = ('i', 32)
PTR = ('ptr',)

UNC, EQ, GT, LT = 1, 2, 3, 4     # CompareResult, checked against the debug info by enum_guard


def enum_guard(c, **kw):
    """the enum values the spec relies on"""
    out = []
    for k, v in kw.items():
        out.append(("enum.%s" % k, z3.BoolVal(c.enums.get(k) == v)))
    return out


def FA(vs, body, *pats):
    ps = []
    for p in pats:
        ps.append(z3.MultiPattern(*p) if isinstance(p, (tuple, list)) else p)
    f = sys._getframe(1)
    return ForAll(vs, body, patterns=ps, qid='%s_%d' % (f.f_code.co_name.strip('<>'), f.f_lineno))


# ------------------------------------------------------------------ terms
class Terms:
    """term accessors over a state"""

    def __init__(self, get):
        self.F, self.N, self.A, self.Bn = get('termcell.f_code'), get('termcell.arity'), get('termcell.args[]'), get('termcell.binding')

    def f(self, t):
        return Select(self.F, t)

    def n(self, t):
        return Select(self.N, t)

    def a(self, t, i):
        return Select(Select(self.A, t), i)

    def b(self, t):
        return Select(self.Bn, t)


DT = Function('DT', I, I, I)      # the node that (term, deref mode) denotes
DD = Function('DD', I, I, I)      # deref mode left over for its arguments


def deref_theory(T):
    t, d = Ints('t d')
    can = And(d != 0, T.b(t) != 0)
    nd = If(d == 2, d, d - 1)
    return [
        FA([t, d], Implies(can, And(DT(t, d) == DT(T.b(t), nd), DD(t, d) == DD(T.b(t), nd))), (DT(t, d), T.b(t))),
        FA([t, d], Implies(Not(can), And(DT(t, d) == t, DD(t, d) == d)), (DT(t, d), T.b(t))),
        # consequences by induction on the binding chain (lemma deref_idem)
        FA([t, d], And(Or(DD(t, d) == 0, T.b(DT(t, d)) == 0),
                       Implies(d >= 0, And(DD(t, d) >= 0, DD(t, d) <= d))), DT(t, d)),
    ]


def deref_lemma(T):
    """third fact of deref_theory, by induction on the (finite) binding chain"""
    t, d = z3.Ints('t0 d0')
    ok = lambda t, d: And(Or(DD(t, d) == 0, T.b(DT(t, d)) == 0), Implies(d >= 0, And(DD(t, d) >= 0, DD(t, d) <= d)))
    can = And(d != 0, T.b(t) != 0)
    nd = If(d == 2, d, d - 1)
    return dict(axioms=deref_theory(T)[:2], goals=[('unbound', Implies(Not(can), ok(t, d))), ('bound', Implies(And(can, d <= 2, ok(T.b(t), nd)), ok(t, d)))])


def wf_terms(T):
    """data structure invariant of first order terms"""
    s, t, i = Ints('s t i')
    return [
        FA([t], And(T.n(t) >= 0, T.f(t) != 0, Implies(T.f(t) < 0, T.n(t) == 0)), T.n(t)),
        # the arity is a function of the symbol
        FA([t], T.n(t) == z3.Function('sigarity', I, I)(T.f(t)), T.n(t)),
        # term cells are allocated blocks: 8-aligned, not null
        FA([t, i], Implies(And(i >= 0, i < T.n(t)), And(T.a(t, i) > 0, AL8(T.a(t, i)))), T.a(t, i)),
        FA([t], And(T.b(t) >= 0, AL8(T.b(t))), T.b(t)),
    ]


def term_ok(t):
    return And(t > 0, AL8(t))


def c_TermDeref():
    def ens(c):
        T = Terms(c.o)
        return [('node', c.ret == DT(c.term, c.ocell('deref'))), ('left', c.cell('deref') == DD(c.term, c.ocell('deref'))),
                ('ok', term_ok(c.ret))]

    def inv(c):
        d = c.cell('deref')
        return [DT(c.v('term'), d) == DT(c.term, c.ocell('deref')),
                DD(c.v('term'), d) == DD(c.term, c.ocell('deref')),
                term_ok(c.v('term')), d >= 0, d <= 2, (c.ocell('deref') == 2) == (d == 2)]
    return Contract('TermDeref', requires=lambda c: [term_ok(c.term), c.cell('deref') >= 0, c.cell('deref') <= 2],
                    ensures=ens, cells={'deref': W64}, cell_mod={'deref'}, frozen=TERM,
                    theory=lambda c: deref_theory(Terms(c.o)) + wf_terms(Terms(c.o)),
                    loops=[Loop(inv), Loop(inv)])


# ------------------------------------------------------------------ memory manager (assumed contracts)
def c_SizeMalloc(name='SizeMallocReal', par='size'):
    return Contract(name, ensures=lambda c: [c.ret > 0, AL8(c.ret), Select(c.o('ghost:alive'), c.ret) != 1,
                                             c.m('ghost:alive') == Store(c.o('ghost:alive'), c.ret, 1)],
                    modifies={'ghost:alive'}, trusted=True,
                    doc="allocation returns a non-null 8-aligned block disjoint from every live block")


def c_SizeFree(name='SizeFreeReal'):
    return Contract(name, ensures=lambda c: [c.m('ghost:alive') == Store(c.o('ghost:alive'), c.junk, 0)],
                    modifies={'ghost:alive'}, trusted=True, doc="freeing a block only ends its life")


def alive(st_map, p):
    return Select(st_map, p) == 1


def c_PLocalStackGrow():
    def ens(c):
        k, p = Ints('k p')
        E0, E1 = c.o('elem:w64'), c.m('elem:w64')
        a0, a1 = c.o('ghost:alive'), c.m('ghost:alive')
        return [('size', c.ret > c.size + c.space), ('fresh', And(Select(a0, c.cell('data')) != 1, c.cell('data') > 0)),
                ('copied', FA([k], Implies(And(k >= 0, k < c.size), Select(Select(E1, c.cell('data')), k) == Select(Select(E0, c.ocell('data')), k)),
                              Select(Select(E1, c.cell('data')), k))),
                ('others', FA([p], Implies(p != c.cell('data'), Select(E1, p) == Select(E0, p)), Select(E1, p))),
                ('alive', alive(a1, c.cell('data'))),
                ('kept', FA([p], Implies(And(Select(a0, p) == 1, p != c.ocell('data')), Select(a1, p) == 1), Select(a1, p)))]
    return Contract('PLocalStackGrow', requires=lambda c: [c.size > 0, c.space >= 0, alive(c.m('ghost:alive'), c.cell('data'))],
                    ensures=ens, cells={'data': PTR}, cell_mod={'data'}, modifies={'elem:w64', 'ghost:alive'},
                    memcpy=('elem:w64', 8), loops=[Loop(lambda c: [c.v('size') > 0])])
