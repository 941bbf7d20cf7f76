"""C01: the default term ordering (KBO6) computes the Knuth-Bendix ordering"""
from .lib import *

SOURCES = ['ORDERINGS/cto_kbolin.c', 'BASICS/clb_plocalstacks.c', 'ORDERINGS/cto_ocb.c', 'ORDERINGS/cto_orderings.c']
VERIFY = ['TermDeref', 'OCBFunWeight', 'PLocalStackGrow', 'resize_vb', 'inc_vb', 'dec_vb', 'mfyvwblhs', 'mfyvwbrhs', 'kbo6reset', 'kbolincmp',
          'KBO6Compare', 'KBO6Greater', 'OCBFunCompareMatrix', 'OCBFunCompare']

# logical constants: the ordering instance
WARR = z3.Const('WARR', A1)
SIGSZ, VARW, WPTR = Ints('SIGSZ VARW WPTR')
PREC = Function('PREC', I, I, I)            # precedence on symbols
PWP, PMP, SIG, FINF, DPROP = Ints('PWP PMP SIG FINF DPROP')
PWA = z3.Const('PWA', A1)                   # precedence weights
PMA = z3.Const('PMA', A1)                   # precedence matrix
PROPS = z3.Const('PROPS', A1)               # funccell.properties
FUNCSZ = 56
BAND = Function('band', I, I, I)


def sgn(x):
    return If(x < 0, IntVal(LT), If(x > 0, IntVal(GT), IntVal(EQ)))


def u32(x):
    return If(x < 0, x + (1 << 32), x)


def matrix_spec(f, g, sz, pma):
    return If(f <= sz, If(g <= sz, Select(pma, (g - 1) * sz + (f - 1)), IntVal(GT)),
              If(g <= sz, IntVal(LT), sgn(g - f)))


def prec_spec(f, g):
    dp = lambda h: u32(BAND(Select(PROPS, FINF + h * FUNCSZ), DPROP))
    pw = lambda h: If(h <= SIGSZ, Select(PWA, h), -h)
    return If(f == g, IntVal(EQ), If(f == 1, IntVal(LT), If(g == 1, IntVal(GT),
              If(dp(g) != dp(f), sgn(dp(g) - dp(f)),
                 If(PWP != 0, sgn(pw(f) - pw(g)), matrix_spec(f, g, SIGSZ, PMA))))))


def fw(f):
    return If(f <= SIGSZ, Select(WARR, f), IntVal(1))


W = Function('W', I, I, I)          # weight of (t,d)
WN = Function('WN', I, I, I)        # ... of a dereferenced node
SW = Function('SW', I, I, I, I)     # sum of weights of first k arguments
VC = Function('VC', I, I, I, I)     # occurrences of variable -i
VN = Function('VN', I, I, I, I)
SV = Function('SV', I, I, I, I, I)
K = Function('K', I, I, I, I, I)
KN = Function('KN', I, I, I, I, I)
LEX = Function('LEX', I, I, I, I, I, I)
NEGV = Function('NEGV', I, I, I, I, B)   # some variable occurs less often on the left (nodes)
POSV = Function('POSV', I, I, I, I, B)
nsk = Function('nsk', I, I, I, I, I)
psk = Function('psk', I, I, I, I, I)
CP = Function('CP', A1, I, I)       # number of positive entries below n
CN = Function('CN', A1, I, I)
cpw = Function('cpw', A1, I, I)
cnw = Function('cnw', A1, I, I)
SSW = Function('SSW', A1, I, I)    # weight of everything on the work stack
SSV = Function('SSV', A1, I, I, I)


def comb(wb, gn, ln, L):
    return If(wb > 0, gn, If(wb < 0, ln, If(L == GT, gn, If(L == LT, ln, IntVal(UNC)))))


def kbo_defs(T):
    s, t, ds, dt, d, k, i = Ints('s t ds dt d k i')
    out = [
        FA([t, d], W(t, d) == WN(DT(t, d), DD(t, d)), W(t, d)),
        FA([t, d], WN(t, d) == If(T.f(t) < 0, VARW, fw(T.f(t)) + SW(t, d, T.n(t))), WN(t, d)),
        FA([t, d], SW(t, d, 0) == 0, SW(t, d, IntVal(0)), WN(t, d)),
        FA([t, d, k], Implies(k >= 0, SW(t, d, k + 1) == SW(t, d, k) + W(T.a(t, k), d)), (SW(t, d, k), T.a(t, k))),
        FA([t, d, i], VC(t, d, i) == VN(DT(t, d), DD(t, d), i), VC(t, d, i)),
        FA([t, d, i], VN(t, d, i) == If(T.f(t) < 0, If(i == -T.f(t), IntVal(1), IntVal(0)), SV(t, d, T.n(t), i)), VN(t, d, i)),
        FA([t, d, i], SV(t, d, 0, i) == 0, SV(t, d, IntVal(0), i), VN(t, d, i)),
        FA([t, d, k, i], Implies(k >= 0, SV(t, d, k + 1, i) == SV(t, d, k, i) + VC(T.a(t, k), d, i)),
           (SV(t, d, k, i), T.a(t, k)), (SV(t, d, k + 1, i), T.a(t, k))),
    ]
    # the ordering
    X = (s, ds, t, dt)
    wb = WN(s, ds) - WN(t, dt)
    gn = If(NEGV(*X), IntVal(UNC), IntVal(GT))
    ln = If(POSV(*X), IntVal(UNC), IntVal(LT))
    L = LEX(s, ds, t, dt, 0)
    body = If(T.f(s) == T.f(t), If(T.f(s) < 0, IntVal(EQ), If(L == EQ, IntVal(EQ), comb(wb, gn, ln, L))),
              If(T.f(s) < 0, If(T.f(t) < 0, IntVal(UNC), If(VN(t, dt, -T.f(s)) > 0, IntVal(LT), IntVal(UNC))),
                 If(T.f(t) < 0, If(VN(s, ds, -T.f(t)) > 0, IntVal(GT), IntVal(UNC)),
                    comb(wb, gn, ln, PREC(T.f(s), T.f(t))))))
    out += [
        FA([s, ds, t, dt], K(*X) == KN(DT(s, ds), DD(s, ds), DT(t, dt), DD(t, dt)), K(*X)),
        FA([s, ds, t, dt], KN(*X) == body, KN(*X)),
        FA([s, ds, t, dt, k], Implies(And(k >= 0, k < T.n(s)),
                                      LEX(s, ds, t, dt, k) == If(K(T.a(s, k), ds, T.a(t, k), dt) != EQ, K(T.a(s, k), ds, T.a(t, k), dt),
                                                                 LEX(s, ds, t, dt, k + 1))),
           (LEX(s, ds, t, dt, k), T.a(s, k))),
        FA([s, ds, t, dt, k], Implies(k >= T.n(s), LEX(s, ds, t, dt, k) == EQ), LEX(s, ds, t, dt, k)),
        FA([s, ds, t, dt], Implies(NEGV(*X), And(nsk(*X) >= 0, VN(s, ds, nsk(*X)) < VN(t, dt, nsk(*X)))), NEGV(*X)),
        FA([s, ds, t, dt, i], Implies(And(i >= 0, VN(s, ds, i) < VN(t, dt, i)), NEGV(*X)), (NEGV(*X), VN(s, ds, i)), (NEGV(*X), VN(t, dt, i))),
        FA([s, ds, t, dt], Implies(POSV(*X), And(psk(*X) >= 0, VN(s, ds, psk(*X)) > VN(t, dt, psk(*X)))), POSV(*X)),
        FA([s, ds, t, dt, i], Implies(And(i >= 0, VN(s, ds, i) > VN(t, dt, i)), POSV(*X)), (POSV(*X), VN(s, ds, i)), (POSV(*X), VN(t, dt, i))),
    ]
    return out


def admissible():
    f = Int('f')
    return [VARW > 0, FA([f], fw(f) >= 0, Select(WARR, f)),
            FA([f], Implies(And(f > 0, z3.Function('sigarity', I, I)(f) == 0), fw(f) >= VARW), z3.Function('sigarity', I, I)(f))]


def lemma_facts(T):
    """proved in LEMMAS"""
    s, t, ds, dt, d, i = Ints('s t ds dt d i')
    X = (s, ds, t, dt)
    return [
        FA([t, d], WN(t, d) >= VARW, WN(t, d)),
        FA([t, d, i], VN(t, d, i) >= 0, VN(t, d, i)),
        FA([t, d, i], Implies(i <= 0, VN(t, d, i) == 0), VN(t, d, i)),
        FA([s, ds, t, dt], Implies(KN(*X) == EQ, WN(s, ds) == WN(t, dt)), KN(*X)),
        FA([s, ds, t, dt, i], Implies(KN(*X) == EQ, VN(s, ds, i) == VN(t, dt, i)), (KN(*X), VN(s, ds, i)), (KN(*X), VN(t, dt, i))),
        # lemma comparison_sound
        FA([s, ds, t, dt], And(*[x[1] for x in cmp_sound(*X)]), KN(*X)),
    ]


def cmp_sound(s, ds, t, dt):
    X = (s, ds, t, dt)
    wb = WN(s, ds) - WN(t, dt)
    return [('greater', Implies(KN(*X) == GT, And(wb >= 0, Not(NEGV(*X))))),
            ('lesser', Implies(KN(*X) == LT, And(wb <= 0, Not(POSV(*X))))),
            ('uncomparable+', Implies(And(KN(*X) == UNC, wb > 0), NEGV(*X))),
            ('uncomparable-', Implies(And(KN(*X) == UNC, wb < 0), POSV(*X))),
            ('range', And(KN(*X) >= 1, KN(*X) <= 4))]


def count_defs():
    a = z3.Const('a', A1)
    n, i, v = Ints('n i v')
    out = []
    for C, w, pred in ((CP, cpw, lambda x: x > 0), (CN, cnw, lambda x: x < 0)):
        one = lambda x: If(pred(x), IntVal(1), IntVal(0))
        out += [FA([a], C(a, 0) == 0, C(a, IntVal(0))),
                FA([a, n], Implies(n >= 0, C(a, n + 1) == C(a, n) + one(Select(a, n))), C(a, n + 1))]
    return out


def count_lemmas():
    a, b = z3.Consts('a b', A1)
    n, m, i, v = Ints('n m i v')
    out = []
    for C, w, pred in ((CP, cpw, lambda x: x > 0), (CN, cnw, lambda x: x < 0)):
        one = lambda x: If(pred(x), IntVal(1), IntVal(0))
        out += [
            FA([a, n, i, v], Implies(And(0 <= i, i < n), C(Store(a, i, v), n) == C(a, n) - one(Select(a, i)) + one(v)), C(Store(a, i, v), n)),
            FA([a, n], C(a, n) >= 0, C(a, n)),
            FA([a, n], Implies(C(a, n) > 0, And(w(a, n) >= 0, w(a, n) < n, pred(Select(a, w(a, n))))), C(a, n)),
            FA([a, n, i], Implies(And(0 <= i, i < n, pred(Select(a, i))), C(a, n) > 0), (C(a, n), Select(a, i))),
        ]
    return out


def LEMMAS():
    """side lemmas, by induction; each is checked from the definitions alone"""
    T = Terms(lambda k: z3.Const(k + '@L', z3.ArraySort(I, A1) if k.endswith('[]') else A1))
    base = deref_theory(T) + wf_terms(T) + kbo_defs(T)
    s, t, ds, dt, d, k, i, n, v, x = z3.Ints('s0 t0 ds0 dt0 d0 k0 i0 n0 v0 x0')
    qt, qd, qi, qk = Ints('qt qd qi qk')
    L = {}
    # weights: induction on terms (subterms satisfy the claim) and on k
    ih = FA([qk], Implies(And(qk >= 0, qk < T.n(t)), W(T.a(t, qk), d) >= VARW), T.a(t, qk))
    L['weight_lower_bound'] = dict(axioms=base + admissible() + [ih], goals=[
        ('sum.base', SW(t, d, 0) == 0),
        ('sum.step', Implies(And(k >= 0, k < T.n(t), SW(t, d, k) >= k * VARW, T.a(t, k) > 0), SW(t, d, k + 1) >= (k + 1) * VARW)),
        ('node', Implies(And(SW(t, d, T.n(t)) >= T.n(t) * VARW, Implies(T.n(t) >= 1, T.n(t) * VARW >= VARW), z3.Or(T.n(t) >= 1, T.n(t) == 0)),
                         WN(t, d) >= VARW)),
        ('deref', Implies(FA([qt, qd], WN(qt, qd) >= VARW, WN(qt, qd)), W(t, d) >= VARW))])
    ih = FA([qk], Implies(And(qk >= 0, qk < T.n(t)), And(VC(T.a(t, qk), d, i) >= 0, Implies(i <= 0, VC(T.a(t, qk), d, i) == 0))), T.a(t, qk))
    L['occurrences_nonneg'] = dict(axioms=base + [ih], goals=[
        ('sum.base', SV(t, d, 0, i) == 0),
        ('sum.step', Implies(And(k >= 0, k < T.n(t), SV(t, d, k, i) >= 0, Implies(i <= 0, SV(t, d, k, i) == 0), T.a(t, k) > 0),
                             And(SV(t, d, k + 1, i) >= 0, Implies(i <= 0, SV(t, d, k + 1, i) == 0)))),
        ('node', Implies(And(SV(t, d, T.n(t), i) >= 0, Implies(i <= 0, SV(t, d, T.n(t), i) == 0)),
                         And(VN(t, d, i) >= 0, Implies(i <= 0, VN(t, d, i) == 0)))),
    ])
    same = lambda a, da, b, db: And(W(a, da) == W(b, db), VC(a, da, i) == VC(b, db, i))
    ih = FA([qk], Implies(And(qk >= 0, qk < T.n(s), K(T.a(s, qk), ds, T.a(t, qk), dt) == EQ), same(T.a(s, qk), ds, T.a(t, qk), dt)),
            T.a(s, qk))
    inv = lambda k: And(LEX(s, ds, t, dt, k) == EQ, SW(s, ds, k) == SW(t, dt, k), SV(s, ds, k, i) == SV(t, dt, k, i))
    L['equal_means_same'] = dict(axioms=base + [ih], goals=[
        ('lex.base', Implies(LEX(s, ds, t, dt, 0) == EQ, And(SW(s, ds, 0) == SW(t, dt, 0), SV(s, ds, 0, i) == SV(t, dt, 0, i)))),
        ('lex.step', Implies(And(k >= 0, k < T.n(s), T.f(s) == T.f(t), T.a(s, k) > 0, T.a(t, k) > 0, inv(k)), inv(k + 1))),
        ('node', Implies(And(KN(s, ds, t, dt) == EQ, Implies(And(T.f(s) == T.f(t), LEX(s, ds, t, dt, 0) == EQ),
                                                            And(SW(s, ds, T.n(s)) == SW(t, dt, T.n(s)), SV(s, ds, T.n(s), i) == SV(t, dt, T.n(s), i))),
                             T.n(s) >= 0, T.n(t) >= 0),
                         And(WN(s, ds) == WN(t, dt), VN(s, ds, i) == VN(t, dt, i)))),
    ])
    pos = [FA([qt, qd], WN(qt, qd) >= VARW, WN(qt, qd)), FA([qt, qd, qi], VN(qt, qd, qi) >= 0, VN(qt, qd, qi)),
           FA([qt, qd, qi], Implies(qi <= 0, VN(qt, qd, qi) == 0), VN(qt, qd, qi))]
    ih = [FA([s_, ds_, t_, dt_], And(K(*X_) >= 1, K(*X_) <= 4), K(*X_)) for X_ in [Ints('qs qds qt qdt')] for s_, ds_, t_, dt_ in [X_]]
    f_, g_ = Ints('f g')
    L['comparison_sound'] = dict(axioms=base + admissible() + pos + ih + [FA([f_, g_], And(PREC(f_, g_) >= 1, PREC(f_, g_) <= 4), PREC(f_, g_)),
                                                                   FA([qk], And(LEX(s, ds, t, dt, qk) >= 1, LEX(s, ds, t, dt, qk) <= 4), LEX(s, ds, t, dt, qk))],
                                 goals=cmp_sound(s, ds, t, dt))
    a = z3.Const('a0', A1)
    qa = z3.Const('qa', A1)
    for C, nm, pred in ((CP, 'pos', lambda x: x > 0), (CN, 'neg', lambda x: x < 0)):
        one = lambda x: If(pred(x), IntVal(1), IntVal(0))
        upd = lambda n: And(Implies(And(0 <= i, i < n), C(Store(a, i, v), n) == C(a, n) - one(Select(a, i)) + one(v)),
                            Implies(i >= n, C(Store(a, i, v), n) == C(a, n)))
        ex = lambda n: And(C(a, n) >= 0, Implies(C(a, n) > 0, Exists([qi], And(qi >= 0, qi < n, pred(Select(a, qi))))))
        fa = lambda n: Implies(And(0 <= i, i < n, pred(Select(a, i))), C(a, n) > 0)
        b = z3.Const('b0', A1)
        dif = lambda C, n: Or(C(a, n) == C(b, n), Exists([qi], And(qi >= 0, qi < n, Select(a, qi) != Select(b, qi))))
        L['count_' + nm] = dict(axioms=count_defs(), goals=[
            ('store.base', upd(IntVal(0))), ('store.step', Implies(And(n >= 0, upd(n)), upd(n + 1))),
            ('witness.base', ex(IntVal(0))), ('witness.step', Implies(And(n >= 0, ex(n)), ex(n + 1))),
            ('congruence.base', C(a, 0) == C(b, 0)),
            ('congruence.step', Implies(And(n >= 0, dif(C, n)), dif(C, n + 1))),
            ('member.base', fa(IntVal(0))), ('member.step', Implies(And(n >= 0, ex(n), fa(n)), fa(n + 1)))])
    # sums over the work stack
    tagt, tagd = UNTAG4, TAG4
    b = z3.Const('b0', A1)
    el = lambda a, j: W(tagt(Select(a, j)), tagd(Select(a, j)))
    elv = lambda a, j: VC(tagt(Select(a, j)), tagd(Select(a, j)), i)
    dd = [FA([qa], SSW(qa, 0) == 0, SSW(qa, IntVal(0))), FA([qa, qi], SSV(qa, 0, qi) == 0, SSV(qa, IntVal(0), qi))]
    stepdef = [And(SSW(x, n + 1) == SSW(x, n) + el(x, n), SSV(x, n + 1, i) == SSV(x, n, i) + elv(x, n)) for x in (a, b, Store(a, k, v))]
    dif = Exists([qi], And(qi >= 0, qi < n, Select(a, qi) != Select(b, qi)))
    dif1 = Exists([qi], And(qi >= 0, qi < n + 1, Select(a, qi) != Select(b, qi)))
    below = lambda n: Implies(k >= n, And(SSW(Store(a, k, v), n) == SSW(a, n), SSV(Store(a, k, v), n, i) == SSV(a, n, i)))
    L['stack_sums'] = dict(axioms=dd + stepdef, goals=[
        ('store.base', below(IntVal(0))), ('store.step', Implies(And(n >= 0, below(n)), below(n + 1))),
        ('store.top', Implies(And(n >= 0, k == n, below(n)), And(SSW(Store(a, k, v), n + 1) == SSW(a, n) + W(tagt(v), tagd(v)),
                                                                SSV(Store(a, k, v), n + 1, i) == SSV(a, n, i) + VC(tagt(v), tagd(v), i)))),
        ('congruence.base', And(SSW(a, 0) == SSW(b, 0), SSV(a, 0, i) == SSV(b, 0, i))),
        ('congruence.step', Implies(And(n >= 0, Or(And(SSW(a, n) == SSW(b, n), SSV(a, n, i) == SSV(b, n, i)), dif)),
                                    Or(And(SSW(a, n + 1) == SSW(b, n + 1), SSV(a, n + 1, i) == SSV(b, n + 1, i)), dif1)))])
    L['deref_idem'] = deref_lemma(T)
    return L


def theory(c):
    T = Terms(c.o)
    return deref_theory(T) + wf_terms(T) + kbo_defs(T) + lemma_facts(T) + admissible() + count_lemmas()


def vcp(t, d, i):
    return [VC(t, d, i), VN(DT(t, d), DD(t, d), i)]


# ---------------------------------------------------------------- ocb state
def O(c, f, pre=False):
    return Select((c.o if pre else c.m)('ocb_cell.' + f), c.ocb)


def vbarr(c, pre=False):
    return Select((c.o if pre else c.m)('elem:i32'), O(c, 'vb', pre))


def bal(c, i, pre=False):
    return If(And(0 <= i, i < O(c, 'vb_size', pre)), Select(vbarr(c, pre), i), IntVal(0))


def ocb_ok(c, pre=False):
    i = Int('i')
    al = (c.o if pre else c.m)('ghost:alive')
    m = (c.o if pre else c.m)
    return [('ocb.max_var', And(O(c, 'max_var', pre) >= 0, O(c, 'max_var', pre) < O(c, 'vb_size', pre), O(c, 'vb_size', pre) >= 1)),
            ('ocb.tail0', FA([i], Implies(And(i > O(c, 'max_var', pre), i < O(c, 'vb_size', pre)), Select(vbarr(c, pre), i) == 0),
                             Select(vbarr(c, pre), i))),
            ('ocb.pos', O(c, 'pos_bal', pre) == CP(vbarr(c, pre), O(c, 'vb_size', pre))),
            ('ocb.neg', O(c, 'neg_bal', pre) == CN(vbarr(c, pre), O(c, 'vb_size', pre))),
            ] + ocb_inst(c, pre)


def ocb_inst(c, pre=False):
    al = (c.o if pre else c.m)('ghost:alive')
    m = (c.o if pre else c.m)
    return [('ocb.vb', And(alive(al, O(c, 'vb', pre)), O(c, 'vb', pre) > 0, O(c, 'vb', pre) != WPTR)),
            ('ocb.inst', And(O(c, 'weights', pre) == WPTR, Select(m('elem:w64'), WPTR) == WARR, O(c, 'sig_size', pre) == SIGSZ,
                             O(c, 'var_weight', pre) == VARW)),
            ('ocb.walive', alive(al, WPTR)),
            ('ocb.prec', And(O(c, 'prec_weights', pre) == PWP, O(c, 'precedence', pre) == PMP, O(c, 'sig', pre) == SIG,
                             Select(m('sigcell.f_info'), SIG) == FINF, Select(m('sigcell.distinct_props'), SIG) == DPROP,
                             m('funccell.properties') == PROPS, Select(m('elem:w64'), PWP) == PWA, Select(m('elem:i32'), PMP) == PMA,
                             Or(PWP == 0, alive(al, PWP)), Or(PMP == 0, alive(al, PMP)), PWP != O(c, 'vb', pre), PMP != O(c, 'vb', pre),
                             PWP >= 0, PMP >= 0))]


def alive_kept(c, *gone):
    p = Int('p')
    o, n = c.o('ghost:alive'), c.m('ghost:alive')
    return FA([p], Implies(And([Select(o, p) == 1] + [p != g for g in gone]), Select(n, p) == 1), Select(n, p))


STATE = {'ocb_cell.wb', 'ocb_cell.pos_bal', 'ocb_cell.neg_bal', 'ocb_cell.max_var', 'ocb_cell.vb_size', 'ocb_cell.vb', 'elem:i32', 'ghost:alive'}


def only_ocb(c, keys=('wb', 'pos_bal', 'neg_bal', 'max_var', 'vb_size', 'vb')):
    """fields of other ocbs untouched"""
    p = Int('p')
    return [('frame.' + k, FA([p], Implies(p != c.ocb, Select(c.m('ocb_cell.' + k), p) == Select(c.o('ocb_cell.' + k), p)),
                              Select(c.m('ocb_cell.' + k), p))) for k in keys]


def contracts():
    cs = [c_TermDeref(), c_SizeMalloc(), c_SizeFree()]
    i = Int('i')

    cs.append(Contract('WHNF_deref', requires=lambda c: [('higher-order only', z3.BoolVal(False))], trusted=True,
                       doc='must be unreachable for first order problems'))

    # ---- OCBFunWeight
    cs.append(Contract('OCBFunWeight', requires=lambda c: ocb_inst(c)[1:2], ensures=lambda c: [('weight', c.ret == fw(c.f))]))

    cs.append(c_PLocalStackGrow())

    # ---- resize_vb
    def rs_ens(c):
        k, p = Ints('k p')
        return [('big', O(c, 'vb_size') > c.index), ('grow', O(c, 'vb_size') >= O(c, 'vb_size', True)),
                ('copied', FA([k], Implies(And(k >= 0, k < O(c, 'vb_size', True)), Select(vbarr(c), k) == Select(vbarr(c, True), k)), Select(vbarr(c), k))),
                ('zero', FA([k], Implies(And(k >= O(c, 'vb_size', True), k < O(c, 'vb_size')), Select(vbarr(c), k) == 0), Select(vbarr(c), k))),
                ('fresh', And(O(c, 'vb') > 0, Select(c.o('ghost:alive'), O(c, 'vb')) != 1, alive(c.m('ghost:alive'), O(c, 'vb')))),
                ('cp', CP(vbarr(c), O(c, 'vb_size')) == CP(vbarr(c, True), O(c, 'vb_size', True))),
                ('cn', CN(vbarr(c), O(c, 'vb_size')) == CN(vbarr(c, True), O(c, 'vb_size', True))),
                ('others', FA([p], Implies(p != O(c, 'vb'), Select(c.m('elem:i32'), p) == Select(c.o('elem:i32'), p)), Select(c.m('elem:i32'), p))),
                ('kept', alive_kept(c, O(c, 'vb', True)))] + only_ocb(c, ('vb', 'vb_size'))

    def rs_l1(c):
        k, p = Ints('k p')
        return [('size', And(O(c, 'vb_size') >= O(c, 'vb_size', True)))] + only_ocb(c, ('vb_size',))

    def rs_l2(c):
        k, p = Ints('k p')
        I_ = c.v('i')
        old = O(c, 'vb_size', True)
        return [('i', And(I_ >= old, I_ <= O(c, 'vb_size'))),
                ('copied', FA([k], Implies(And(k >= 0, k < old), Select(vbarr(c), k) == Select(vbarr(c, True), k)), Select(vbarr(c), k))),
                ('zero', FA([k], Implies(And(k >= old, k < I_), Select(vbarr(c), k) == 0), Select(vbarr(c), k))),
                ('cp', CP(vbarr(c), I_) == CP(vbarr(c, True), old)), ('cn', CN(vbarr(c), I_) == CN(vbarr(c, True), old)),
                ('others', FA([p], Implies(p != O(c, 'vb'), Select(c.m('elem:i32'), p) == Select(c.o('elem:i32'), p)), Select(c.m('elem:i32'), p))),
                ] 

    def rs_theory(c):
        # counting: definition, congruence on equal prefixes, store lemma
        a, b = z3.Consts('a b', A1)
        n, k = Ints('n k')
        ds = Function('cdiff', A1, A1, I, I)
        out = count_lemmas()
        for C, pred in ((CP, lambda x: x > 0), (CN, lambda x: x < 0)):
            out.append(FA([a, n], Implies(n >= 0, C(a, n + 1) == C(a, n) + If(pred(Select(a, n)), IntVal(1), IntVal(0))), (C(a, n), Select(a, n))))
            out.append(FA([a, b, n], Or(C(a, n) == C(b, n), And(ds(a, b, n) >= 0, ds(a, b, n) < n, Select(a, ds(a, b, n)) != Select(b, ds(a, b, n)))),
                          (C(a, n), C(b, n))))
            v = Int('v')
            out.append(FA([a, k, v, n], Implies(k >= n, C(Store(a, k, v), n) == C(a, n)), C(Store(a, k, v), n)))
        return out
    cs.append(Contract('resize_vb', requires=lambda c: [O(c, 'vb_size') >= 1, c.index >= 0, alive(c.m('ghost:alive'), O(c, 'vb'))],
                       ensures=rs_ens, modifies={'ocb_cell.vb', 'ocb_cell.vb_size', 'elem:i32', 'ghost:alive'},
                       memcpy=('elem:i32', 4), loops=[Loop(rs_l1), Loop(rs_l2)], theory=rs_theory))

    # ---- inc_vb / dec_vb
    def upd(sgn):
        def ens(c):
            v = -Select(c.o('termcell.f_code'), c.var)
            return ocb_ok(c) + [('wb', O(c, 'wb') == O(c, 'wb', True) + sgn * VARW),
                                ('bal', FA([i], Implies(i >= 0, bal(c, i) == bal(c, i, True) + If(i == v, IntVal(sgn), IntVal(0))),
                                           Select(vbarr(c), i), Select(vbarr(c, True), i))),
                                ('grow', O(c, 'vb_size') >= O(c, 'vb_size', True)),
                                ('in', v < O(c, 'vb_size')),
                                ('kept', alive_kept(c, O(c, 'vb', True))),
                                ('vbfresh', Or(O(c, 'vb') == O(c, 'vb', True), Select(c.o('ghost:alive'), O(c, 'vb')) != 1))] + only_ocb(c)
        return ens
    req_vb = lambda c: ocb_ok(c) + [Select(c.m('termcell.f_code'), c.var) < 0]
    for nm, sg in (('inc_vb', 1), ('dec_vb', -1)):
        cs.append(Contract(nm, requires=req_vb, ensures=upd(sg), modifies=STATE, frozen=TERM, theory=lambda c: count_lemmas()))

    # ---- mfyvwblhs / rhs
    tagt, tagd = UNTAG4, TAG4

    def ss_theory(c):
        a, b = z3.Consts('a b', A1)
        n, v, j = Ints('n v j')
        dsk = Function('ssdiff', A1, A1, I, I)
        dif = lambda a, b, n: And(dsk(a, b, n) >= 0, dsk(a, b, n) < n, Select(a, dsk(a, b, n)) != Select(b, dsk(a, b, n)))
        return theory(c) + [
            FA([a], SSW(a, 0) == 0, SSW(a, IntVal(0))),
            FA([a, i], SSV(a, 0, i) == 0, SSV(a, IntVal(0), i)),
            # definition
            FA([a, n, j], Implies(And(j >= 0, n == j + 1), SSW(a, n) == SSW(a, j) + W(tagt(Select(a, j)), tagd(Select(a, j)))), (SSW(a, n), SSW(a, j)), (SSW(a, n), Select(a, j))),
            FA([a, n, j, i], Implies(And(j >= 0, n == j + 1), SSV(a, n, i) == SSV(a, j, i) + VC(tagt(Select(a, j)), tagd(Select(a, j)), i)),
               (SSV(a, n, i), SSV(a, j, i)), (SSV(a, n, i), Select(a, j))),
            # consequences (lemma stack_sums)
            FA([a, j, n, v], And(Implies(And(j >= 0, n == j + 1), SSW(Store(a, j, v), n) == SSW(a, j) + W(tagt(v), tagd(v))),
                                 Implies(j >= n, SSW(Store(a, j, v), n) == SSW(a, n))), SSW(Store(a, j, v), n)),
            FA([a, j, n, v, i], And(Implies(And(j >= 0, n == j + 1), SSV(Store(a, j, v), n, i) == SSV(a, j, i) + VC(tagt(v), tagd(v), i)),
                                    Implies(j >= n, SSV(Store(a, j, v), n, i) == SSV(a, n, i))), SSV(Store(a, j, v), n, i)),
            FA([a, b, n], Or(SSW(a, n) == SSW(b, n), dif(a, b, n)), (SSW(a, n), SSW(b, n))),
            FA([a, b, n, i], Or(SSV(a, n, i) == SSV(b, n, i), dif(a, b, n)), (SSV(a, n, i), SSV(b, n, i))),
        ]

    def mk_mfy(nm, sgn):
        def req(c):
            return ocb_ok(c) + [('term', term_ok(c.term)), ('d', And(c.deref_t >= 0, c.deref_t <= 2)), ('lim', c.orig_limit == 0), ('fo', c.m('g:problemType') != c.enums['PROBLEM_HO'])]

        def post(c):
            return ocb_ok(c) + [('wb', O(c, 'wb') == O(c, 'wb', True) + sgn * W(c.term, c.deref_t)),
                                ('bal', FA([i], Implies(i >= 0, bal(c, i) == bal(c, i, True) + sgn * VC(c.term, c.deref_t, i)),
                                           Select(vbarr(c), i), *vcp(c.term, c.deref_t, i))),
                                ('kept', alive_kept(c, O(c, 'vb', True))),
                                ('vbfresh', Or(O(c, 'vb') == O(c, 'vb', True), Select(c.o('ghost:alive'), O(c, 'vb')) != 1)),
                                ('others64', FA([i], Implies(And(Select(c.o('ghost:alive'), i) == 1, i != O(c, 'vb', True)), Select(c.m('elem:w64'), i) == Select(c.o('elem:w64'), i)),
                                                Select(c.m('elem:w64'), i)))] + only_ocb(c)

        def stk(c):
            return Select(c.m('elem:w64'), c.v('stack_data'))

        def common(c):
            n = c.v('stack_current')
            sd = c.v('stack_data')
            j = Int('j')
            return ocb_ok(c) + [
                ('sp', And(n >= 0, n <= c.v('stack_size'), c.v('stack_size') >= 1)),
                ('stack.alive', And(alive(c.m('ghost:alive'), sd), Or(Select(c.o('ghost:alive'), sd) != 1, sd == O(c, 'vb', True)), sd > 0, sd != WPTR, sd != PWP, sd != O(c, 'vb'))),
                ('stack.terms', FA([j], Implies(And(j >= 0, j < n), And(term_ok(tagt(Select(stk(c), j))), tagd(Select(stk(c), j)) >= 0, tagd(Select(stk(c), j)) <= 2)), Select(stk(c), j))),
                ('kept', alive_kept(c, O(c, 'vb', True))),
                ('vbfresh', Or(O(c, 'vb') == O(c, 'vb', True), Select(c.o('ghost:alive'), O(c, 'vb')) != 1)),
                ('others64', FA([i], Implies(And(Select(c.o('ghost:alive'), i) == 1, i != O(c, 'vb', True)), Select(c.m('elem:w64'), i) == Select(c.o('elem:w64'), i)),
                                Select(c.m('elem:w64'), i)))] + only_ocb(c)

        def outer(c):
            n = c.v('stack_current')
            return common(c) + [
                ('wb', O(c, 'wb') + sgn * SSW(stk(c), n) == O(c, 'wb', True) + sgn * W(c.term, c.deref_t)),
                ('bal', FA([i], Implies(i >= 0, bal(c, i) + sgn * SSV(stk(c), n, i) == bal(c, i, True) + sgn * VC(c.term, c.deref_t, i)),
                           SSV(stk(c), n, i), VC(c.term, c.deref_t, i)))]

        def inner(c):
            n = c.v('stack_current')
            T = Terms(c.o)
            t, d, k = c.v('term'), c.v('deref_t'), c.v('i')
            return common(c) + [
                ('k', And(k >= 0, k <= T.n(t), n + T.n(t) - k < c.v('stack_size'))),
                ('wb', O(c, 'wb') + sgn * (SSW(stk(c), n) + SW(t, d, T.n(t)) - SW(t, d, k)) == O(c, 'wb', True) + sgn * W(c.term, c.deref_t)),
                ('bal', FA([i], Implies(i >= 0, bal(c, i) + sgn * (SSV(stk(c), n, i) + SV(t, d, T.n(t), i) - SV(t, d, k, i))
                                        == bal(c, i, True) + sgn * VC(c.term, c.deref_t, i)), SSV(stk(c), n, i), VC(c.term, c.deref_t, i)))]
        return Contract(nm, requires=req, ensures=post, modifies=STATE | {'elem:w64'}, frozen=TERM, theory=ss_theory,
                        loops=[Loop(outer), Loop(inner)])
    cs.append(mk_mfy('mfyvwblhs', 1))
    cs.append(mk_mfy('mfyvwbrhs', -1))
    
    # ---- precedence
    def fm_ens(c):
        return [('matrix', c.ret == matrix_spec(c.f1, c.f2, SIGSZ, PMA))]
    cs.append(Contract('OCBFunCompareMatrix', requires=lambda c: [x for x in ocb_inst(c) if x[0] in ('ocb.inst', 'ocb.prec')], ensures=fm_ens))
    cs.append(Contract('OCBFunCompare', requires=lambda c: [x for x in ocb_inst(c) if x[0] in ('ocb.inst', 'ocb.prec')],
                       ensures=lambda c: [('precedence', c.ret == prec_spec(c.f1, c.f2))]))

    # ---- comparison
    def prec_theory():
        f, g = Ints('f g')
        return [FA([f, g], PREC(f, g) == prec_spec(f, g), PREC(f, g))]

    def zero(c):
        return [('zero.wb', O(c, 'wb') == 0), ('zero.pos', O(c, 'pos_bal') == 0), ('zero.neg', O(c, 'neg_bal') == 0),
                ('zero.vb', FA([i], Implies(And(i >= 0, i < O(c, 'vb_size')), Select(vbarr(c), i) == 0), Select(vbarr(c), i)))]

    def args_ok(c):
        return [('s', term_ok(c.s)), ('t', term_ok(c.t)), ('ds', And(c.deref_s >= 0, c.deref_s <= 2)), ('dt', And(c.deref_t >= 0, c.deref_t <= 2)),
                ('fo', c.m('g:problemType') != c.enums['PROBLEM_HO'])] + enum_guard(c, to_uncomparable=UNC, to_equal=EQ, to_greater=GT, to_lesser=LT)

    def frame(c):
        return [('kept', alive_kept(c, O(c, 'vb', True))),
                ('vbfresh', Or(O(c, 'vb') == O(c, 'vb', True), Select(c.o('ghost:alive'), O(c, 'vb')) != 1)),
                ('others64', FA([i], Implies(And(Select(c.o('ghost:alive'), i) == 1, i != O(c, 'vb', True)), Select(c.m('elem:w64'), i) == Select(c.o('elem:w64'), i)),
                                Select(c.m('elem:w64'), i)))] + only_ocb(c)

    def cmp_post(c, res):
        X = (c.s, c.deref_s, c.t, c.deref_t)
        s, ds, t, dt = N = (DT(c.s, c.deref_s), DD(c.s, c.deref_s), DT(c.t, c.deref_t), DD(c.t, c.deref_t))
        T = Terms(c.o)
        return ocb_ok(c) + [
            ('hint.wb', O(c, 'wb') == WN(s, ds) - WN(t, dt)),
            ('hint.bal', FA([i], Implies(i >= 0, bal(c, i) == VN(s, ds, i) - VN(t, dt, i)), Select(vbarr(c), i), VN(s, ds, i), VN(t, dt, i))),
            ('hint.neg', NEGV(*N) == (O(c, 'neg_bal') != 0)), ('hint.pos', POSV(*N) == (O(c, 'pos_bal') != 0)),
            ('hint.kbo', res == KN(*N)),
            ('wb', O(c, 'wb') == W(c.s, c.deref_s) - W(c.t, c.deref_t)),
            ('bal', FA([i], Implies(i >= 0, bal(c, i) == VC(c.s, c.deref_s, i) - VC(c.t, c.deref_t, i)),
                       Select(vbarr(c), i), *(vcp(c.s, c.deref_s, i) + vcp(c.t, c.deref_t, i)))),
            ('kbo', res == K(*X))] + frame(c)

    def kl_outer(c):
        s, t = c.v('s'), c.v('t')
        ds, dt = c.v('deref_s'), c.v('deref_t')
        T = Terms(c.o)
        k = c.v('i')
        N = (s, ds, t, dt)
        A = zero(c) + [('A.k', And(k >= 0, k <= T.n(s))), ('A.lex', LEX(*N, 0) == LEX(*N, k)), ('A.sw', SW(s, ds, k) == SW(t, dt, k)),
                       ('A.sv', FA([i], SV(s, ds, k, i) == SV(t, dt, k, i), SV(s, ds, k, i), SV(t, dt, k, i)))]
        post = {x[0]: x for x in cmp_post(c, c.v('res'))}
        Bc = [('hint.k', And(k >= T.n(s), T.n(s) == T.n(t), T.f(s) == T.f(t))),
              ('hint.wb', O(c, 'wb') == WN(s, ds) - WN(t, dt)),
              ('hint.bal', FA([i], Implies(i >= 0, bal(c, i) == VN(s, ds, i) - VN(t, dt, i)),
                              Select(vbarr(c), i), VN(s, ds, i), VN(t, dt, i), SV(s, ds, T.n(s), i), SV(t, dt, T.n(s), i))),
              ('hint.neg', NEGV(*N) == (O(c, 'neg_bal') != 0)), ('hint.pos', POSV(*N) == (O(c, 'pos_bal') != 0)),
              ('hint.kbo', c.v('res') == KN(*N))] + [post[x] for x in ('wb', 'bal', 'kbo')]
        return ocb_ok(c) + frame(c) + [(x[0], Implies(c.v('res') == EQ, x[1])) for x in A] + [(x[0], Implies(c.v('res') != EQ, x[1])) for x in Bc]

    def kl_inner(c):
        s, t = c.v('s'), c.v('t')
        ds, dt = c.v('deref_s'), c.v('deref_t')
        T = Terms(c.o)
        k = c.v('i')
        N = (s, ds, t, dt)
        return ocb_ok(c) + frame(c) + [
            ('k', And(k >= 0, k <= T.n(s))), ('lex', And(c.v('res') == LEX(*N, 0), c.v('res') != EQ)),
            ('wb', O(c, 'wb') == SW(s, ds, k) - SW(t, dt, k)),
            ('bal', FA([i], Implies(i >= 0, bal(c, i) == SV(s, ds, k, i) - SV(t, dt, k, i)), Select(vbarr(c), i), SV(s, ds, k, i), SV(t, dt, k, i)))]
    MOD = STATE | {'elem:w64'}
    FZ = TERM
    cs.append(Contract('kbolincmp', requires=lambda c: args_ok(c) + ocb_ok(c) + zero(c), ensures=lambda c: cmp_post(c, c.ret),
                       modifies=MOD, frozen=FZ, theory=lambda c: theory(c) + prec_theory(), loops=[Loop(kl_outer), Loop(kl_inner)]))

    # ---- reset and entry points
    def rs(c):
        k = c.v('i')
        return [('i', And(k >= 0, k <= O(c, 'max_var') + 1)),
                ('z', FA([i], Implies(And(i >= 0, Or(i < k, i > O(c, 'max_var')), i < O(c, 'vb_size')), Select(vbarr(c), i) == 0), Select(vbarr(c), i)))] + ocb_inst(c)

    def part_ok(c):
        return [x for x in ocb_ok(c) if x[0] not in ('ocb.pos', 'ocb.neg')]
    cs.append(Contract('kbo6reset', requires=lambda c: part_ok(c), ensures=lambda c: ocb_ok(c) + zero(c) + only_ocb(c),
                       modifies=STATE, theory=lambda c: count_lemmas(), loops=[Loop(rs)]))
    for nm, post in (('KBO6Compare', lambda c: c.ret == K(c.s, c.deref_s, c.t, c.deref_t)),
                     ('KBO6Greater', lambda c: c.ret == (K(c.s, c.deref_s, c.t, c.deref_t) == GT))):
        cs.append(Contract(nm, requires=lambda c: args_ok(c) + part_ok(c), ensures=(lambda post: lambda c: [('kbo', post(c))] + part_ok(c) + only_ocb(c))(post),
                           modifies=MOD, frozen=FZ, theory=lambda c: theory(c)))
    return cs
