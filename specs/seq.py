"""C14: stacks, queues and growing arrays behave as the mathematical sequences they stand for.
The contract factories are used by the specs of the algorithms that work with them."""
from .lib import *

SOURCES = ['BASICS/clb_pstacks.c', 'BASICS/clb_pqueue.c', 'BASICS/clb_pdarrays.c', '@probe_basics.c']
VERIFY = ['PStackGrow', 'PStackAlloc', 'PStackVarAlloc', 'PStackPushInt', 'PStackPushP', 'PStackPop', 'PStackDiscardTop', 'PStackTop', 'PStackBelowTop',
          'PStackElement', 'PStackReset', 'PStackCopy', 'PStackDiscardElement', 'PStackPushStack', 'PStackFindP',
          'PQueueGrow', 'PQueueAlloc', 'PQueueStoreInt', 'PQueueStoreP', 'PQueueBuryInt', 'PQueueBuryP', 'PQueueGetNext', 'PQueueGetLast', 'PQueueLook', 'PQueueLookLast',
          'PQueueReset', 'PQueueCardinality', 'PQueueTailIndex', 'PQueueIncIndex',
          'PDArrayAlloc', 'PDIntArrayAlloc', 'PDArrayEnlarge', 'PDArrayElementDeleteP', 'PDArrayElementDeleteInt', 'PDArrayMembers', 'PDArrayFirstUnused',
          'PDArrayStore', 'PDArrayStoreP', 'PDArrayStoreInt', 'PDArrayElementIncInt', 'PDArrayCopy', 'PDArrayAdd', 'PStackFree', 'PQueueFree', 'PDArrayFree']

E64 = 'elem:w64'
AL = 'ghost:alive'


def same_except(c, key, *gone, fresh_ok=False):
    """key unchanged at every (live) index except the listed ones"""
    p = Int('p')
    cond = [p != g for g in gone]
    if fresh_ok:
        cond.append(Select(c.o(AL), p) == 1)
    n, o = c.m(key), c.o(key)
    return FA([p], Implies(And(cond) if cond else z3.BoolVal(True), Select(n, p) == Select(o, p)), Select(n, p))


def alive_kept(c, *gone):
    p = Int('p')
    o, n = c.o(AL), c.m(AL)
    return FA([p], Implies(And([Select(o, p) == 1] + [p != g for g in gone]), Select(n, p) == 1), Select(n, p))


# ------------------------------------------------------------------ stacks
class Stk:
    F = {'pstackcell.size', 'pstackcell.current', 'pstackcell.stack'}

    def __init__(self, get, s):
        self.s = s
        self.size, self.n, self.p = (Select(get('pstackcell.' + f), s) for f in ('size', 'current', 'stack'))
        self.arr = Select(get(E64), self.p)
        self.al = get(AL)

    def el(self, j):
        return Select(self.arr, j)

    def ok(self):
        return And(self.size >= 1, self.n >= 0, self.n <= self.size, self.p > 0, alive(self.al, self.p), alive(self.al, self.s), self.s > 0, self.s != self.p)


def stk(c, s, pre=False):
    return Stk(c.o if pre else c.m, s)


PFR = Stk.F | {E64, AL}


def push_ens(s, v):
    def ens(c):
        S, S0 = stk(c, c.arg(s)), stk(c, c.arg(s), True)
        k = Int('k')
        return [('ok', S.ok()), ('len', S.n == S0.n + 1), ('top', S.el(S0.n) == c.arg(v)),
                ('rest', FA([k], Implies(And(k >= 0, k < S0.n), S.el(k) == S0.el(k)), S.el(k), S0.el(k))),
                ('arr', Or(S.p == S0.p, Select(c.o(AL), S.p) != 1)),
                ('frame.E', same_except(c, E64, S0.p, fresh_ok=True)), ('kept', alive_kept(c, S0.p)),
                ] + [('frame.' + f, same_except(c, f, c.arg(s))) for f in sorted(Stk.F)]
    return ens


def stack_contracts():
    cs = []
    k, p = Ints('k p')

    def grow_ens(c):
        S, S0 = stk(c, c.stack), stk(c, c.stack, True)
        return [('ok', S.ok()), ('size', S.size > S0.size), ('n', S.n == S0.n),
                ('copied', FA([k], Implies(And(k >= 0, k < S0.size), S.el(k) == S0.el(k)), S.el(k), S0.el(k))),
                ('fresh', Select(c.o(AL), S.p) != 1),
                ('frame.E', same_except(c, E64, S.p, S0.p)), ('kept', alive_kept(c, S0.p))] + \
               [('frame.' + f, same_except(c, f, c.stack)) for f in ('pstackcell.size', 'pstackcell.stack')]
    cs.append(Contract('PStackGrow', requires=lambda c: [stk(c, c.stack).ok()], ensures=grow_ens, modifies={'pstackcell.size', 'pstackcell.stack', E64, AL},
                       memcpy=(E64, 8)))
    for nm in ('PStackPushInt', 'PStackPushP'):
        cs.append(Contract(nm, requires=lambda c: [stk(c, c.stack).ok()], ensures=push_ens('stack', 'val'), modifies=PFR))

    def alloc_ens(c):
        S = stk(c, c.ret)
        return [('ok', S.ok()), ('empty', S.n == 0), ('fresh', And(Select(c.o(AL), c.ret) != 1, Select(c.o(AL), S.p) != 1, S.p != c.ret)),
                ('kept', alive_kept(c)), ('size', S.size >= 1)] + [('frame.' + f, same_except(c, f, c.ret)) for f in sorted(Stk.F)]
    cs.append(Contract('PStackAlloc', ensures=alloc_ens, modifies=Stk.F | {AL}))
    cs.append(Contract('PStackVarAlloc', requires=lambda c: [c.size >= 1], ensures=alloc_ens, modifies=Stk.F | {AL}))

    def pop_ens(c):
        S, S0 = stk(c, c.stack), stk(c, c.stack, True)
        return [('len', S.n == S0.n - 1), ('frame', same_except(c, 'pstackcell.current', c.stack))]
    req1 = lambda c: [stk(c, c.stack).ok(), stk(c, c.stack).n >= 1]
    cs.append(Contract('PStackPop', requires=req1, ensures=lambda c: pop_ens(c) + [('val', c.ret == stk(c, c.stack, True).el(stk(c, c.stack, True).n - 1))],
                       modifies={'pstackcell.current'}))
    cs.append(Contract('PStackDiscardTop', requires=req1, ensures=pop_ens, modifies={'pstackcell.current'}))
    cs.append(Contract('PStackTop', requires=req1, ensures=lambda c: [('val', c.ret == stk(c, c.stack).el(stk(c, c.stack).n - 1))]))
    cs.append(Contract('PStackBelowTop', requires=lambda c: [stk(c, c.stack).ok(), stk(c, c.stack).n >= 2],
                       ensures=lambda c: [('val', c.ret == stk(c, c.stack).el(stk(c, c.stack).n - 2))]))
    cs.append(Contract('PStackElement', requires=lambda c: [stk(c, c.stack).ok(), c.pos >= 0, c.pos < stk(c, c.stack).n],
                       ensures=lambda c: [('val', c.ret == stk(c, c.stack).el(c.pos))]))
    cs.append(Contract('PStackReset', requires=lambda c: [stk(c, c.stack).ok()],
                       ensures=lambda c: [('empty', stk(c, c.stack).n == 0), ('frame', same_except(c, 'pstackcell.current', c.stack))],
                       modifies={'pstackcell.current'}))
    cs.append(Contract('PStackFree', requires=lambda c: [stk(c, c.junk).ok()], ensures=lambda c: [('kept', alive_kept(c, c.junk, stk(c, c.junk, True).p))], modifies={AL}))

    # --- copying and bulk operations
    def app_inv(src, dst, start, idx='i'):
        def inv(c):
            S, D, S0, n0 = stk(c, src(c)), stk(c, dst(c)), stk(c, src(c), True), start(c)
            i = c.v(idx)
            return [('ok', D.ok()), ('src', And(S.n == S0.n, S.p == S0.p, S.size == S0.size, S.arr == S0.arr, S.ok())), ('i', And(i >= 0, i <= S0.n)), ('len', D.n == n0 + i),
                    ('new', FA([k], Implies(And(k >= n0, k < n0 + i), D.el(k) == S0.el(k - n0)), D.el(k))),
                    ('frame.E', FA([p], Implies(And(Select(c.o(AL), p) == 1, p != dold(c).p), Select(c.m(E64), p) == Select(c.o(E64), p)), Select(c.m(E64), p))),
                    ('sep', And(D.p != S.p, D.s != S.s, D.p != S.s, D.s != S.p, Or(Select(c.o(AL), D.p) != 1, D.p == dold(c).p))),
                    ('kept', alive_kept(c, dold(c).p))] + \
                   [('frame.' + f, same_except(c, f, dst(c))) for f in sorted(Stk.F)] + \
                   [('old', FA([k], Implies(And(k >= 0, k < n0), D.el(k) == stk(c, dst(c), True).el(k)), D.el(k)))]
        dold = lambda c: stk(c, dst(c), True)
        return inv

    def copy_ens(c):
        S, R = stk(c, c.stack, True), stk(c, c.ret)
        return [('len', R.n == S.n), ('ok', R.ok()), ('els', FA([k], Implies(And(k >= 0, k < S.n), R.el(k) == S.el(k)), R.el(k))),
                ('fresh', Select(c.o(AL), c.ret) != 1), ('frame.E', same_except(c, E64, fresh_ok=True))] + [('frame.' + f, same_except(c, f, c.ret)) for f in sorted(Stk.F)]

    def copy_inv(c):
        S, D, S0 = stk(c, c.stack), stk(c, c.v('handle')), stk(c, c.stack, True)
        i = c.v('i')
        return [('ok', D.ok()), ('src', And(S.n == S0.n, S.p == S0.p, S.size == S0.size, S.arr == S0.arr, S.ok())), ('i', And(i >= 0, i <= S0.n)), ('len', D.n == i),
                ('els', FA([k], Implies(And(k >= 0, k < i), D.el(k) == S0.el(k)), D.el(k))),
                ('sep', And(Select(c.o(AL), D.p) != 1, Select(c.o(AL), D.s) != 1)),
                ('frame.E', same_except(c, E64, fresh_ok=True)), ('kept', alive_kept(c))] + [('frame.' + f, same_except(c, f, c.v('handle'))) for f in sorted(Stk.F)]
    cs.append(Contract('PStackCopy', requires=lambda c: [stk(c, c.stack).ok()], ensures=copy_ens, modifies=PFR, loops=[Loop(copy_inv)]))

    def disc_ens(c):
        S, S0 = stk(c, c.stack), stk(c, c.stack, True)
        return [('len', S.n == S0.n - 1), ('moved', Implies(c.i < S0.n - 1, S.el(c.i) == S0.el(S0.n - 1))),
                ('rest', FA([k], Implies(And(k >= 0, k < S0.n - 1, k != c.i), S.el(k) == S0.el(k)), S.el(k))),
                ('frame.E', same_except(c, E64, S0.p)), ('frame', same_except(c, 'pstackcell.current', c.stack))]
    cs.append(Contract('PStackDiscardElement', requires=lambda c: [stk(c, c.stack).ok(), c.i >= 0, c.i < stk(c, c.stack).n], ensures=disc_ens,
                       modifies={'pstackcell.current', E64}))

    def ps_ens(c):
        T, T0, S = stk(c, c.target), stk(c, c.target, True), stk(c, c.source, True)
        return [('ok', T.ok()), ('len', T.n == T0.n + S.n), ('old', FA([k], Implies(And(k >= 0, k < T0.n), T.el(k) == T0.el(k)), T.el(k))),
                ('new', FA([k], Implies(And(k >= T0.n, k < T0.n + S.n), T.el(k) == S.el(k - T0.n)), T.el(k))),
                ('frame.E', same_except(c, E64, T0.p, fresh_ok=True))] + [('frame.' + f, same_except(c, f, c.target)) for f in sorted(Stk.F)]
    cs.append(Contract('PStackPushStack', requires=lambda c: [stk(c, c.target).ok(), stk(c, c.source).ok(), c.target != c.source, stk(c, c.target).p != stk(c, c.source).p, stk(c, c.target).p != c.source, stk(c, c.source).p != c.target],
                       ensures=ps_ens, modifies=PFR, loops=[Loop(app_inv(lambda c: c.source, lambda c: c.target, lambda c: stk(c, c.target, True).n))]))

    def find_ens(c):
        S = stk(c, c.stack)
        w = fresh('w')
        return [('found', Implies(c.ret, Not(FA([k], Implies(And(k >= 0, k < S.n), S.el(k) != c.p), S.el(k))))),
                ('absent', Implies(Not(c.ret), FA([k], Implies(And(k >= 0, k < S.n), S.el(k) != c.p), S.el(k))))]
    cs.append(Contract('PStackFindP', requires=lambda c: [stk(c, c.stack).ok()], ensures=find_ens,
                       loops=[Loop(lambda c: [And(c.v('i') >= 0, c.v('i') <= stk(c, c.stack).n),
                                              FA([k], Implies(And(k >= 0, k < c.v('i')), stk(c, c.stack).el(k) != c.p), stk(c, c.stack).el(k))])]))
    return cs


# ------------------------------------------------------------------ queues
QN = Function('QN', I, I, I, I)         # number of elements of a queue
QE = Function('QE', A1, I, I, I, I)     # element j of the queue (array, size, tail)


def queue_theory(c=None):
    a = z3.Const('a', A1)
    n, t, j, h = Ints('n t j h')
    return [FA([n, h, t], QN(n, h, t) == If(h >= t, h - t, h + n - t), QN(n, h, t)), FA([a, n, t, j], QE(a, n, t, j) == Select(a, If(t + j >= n, t + j - n, t + j)), QE(a, n, t, j))]


def srem_theory(c=None):
    R, a, b = Function('op:srem', I, I, I), Int('a'), Int('b')
    return [FA([a, b], Implies(And(a >= 0, b > 0), And(Implies(a < b, R(a, b) == a), Implies(a == b, R(a, b) == 0))), R(a, b))]


class Que:
    F = {'pqueuecell.size', 'pqueuecell.head', 'pqueuecell.tail', 'pqueuecell.queue'}

    def __init__(self, get, q, full=False):
        self.q = q
        self.size, self.head, self.tail, self.p = (Select(get('pqueuecell.' + f), q) for f in ('size', 'head', 'tail', 'queue'))
        self.arr = Select(get(E64), self.p)
        self.al = get(AL)
        self.n = QN(self.size, self.head, self.tail)

    def el(self, j):
        return QE(self.arr, self.size, self.tail, j)

    def ok(self):
        return And(self.size >= 2, self.head >= 0, self.head < self.size, self.tail >= 0, self.tail < self.size, self.p > 0, self.q > 0,
                   alive(self.al, self.p), alive(self.al, self.q), self.q != self.p)


def que(c, q, pre=False):
    return Que(c.o if pre else c.m, q)


QFR = Que.F | {E64, AL}


def q_frame(c, q):
    Q0 = que(c, q, True)
    return [('arr', Or(que(c, q).p == Q0.p, Select(c.o(AL), que(c, q).p) != 1)), ('frame.E', same_except(c, E64, Q0.p, fresh_ok=True)), ('kept', alive_kept(c, Q0.p))] + \
           [('frame.' + f, same_except(c, f, q)) for f in sorted(Que.F)]


def queue_contracts():
    cs = []
    k, p = Ints('k p')

    def grow_ens(c):
        Q, Q0 = que(c, c.queue), que(c, c.queue, True)
        return [('ok', Q.ok()), ('size', Q.size == 2 * Q0.size), ('head', Q.head == Q0.head), ('tail', Q.tail == Q0.tail + Q0.size),
                ('lo', FA([k], Implies(And(k >= 0, k < Q0.head), Select(Q.arr, k) == Select(Q0.arr, k)), Select(Q.arr, k))),
                ('hi', FA([k], Implies(And(k >= Q0.head + Q0.size, k < 2 * Q0.size), Select(Q.arr, k) == Select(Q0.arr, k - Q0.size)), Select(Q.arr, k))),
                ('fresh', Select(c.o(AL), Q.p) != 1), ('frame.E', same_except(c, E64, Q.p, Q0.p)), ('kept', alive_kept(c, Q0.p))] + \
               [('frame.' + f, same_except(c, f, c.queue)) for f in sorted(Que.F - {'pqueuecell.head'})]

    def l1(c):
        Q, i, nm = que(c, c.queue), c.v('i'), c.v('new_mem')
        A = Select(c.m(E64), nm)
        return [('i', And(i >= 0, i <= Q.head)), ('lo', FA([k], Implies(And(k >= 0, k < i), Select(A, k) == Select(Q.arr, k)), Select(A, k))),
                ('frame', same_except(c, E64, nm))]

    def l2(c):
        Q, i, nm = que(c, c.queue), c.v('i'), c.v('new_mem')
        A = Select(c.m(E64), nm)
        return [('i', And(i >= Q.head, i <= Q.size)), ('lo', FA([k], Implies(And(k >= 0, k < Q.head), Select(A, k) == Select(Q.arr, k)), Select(A, k))),
                ('hi', FA([k], Implies(And(k >= Q.head + Q.size, k < Q.size + i), Select(A, k) == Select(Q.arr, k - Q.size)), Select(A, k))),
                ('frame', same_except(c, E64, nm))]
    cs.append(Contract('PQueueGrow', requires=lambda c: [que(c, c.queue).ok(), que(c, c.queue).head == que(c, c.queue).tail], ensures=grow_ens,
                       modifies=(Que.F - {'pqueuecell.head'}) | {E64, AL}, loops=[Loop(l1), Loop(l2)]))

    def alloc_ens(c):
        Q = que(c, c.ret)
        return [('ok', Q.ok()), ('empty', Q.n == 0), ('fresh', And(Select(c.o(AL), c.ret) != 1, Select(c.o(AL), Q.p) != 1, Q.p != c.ret)),
                ('kept', alive_kept(c))] + [('frame.' + f, same_except(c, f, c.ret)) for f in sorted(Que.F)]
    cs.append(Contract('PQueueAlloc', ensures=alloc_ens, modifies=Que.F | {AL}))

    def store_ens(c):
        Q, Q0 = que(c, c.queue), que(c, c.queue, True)
        return [('ok', Q.ok()), ('len', Q.n == Q0.n + 1), ('last', Q.el(Q0.n) == c.val),
                ('rest', FA([k], Implies(And(k >= 0, k < Q0.n), Q.el(k) == Q0.el(k)), Q.el(k), Q0.el(k)))] + q_frame(c, c.queue)

    def bury_ens(c):
        Q, Q0 = que(c, c.queue), que(c, c.queue, True)
        return [('ok', Q.ok()), ('len', Q.n == Q0.n + 1), ('first', Q.el(0) == c.val),
                ('rest', FA([k], Implies(And(k >= 1, k <= Q0.n), Q.el(k) == Q0.el(k - 1)), Q.el(k))),
                ('rest2', FA([k], Implies(And(k >= 0, k < Q0.n), Q0.el(k) == Q.el(k + 1)), Q0.el(k)))] + q_frame(c, c.queue)
    okq = lambda c: [que(c, c.queue).ok()]
    for nm in ('PQueueStoreInt', 'PQueueStoreP'):
        cs.append(Contract(nm, requires=okq, ensures=store_ens, modifies=QFR, theory=queue_theory))
    for nm in ('PQueueBuryInt', 'PQueueBuryP'):
        cs.append(Contract(nm, requires=okq, ensures=bury_ens, modifies=QFR, theory=queue_theory))
    ne = lambda c: okq(c) + [que(c, c.queue).head != que(c, c.queue).tail]

    def next_ens(c):
        Q, Q0 = que(c, c.queue), que(c, c.queue, True)
        return [('ok', Q.ok()), ('len', Q.n == Q0.n - 1), ('val', c.ret == Q0.el(0)), ('rest', FA([k], Implies(And(k >= 0, k < Q0.n - 1), Q.el(k) == Q0.el(k + 1)), Q.el(k))),
                ('frame.tail', same_except(c, 'pqueuecell.tail', c.queue))]

    def last_ens(c):
        Q, Q0 = que(c, c.queue), que(c, c.queue, True)
        return [('ok', Q.ok()), ('len', Q.n == Q0.n - 1), ('val', c.ret == Q0.el(Q0.n - 1)), ('rest', FA([k], Implies(And(k >= 0, k < Q0.n - 1), Q.el(k) == Q0.el(k)), Q.el(k))),
                ('frame.head', same_except(c, 'pqueuecell.head', c.queue))]
    cs.append(Contract('PQueueGetNext', requires=ne, ensures=next_ens, modifies={'pqueuecell.tail'}, theory=queue_theory))
    cs.append(Contract('PQueueGetLast', requires=ne, ensures=last_ens, modifies={'pqueuecell.head'}, theory=queue_theory))
    cs.append(Contract('PQueueLook', requires=ne, ensures=lambda c: [('val', c.ret == que(c, c.queue).el(0))], theory=queue_theory))
    cs.append(Contract('PQueueLookLast', requires=ne, ensures=lambda c: [('val', c.ret == que(c, c.queue).el(que(c, c.queue).n - 1))], theory=queue_theory))
    cs.append(Contract('PQueueReset', requires=okq, ensures=lambda c: [('empty', que(c, c.queue).n == 0), ('ok', que(c, c.queue).ok())] + [('frame.' + f, same_except(c, f, c.queue)) for f in ('pqueuecell.head', 'pqueuecell.tail')],
                       modifies={'pqueuecell.head', 'pqueuecell.tail'}))
    cs.append(Contract('PQueueCardinality', requires=okq, ensures=lambda c: [('n', c.ret == que(c, c.queue).n)]))
    cs.append(Contract('PQueueTailIndex', requires=okq, ensures=lambda c: [('first', If(que(c, c.queue).n == 0, c.ret == -1, c.ret == que(c, c.queue).tail))]))
    cs.append(Contract('PQueueIncIndex', requires=lambda c: okq(c) + [c.index >= 0, c.index < que(c, c.queue).size],
                       ensures=lambda c: [('next', (lambda Q, nx: If(nx == Q.head, c.ret == -1, c.ret == nx))(que(c, c.queue), If(c.index + 1 == que(c, c.queue).size, IntVal(0), c.index + 1)))],
                       theory=srem_theory))
    cs.append(Contract('PQueueFree', requires=lambda c: [que(c, c.junk).ok()], ensures=lambda c: [('kept', alive_kept(c, c.junk, que(c, c.junk, True).p))], modifies={AL}))
    for x in cs:
        x.theory = (lambda old: lambda c: queue_theory() + (list(old(c)) if old and old is not queue_theory else []))(x.theory)
    return cs


# ------------------------------------------------------------------ growing arrays
class Arr:
    F = {'pdarraycell.integer', 'pdarraycell.size', 'pdarraycell.grow', 'pdarraycell.array'}

    def __init__(self, get, a):
        self.a = a
        self.integer, self.size, self.grow, self.p = (Select(get('pdarraycell.' + f), a) for f in ('integer', 'size', 'grow', 'array'))
        self.arr = Select(get(E64), self.p)
        self.al = get(AL)

    def at(self, i):
        """the unbounded array this one stands for: zero beyond the allocated part"""
        return If(And(i >= 0, i < self.size), Select(self.arr, i), IntVal(0))

    def ok(self):
        return And(self.size >= 1, self.grow >= 0, self.p > 0, self.a > 0, alive(self.al, self.p), alive(self.al, self.a), self.a != self.p)


def pda(c, a, pre=False):
    return Arr(c.o if pre else c.m, a)


AFR = {'pdarraycell.size', 'pdarraycell.array', E64, AL}


def arr_frame(c, a):
    A0 = pda(c, a, True)
    return [('arr', Or(pda(c, a).p == A0.p, Select(c.o(AL), pda(c, a).p) != 1)), ('frame.E', same_except(c, E64, A0.p, fresh_ok=True)), ('kept', alive_kept(c, A0.p)),
            ('frame.size', same_except(c, 'pdarraycell.size', a)), ('frame.array', same_except(c, 'pdarraycell.array', a))]


def array_contracts():
    cs = []
    k, p = Ints('k p')
    DIV = Function('op:sdiv', I, I, I)

    def enl_ens(c):
        A, A0 = pda(c, c.array), pda(c, c.array, True)
        return [('ok', A.ok()), ('covers', A.size > c.idx), ('size', A.size >= A0.size),
                ('content', FA([k], Implies(And(k >= 0, k < A.size), Select(A.arr, k) == A0.at(k)), Select(A.arr, k))),
                ('fresh', Select(c.o(AL), A.p) != 1), ('frame.E', same_except(c, E64, A.p, A0.p)), ('kept', alive_kept(c, A0.p)),
                ('frame.size', same_except(c, 'pdarraycell.size', c.array)), ('frame.array', same_except(c, 'pdarraycell.array', c.array))]

    def l1(c):
        A, A0 = pda(c, c.array), pda(c, c.array, True)
        return [A.size >= A0.size, A.size >= 1, ('frame.size', same_except(c, 'pdarraycell.size', c.array))]

    def l2(c):
        A, A0, i = pda(c, c.array), pda(c, c.array, True), c.v('i')
        return [('i', And(i >= A0.size, i <= A.size)), ('content', FA([k], Implies(And(k >= 0, k < i), Select(A.arr, k) == A0.at(k)), Select(A.arr, k))),
                ('frame.E', same_except(c, E64, A.p, A0.p))]
    # (idx / grow + 1) * grow > idx  and a multiple above the old size: arithmetic of C division
    a, b = Ints('a b')
    divax = [FA([a, b], Implies(And(a >= 0, b > 0), And((DIV(a, b) + 1) * b > a, DIV(a, b) >= 0)), DIV(a, b))]
    cs.append(Contract('PDArrayEnlarge', requires=lambda c: [pda(c, c.array).ok(), c.idx >= pda(c, c.array).size, Or(pda(c, c.array).integer == 0, pda(c, c.array).integer == 1)],
                       ensures=enl_ens, modifies=AFR, memcpy=(E64, 8), loops=[Loop(l1), Loop(l2)], theory=lambda c: divax))

    def al_ens(flag):
        def ens(c):
            A = pda(c, c.ret)
            return [('ok', A.ok()), ('kind', A.integer == flag), ('zero', FA([k], A.at(k) == 0, Select(A.arr, k))), ('fresh', And(Select(c.o(AL), c.ret) != 1, Select(c.o(AL), A.p) != 1)),
                    ('kept', alive_kept(c)), ('size', And(A.size == c.init_size, A.grow == c.grow)), ('frame.E', same_except(c, E64, A.p))] + [('frame.' + f, same_except(c, f, c.ret)) for f in sorted(Arr.F)]
        return ens

    def al_inv(c):
        A, i = pda(c, c.v('handle')), c.v('i')
        return [('i', And(i >= 0, i <= A.size)), ('zero', FA([k], Implies(And(k >= 0, k < i), Select(A.arr, k) == 0), Select(A.arr, k))), ('frame.E', same_except(c, E64, A.p))]
    for nm, fl in (('PDArrayAlloc', 0), ('PDIntArrayAlloc', 1)):
        cs.append(Contract(nm, requires=lambda c: [c.init_size >= 1, c.grow >= 0], ensures=al_ens(fl), modifies=Arr.F | {E64, AL}, loops=[Loop(al_inv)]))
    req = lambda c: [pda(c, c.array).ok(), Or(pda(c, c.array).integer == 0, pda(c, c.array).integer == 1)]

    def upd(c, ix, v):
        A, A0 = pda(c, c.array), pda(c, c.array, True)
        return [('ok', A.ok()), ('content', FA([k], A.at(k) == If(k == ix, v, A0.at(k)), Select(A.arr, k), Select(A0.arr, k)))] + arr_frame(c, c.array)
    for nm in ('PDArrayElementDeleteP', 'PDArrayElementDeleteInt'):
        cs.append(Contract(nm, requires=lambda c: req(c) + [c.idx >= 0], ensures=lambda c: upd(c, c.idx, IntVal(0)), modifies=AFR))
    cs.append(Contract('PDArrayElementIncInt', requires=lambda c: req(c) + [c.idx >= 0],
                       ensures=lambda c: upd(c, c.idx, pda(c, c.array, True).at(c.idx) + c.value) + [('ret', c.ret == pda(c, c.array, True).at(c.idx) + c.value)], modifies=AFR))
    NZ = Function('NZ', A1, I, I)

    def nz(c):
        x = z3.Const('x', A1)
        return [FA([x], NZ(x, 0) == 0, NZ(x, IntVal(0))),
                FA([x, k], Implies(k >= 0, NZ(x, k + 1) == NZ(x, k) + If(Select(x, k) != 0, IntVal(1), IntVal(0))), (NZ(x, k), Select(x, k)))]
    cs.append(Contract('PDArrayMembers', requires=req, ensures=lambda c: [('count', c.ret == NZ(pda(c, c.array).arr, pda(c, c.array).size))], theory=nz, modifies=AFR,
                       loops=[Loop(lambda c: [And(c.v('i') >= 0, c.v('i') <= pda(c, c.array, True).size), c.v('res') == NZ(pda(c, c.array, True).arr, c.v('i'))] + unch(c))]))

    def unch(c):
        A, A0 = pda(c, c.array), pda(c, c.array, True)
        return [('same', And(A.size == A0.size, A.p == A0.p, A.arr == A0.arr, A.ok())), ('sameE', c.m(E64) == c.o(E64)), ('sameAL', c.m(AL) == c.o(AL)),
                ('same2', And(c.m('pdarraycell.size') == c.o('pdarraycell.size'), c.m('pdarraycell.array') == c.o('pdarraycell.array')))]

    def fu_ens(c):
        A = pda(c, c.array, True)
        return [('range', And(c.ret >= 0, c.ret <= A.size)), ('used', Implies(c.ret > 0, A.at(c.ret - 1) != 0)),
                ('free', FA([k], Implies(k >= c.ret, A.at(k) == 0), Select(A.arr, k)))] + unch(c)
    cs.append(Contract('PDArrayFirstUnused', requires=req, ensures=fu_ens, modifies=AFR,
                       loops=[Loop(lambda c: [And(c.v('i') >= 0, c.v('i') <= pda(c, c.array, True).size),
                                              FA([k], Implies(k >= c.v('i'), pda(c, c.array, True).at(k) == 0), Select(pda(c, c.array, True).arr, k))] + unch(c))]))
    st_ens = lambda c: [('slot', And(c.ret >= 0, Implies(c.ret > 0, pda(c, c.array, True).at(c.ret - 1) != 0))),
                        ('free', FA([k], Implies(k >= c.ret, pda(c, c.array, True).at(k) == 0), Select(pda(c, c.array, True).arr, k)))] + upd(c, c.ret, c.arg('value') if c.has('value') else c.arg('value.coerce'))
    for nm in ('PDArrayStore', 'PDArrayStoreP', 'PDArrayStoreInt'):
        cs.append(Contract(nm, requires=req, ensures=st_ens, modifies=AFR))

    def cp_ens(c):
        A, R = pda(c, c.array, True), pda(c, c.ret)
        return [('ok', R.ok()), ('content', FA([k], R.at(k) == A.at(k), Select(R.arr, k))), ('fresh', Select(c.o(AL), c.ret) != 1), ('frame.E', same_except(c, E64, fresh_ok=True))]

    def cp_inv(c):
        A, R, i = pda(c, c.array, True), pda(c, c.v('handle')), c.v('i')
        return [('i', And(i >= 0, i <= A.size)), ('R', And(R.ok(), R.size == A.size, Select(c.o(AL), R.p) != 1)), ('els', FA([k], Implies(And(k >= 0, k < i), Select(R.arr, k) == Select(A.arr, k)), Select(R.arr, k))),
                ('frame.E', same_except(c, E64, fresh_ok=True))]
    cs.append(Contract('PDArrayCopy', requires=req, ensures=cp_ens, modifies=Arr.F | {E64, AL}, loops=[Loop(cp_inv)]))

    def add_req(c):
        return [pda(c, c.collect).ok(), pda(c, c.data).ok(), c.limit >= 0, c.collect != c.data, pda(c, c.collect).p != pda(c, c.data).p, c.collect != pda(c, c.data).p, c.data != pda(c, c.collect).p] + \
               [Or(pda(c, x).integer == 0, pda(c, x).integer == 1) for x in (c.collect, c.data)]

    def add_part(c, n):
        C, C0, D, D0 = pda(c, c.collect), pda(c, c.collect, True), pda(c, c.data), pda(c, c.data, True)
        return [('ok', And(C.ok(), D.ok(), C.p != D.p, C.p != c.data, D.p != c.collect)), ('sum', FA([k], C.at(k) == If(And(k >= 0, k < n), C0.at(k) + D0.at(k), C0.at(k)), Select(C.arr, k), Select(C0.arr, k))),
                ('data', FA([k], D.at(k) == D0.at(k), Select(D.arr, k), Select(D0.arr, k))),
                ('fresh', And([Or(X.p == C0.p, X.p == D0.p, Select(c.o(AL), X.p) != 1) for X in (C, D)])),
                ('frame.E', same_except(c, E64, C0.p, D0.p, fresh_ok=True)), ('kept', alive_kept(c, C0.p, D0.p))]
    cs.append(Contract('PDArrayAdd', requires=add_req, ensures=lambda c: add_part(c, c.limit), modifies=AFR,
                       loops=[Loop(lambda c: [('i', And(c.v('i') >= 0, c.v('i') <= c.limit))] + add_part(c, c.v('i')))]))
    cs.append(Contract('PDArrayFree', requires=lambda c: [pda(c, c.junk).ok()], ensures=lambda c: [('kept', alive_kept(c, c.junk, pda(c, c.junk, True).p))], modifies={AL}))
    return cs


def contracts():
    return [c_SizeMalloc(), c_SizeFree()] + stack_contracts() + queue_contracts() + array_contracts()


def LEMMAS():
    return {}
