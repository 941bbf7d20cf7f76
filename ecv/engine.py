"""Deductive verifier: contracts + loop invariants over LLVM IR of the real C code.

Every function under contract is verified on its own: its body is executed
symbolically from an arbitrary state satisfying `requires`; loops are cut at
their headers by invariants; calls to functions under contract are replaced by
the contract; calls to functions without a contract are inlined.  Each path
yields obligations that are handed to Z3 (and, if it gives up, to other
configurations).

Machine model (the assumptions this leaves open are listed in ASSUMPTIONS):
integers and pointers are mathematical integers, memory is one map per struct
field / element type."""
import re, time, itertools, sys, os
import z3
from .llir import Module, PTR, I1

ASSUMPTIONS = [
    "machine arithmetic is treated as mathematical (no signed overflow, no wrap-around of counters)",
    "memory is separated by struct field and element type (no access of one field through a pointer of another type)",
    "calls of external functions without a contract (printf family, abort) do not change prover data",
    "partial correctness: termination is not proved",
    "allocation succeeds and yields a block disjoint from all live ones",
]


class Unsupported(Exception):
    pass


class SpecError(Exception):
    """the spec does not fit the code any more (missing role, missing function)"""


IntS = z3.IntSort()
AI = z3.ArraySort(IntS, IntS)

_cnt = itertools.count()


def fresh(name, sort=IntS):
    return z3.Const("%s!%d" % (name, next(_cnt)), sort)


def sort_of(ty):
    if ty == I1:
        return z3.BoolSort()
    if ty[0] in ('i', 'ptr'):
        return IntS
    if ty[0] == 'fp':
        return z3.RealSort()
    raise Unsupported("type %r" % (ty,))


def rng(v, ty):
    if ty[0] == 'i' and ty[1] > 1:
        n = ty[1]
        return [v >= -(1 << (n - 1)), v < (1 << (n - 1))]
    if ty[0] == 'ptr':
        return [v >= 0]
    return []


class Addr:
    """address of a memory cell that is not (only) a plain pointer value"""
    __slots__ = ('key', 'base', 'idx', 'ty')

    def __init__(self, key, base, idx, ty):
        self.key, self.base, self.idx, self.ty = key, base, idx, ty

    def __repr__(self):
        return "&%s(%s,%s)" % (self.key, self.base, self.idx)


class Agg:
    """first-class aggregate value"""

    def __init__(self, vals):
        self.vals = vals


BIT = {}
# tagged pointers: UNTAG4(x) = x & ~3, TAG4(x) = x & 3, AL8(x): x is 8-aligned
UNTAG4 = z3.Function('untag4', IntS, IntS)
TAG4 = z3.Function('tag4', IntS, IntS)
AL8 = z3.Function('al8', IntS, z3.BoolSort())


def bit(k, x):
    """k-th bit of x, as a boolean"""
    if z3.is_int_value(x):
        return z3.BoolVal(bool((x.as_long() >> k) & 1))
    f = BIT.get(k)
    if f is None:
        f = BIT[k] = z3.Function("bit%d" % k, IntS, z3.BoolSort())
    return f(x)


def flag(x, mask):
    """all bits of mask set in x"""
    return z3.And([bit(k, x) for k in range(64) if (mask >> k) & 1])


def anyflag(x, mask):
    return z3.Or([bit(k, x) for k in range(64) if (mask >> k) & 1])


class Program:
    """a set of modules; resolves functions and types"""

    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.ext = {}
        for m in self.mods:
            for f in m.funcs.values():
                if not f.internal:
                    self.ext.setdefault(f.name, f)
        self.enums = {}
        for m in self.mods:
            self.enums.update(m.enums)

    def lookup(self, name, mod=None):
        if mod is not None and name in mod.funcs:
            return mod.funcs[name]
        if name in self.ext:
            return self.ext[name]
        if mod is None:
            for m in self.mods:
                if name in m.funcs:
                    return m.funcs[name]
        return None

    def struct(self, name, mod):
        s = mod.structs.get(name)
        if s is None:
            for m in self.mods:
                if m.structs.get(name) is not None:
                    return m.structs[name]
        return s


def tyname(ty, prog=None, mod=None):
    if ty[0] == 'i':
        return 'w64' if ty[1] == 64 else 'i%d' % ty[1]
    if ty[0] == 'ptr':
        return 'w64'
    if ty[0] == 'fp':
        return ty[1]
    if ty[0] == 'struct':
        if ty[1].startswith('union.'):
            return 'w64'
        return re.sub(r'\.\d+$', '', re.sub(r'^(struct|union)\.', '', ty[1]))
    raise Unsupported("element type %r" % (ty,))


class Frame:
    __slots__ = ('f', 'env', 'block', 'prev', 'ip', 'res', 'loops', 'path', 'dbg')

    def __init__(self, f, env, path):
        self.f = f
        self.env = env
        self.block = f.order[0]
        self.prev = None
        self.ip = 0
        self.res = None
        self.loops = []
        self.path = path
        self.dbg = {}

    def copy(self):
        n = Frame.__new__(Frame)
        n.f, n.env, n.block, n.prev, n.ip, n.res = self.f, dict(self.env), self.block, self.prev, self.ip, self.res
        n.loops = list(self.loops)
        n.path = self.path
        n.dbg = dict(self.dbg)
        return n


class State:
    __slots__ = ('mem', 'epoch', 'locals', 'pc', 'frames', 'ghost', 'trace')

    def copy(self):
        n = State.__new__(State)
        n.mem = dict(self.mem)
        n.epoch = self.epoch
        n.locals = dict(self.locals)
        n.pc = list(self.pc)
        n.frames = [f.copy() for f in self.frames]
        n.ghost = dict(self.ghost)
        n.trace = list(self.trace)
        return n


class LoopRec:
    __slots__ = ('header', 'spec', 'mem', 'epoch', 'locals', 'phis', 'wkeys', 'wlocals', 'name', 'roles', 'env')


class Ctx:
    """what a contract clause sees.  c.<param> is the argument value; c.m(key) the
    memory map in the current (post) state, c.o(key) in the pre state."""

    def __init__(self, ver, args, pre, post, ret=None):
        self._ver, self._args, self._pre, self._post = ver, args, pre, post
        self.ret = ret

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        if n in self._args:
            return self._args[n]
        raise SpecError("no parameter/variable %s" % n)

    def has(self, n):
        return n in self._args

    def arg(self, n):
        return self.__getattr__(n)

    def m(self, key):
        return self._ver.named(self._ver.getmem(self._post, key), key)

    def o(self, key):
        return self._ver.named(self._ver.getmem(self._pre, key), key)

    def cell(self, n):
        """content of the memory cell that pointer argument n points to, post state"""
        return self._ver.load_addr(self._post, self._args[n])

    def ocell(self, n):
        return self._ver.load_addr(self._pre, self._args[n])

    def g(self, k):
        return self._post.ghost.get(k)

    def og(self, k):
        return self._pre.ghost.get(k)

    @property
    def enums(self):
        return self._ver.prog.enums


class InvCtx(Ctx):
    """context of a loop invariant; c.v(name) is the current value of a local"""

    def __init__(self, ver, st, rec, fr, args, pre):
        Ctx.__init__(self, ver, args, pre, st)
        self._rec, self._fr, self._st = rec, fr, st

    def v(self, name, ty=None):
        return self._ver.local_value(self._st, self._fr, self._rec, name, ty)

    def hasv(self, name):
        try:
            self.v(name)
            return True
        except SpecError:
            return False

    def e(self, key):
        """memory at loop entry"""
        return self._ver.named(self._ver.getmem(self._rec, key), key)

    def ev(self, name):
        """value of phi at loop entry"""
        return self._ver.local_value(self._st, self._fr, self._rec, name, None, entry=True)


class Contract:
    def __init__(self, name, requires=None, ensures=None, modifies=(), cells=None, loops=(), theory=None,
                 frozen=(), trusted=False, assigns_note=None, pure=False, ret_range=True, inline=(), doc='',
                 cell_mod=(), memcpy=None, on_exit=None, lemmas=None, timeout=None, fresh_ret=False, ghosts=None,
                 callees=None, noreturn=False, unroll=None, ite=False):
        self.ite = ite
        self.name = name
        self.requires = requires or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.modifies = set(modifies)
        self.cells = cells or {}
        self.cell_mod = set(cell_mod)
        self.loops = list(loops)
        self.theory = theory
        self.frozen = set(frozen)
        self.trusted = trusted
        self.inline = set(inline)
        self.doc = doc
        self.memcpy = memcpy
        self.timeout = timeout
        self.lemmas = lemmas
        self.fresh_ret = fresh_ret
        self.ghosts = ghosts or {}
        self.noreturn = noreturn
        self.callees = callees or {}
        self.unroll = unroll


class Loop:
    def __init__(self, inv=None, roles=None, unroll=None, extra_havoc=()):
        self.inv = inv or (lambda c: [])
        self.roles = roles or {}
        self.unroll = unroll
        self.extra_havoc = set(extra_havoc)


def srcname(p):
    return re.sub(r'(\.addr)?(\.\d+)*(\.ph)?(\.lcssa)?(\.\d+)*$', '', p)


_hq = {}


def has_quant(e):
    i = e.get_id()
    r = _hq.get(i)
    if r is None:
        if z3.is_quantifier(e):
            r = True
        else:
            r = any(has_quant(c) for c in e.children())
        _hq[i] = (r, e)
        return r
    return r[0]


def norm(clauses, default):
    out = []
    for i, c in enumerate(clauses):
        if isinstance(c, tuple):
            out.append(c)
        else:
            out.append(("%s%d" % (default, i), c))
    return out


class Obligation:
    def __init__(self, func, label, line, ok, status, secs, backend, detail=''):
        self.func, self.label, self.line, self.ok, self.status, self.secs, self.backend, self.detail = \
            func, label, line, ok, status, secs, backend, detail

    def asdict(self):
        return dict(function=self.func, label=self.label, line=self.line, ok=self.ok, status=self.status,
                    secs=round(self.secs, 3), backend=self.backend, detail=self.detail)


NOEFFECT = {'printf', 'fprintf', 'putchar', 'puts', 'fputs', 'fputc', 'fflush', 'putc', 'fwrite', '_IO_putc',
            'perror'}
NORETURN = {'abort', 'exit', '__assert_fail', 'Error', 'SysError', '_exit', 'llvm.trap'}


class Verifier:
    def __init__(self, prog, contracts, timeout=20.0, max_paths=4000, verbose=False, keyinfo=None, max_depth=14):
        self.prog = prog
        self.contracts = {c.name: c for c in contracts}
        self.timeout = timeout
        self.max_paths = max_paths
        self.verbose = verbose
        self.keysort = dict(keyinfo or {})
        self.max_depth = max_depth
        self.strs = {}

    # ---------------------------------------------------------------- memory
    def keyinfo(self, key, indexed, sort):
        ki = self.keysort.get(key)
        if ki is None:
            self.keysort[key] = (indexed, sort)
        elif ki != (indexed, sort):
            raise Unsupported("memory key %s used with two shapes" % (key,))

    def map_sort(self, key):
        ki = self.keysort.get(key)
        if ki is None:
            # shape not met in the code yet: derive from naming convention
            if key.startswith('g:'):
                ki = (None, IntS)
            elif key.endswith('[]') or key.startswith('elem:'):
                ki = (True, IntS)
            else:
                ki = (False, IntS)
            self.keysort[key] = ki
        ind, s = ki
        if ind is None:
            return s
        if ind == 'g[]':
            return z3.ArraySort(IntS, s)
        if ind:
            return z3.ArraySort(IntS, z3.ArraySort(IntS, s))
        return z3.ArraySort(IntS, s)

    def getmem(self, st, key):
        v = st.mem.get(key)
        if v is None:
            v = z3.Const("%s@%d" % (key, st.epoch), self.map_sort(key))
            st.mem[key] = v
        return v

    def named(self, v, key):
        """a constant equal to v (so that v can occur in triggers)"""
        if v.num_args() == 0 or self.dry:
            return v
        r = self.names.get(v.get_id())
        if r is None:
            c = fresh(key + '#', v.sort())
            self.names[v.get_id()] = r = (c, v)
            self.base_facts.append(c == v)
        return r[0]

    def setmem(self, st, key, v):
        self.note_write(st, key)
        st.mem[key] = v

    def note_write(self, st, key):
        for w in self.wsets:
            w[0].add(key)
        if not self.dry:
            for fr in st.frames:
                for rec in fr.loops:
                    if key not in rec.wkeys and key not in rec.spec.extra_havoc:
                        self.extra_w.setdefault(rec.name, set()).add(key)
                        raise Restart()

    def note_local(self, st, lid):
        for w in self.wsets:
            w[1].add(lid)
        if not self.dry:
            for fr in st.frames:
                for rec in fr.loops:
                    if lid not in rec.wlocals and lid in rec.locals:
                        self.extra_wl.setdefault(rec.name, set()).add(lid)
                        raise Restart()

    def load_addr(self, st, a, ty=None):
        if not isinstance(a, Addr):
            if ty is None:
                ty = ('i', 64)
            a = self.plain_addr(a, ty)
        if isinstance(a.key, tuple):
            return st.locals[a.key]
        sort = sort_of(ty) if ty is not None else None
        if a.base is None:
            if a.idx is not None:
                if sort is not None:
                    self.keyinfo(a.key, 'g[]', sort)
                return z3.Select(self.getmem(st, a.key), a.idx)
            if sort is not None:
                self.keyinfo(a.key, None, sort)
            return self.getmem(st, a.key)
        if a.idx is not None:
            if sort is not None:
                self.keyinfo(a.key, True, sort)
            return z3.Select(z3.Select(self.getmem(st, a.key), a.base), a.idx)
        if sort is not None:
            self.keyinfo(a.key, False, sort)
        return z3.Select(self.getmem(st, a.key), a.base)

    def store_addr(self, st, a, v, ty):
        if not isinstance(a, Addr):
            a = self.plain_addr(a, ty)
        if isinstance(a.key, tuple):
            st.locals[a.key] = v
            self.note_local(st, a.key)
            return
        if isinstance(v, Addr):
            v = self.as_int(v)
        sort = sort_of(ty)
        if a.base is None:
            if a.idx is not None:
                self.keyinfo(a.key, 'g[]', sort)
                self.setmem(st, a.key, z3.Store(self.getmem(st, a.key), a.idx, v))
            else:
                self.keyinfo(a.key, None, sort)
                self.setmem(st, a.key, v)
            return
        if a.idx is not None:
            self.keyinfo(a.key, True, sort)
            m = self.getmem(st, a.key)
            self.setmem(st, a.key, z3.Store(m, a.base, z3.Store(z3.Select(m, a.base), a.idx, v)))
        else:
            self.keyinfo(a.key, False, sort)
            self.setmem(st, a.key, z3.Store(self.getmem(st, a.key), a.base, v))

    def plain_addr(self, p, ty):
        return Addr('elem:' + tyname(ty), p, z3.IntVal(0), ty)

    def as_int(self, v):
        if isinstance(v, Addr):
            if isinstance(v.key, str) and v.key.startswith('elem:') and z3.is_int_value(v.idx) and v.idx.as_long() == 0:
                return v.base
            if v.key in self.escapable:
                f = z3.Function("addr:" + v.key, IntS, IntS)
                return f(v.base)
            raise Unsupported("address %r escapes into a plain pointer" % (v,))
        return v

    # ---------------------------------------------------------------- values
    def val(self, st, fr, op, ty):
        k = op[0]
        if k == 'local':
            try:
                return fr.env[op[1]]
            except KeyError:
                raise Unsupported("undefined value %%%s" % op[1])
        if k == 'int':
            if ty == I1:
                return z3.BoolVal(bool(op[1]))
            return z3.IntVal(op[1])
        if k == 'null':
            return z3.IntVal(0)
        if k == 'undef':
            return fresh('undef', sort_of(ty))
        if k == 'zero':
            return z3.BoolVal(False) if ty == I1 else z3.IntVal(0)
        if k == 'fp':
            return self.fpval(op[1])
        if k == 'global':
            return self.global_val(fr.f.mod, op[1])
        if k == 'cgep':
            return self.gep(st, fr, op[1], self.val(st, fr, op[2], PTR), [(t, self.val(st, fr, v, t)) for t, v in op[3]])
        if k == 'cast':
            return self.val(st, fr, op[3], op[2])
        raise Unsupported("operand %r" % (op,))

    def fpval(self, s):
        if s.startswith('0x'):
            import struct
            d = struct.unpack('>d', bytes.fromhex(s[2:].zfill(16)))[0]
        else:
            d = float(s)
        if d != d or d in (float('inf'), float('-inf')):
            return fresh('fp', z3.RealSort())
        from fractions import Fraction
        fr = Fraction(d)
        return z3.RealVal(fr.numerator) / z3.RealVal(fr.denominator)

    def global_val(self, mod, name):
        if self.prog.lookup(name, mod) is not None or name in mod.decls:
            return z3.Int('fn:' + name)
        d = mod.globals.get(name)
        if d is None:
            raise Unsupported("global %s" % name)
        m = re.search(r'c"((?:[^"\\]|\\.)*)"', d)
        if ' constant [' in d and m:
            s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda q: chr(int(q.group(1), 16)), m.group(1)).rstrip('\0')
            c = z3.Int('str:' + s)
            self.strs[str(c)] = s
            self.base_facts.append(c > 0)
            return c
        m = re.search(r'\b(?:global|constant) (.*)', d)
        from .llir import TS, tokenize, parse_type
        ty = parse_type(TS(tokenize(m.group(1).split(',')[0] if m.group(1)[0] not in '[{<' else m.group(1))))
        linkage = 'static:' + mod.path.rsplit('/', 1)[-1] + ':' if ' internal ' in d else ''
        if ty[0] == 'struct' or ty[0] == 'lit':
            c = z3.Int('gobj:' + name)
            self.base_facts.append(c > 0)
            return c
        return Addr('g:' + name, None, None, ty)

    def gep(self, st, fr, sty, base, idx):
        mod = fr.f.mod
        i0 = idx[0][1]
        rest = idx[1:]
        cur = None
        zero0 = z3.is_int_value(i0) and i0.as_long() == 0
        if isinstance(base, Addr):
            if zero0:
                cur = Addr(base.key, base.base, base.idx, sty)
            elif base.idx is not None:
                # pointer arithmetic inside an array
                cur = Addr(base.key, base.base, z3.simplify(base.idx + i0), sty)
            elif isinstance(base.key, str) and base.base is None:
                cur = Addr(base.key, None, i0, sty)
            else:
                raise Unsupported("pointer arithmetic on %r" % (base,))
        else:
            if sty[0] == 'struct' and not sty[1].startswith('union.'):
                p = base
                if not zero0:
                    p = base + i0 * self.sizeof(sty, mod)
                if not rest:
                    return p
                cur = Addr(None, p, None, sty)
            elif sty[0] == 'arr':
                if not zero0:
                    raise Unsupported("gep over arrays")
                cur = Addr(None, base, None, sty)
            elif sty[0] == 'struct':   # union
                cur = Addr('elem:w64', base, i0, sty)
            else:
                if zero0 and not rest:
                    return base
                cur = Addr('elem:' + tyname(sty), base, i0, sty)
        ty = sty
        for n, (ity, iv) in enumerate(rest):
            if ty[0] == 'struct':
                s = self.prog.struct(ty[1], mod)
                if s is None:
                    raise Unsupported("opaque struct %s" % ty[1])
                if ty[1].startswith('union.'):
                    ty = s[1][iv.as_long()]
                    cur = Addr(cur.key, cur.base, cur.idx, ty)
                    continue
                k = iv.as_long()
                sn, fn = mod.field_name(ty[1], k)
                ety = s[1][k]
                if cur.key is None:
                    key = "%s.%s" % (sn, fn)
                else:
                    key = "%s.%s" % (cur.key, fn)
                cur = Addr(key, cur.base, cur.idx, ety)
                ty = ety
            elif ty[0] == 'arr':
                ety = ty[2]
                if ety[0] == 'arr':
                    raise Unsupported("2d array")
                if cur.key is None:
                    if ety[0] == 'struct' and not ety[1].startswith('union.'):
                        cur = Addr(None, cur.base + iv * self.sizeof(ety, mod), None, ety)
                        ty = ety
                        continue
                    key = 'elem:' + tyname(ety)
                    cur = Addr(key, cur.base, iv, ety)
                elif isinstance(cur.key, tuple):
                    raise Unsupported("index into local array")
                elif cur.idx is None:
                    key = cur.key if cur.key.startswith('g:') else cur.key + '[]'
                    cur = Addr(key, cur.base, iv, ety)
                else:
                    raise Unsupported("nested array index")
                ty = ety
            elif ty[0] == 'lit':
                raise Unsupported("literal struct gep")
            else:
                raise Unsupported("gep into %r" % (ty,))
        if cur.key is None:
            return cur.base
        # address of an embedded struct: give the embedded object its own identity
        return cur

    def sizeof(self, ty, mod):
        return self._layout(ty, mod)[0]

    def _layout(self, ty, mod):
        if ty[0] == 'i':
            n = max(1, ty[1] // 8)
            return n, n
        if ty[0] == 'ptr':
            return 8, 8
        if ty[0] == 'fp':
            n = {'float': 4, 'double': 8, 'x86_fp80': 16}[ty[1]]
            return n, n
        if ty[0] == 'arr':
            s, a = self._layout(ty[2], mod)
            return s * ty[1], a
        if ty[0] == 'struct':
            return self._layout(self.prog.struct(ty[1], mod), mod)
        if ty[0] == 'lit':
            off = 0
            al = 1
            for t in ty[1]:
                s, a = self._layout(t, mod)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise Unsupported("sizeof %r" % (ty,))

    # ---------------------------------------------------------------- solving
    def axioms_for(self, c, pre):
        ax = []
        if c.theory:
            ax = list(c.theory(Ctx(self, self.top_args, pre, pre)))
        return ax

    def solve(self, pc, goal, timeout=None):
        """returns (status, backend, secs) status in proved/failed/unknown/timeout"""
        t0 = time.time()
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return 'proved', 'simplify', time.time() - t0
        tmo = timeout or self.timeout
        last = 'unknown'
        cfgs = [dict(mbqi=False, seed=0, frac=0.08, simple=True), dict(mbqi=False, seed=0, frac=0.06, simple=True, rel=1),
                dict(mbqi=False, seed=0, frac=0.06, simple=True, rel=0), dict(mbqi=False, seed=0, frac=0.15),
                dict(mbqi=False, seed=7, frac=0.15, simple=True), dict(mbqi=False, seed=3, frac=0.15, simple=True, rel=1), dict(mbqi=False, seed=5, frac=0.15, simple=True, arith=2),
                dict(mbqi=False, seed=7, frac=0.2), dict(mbqi=True, seed=3, frac=0.1)]
        if self.classic:
            cfgs = [dict(mbqi=False, seed=0, frac=0.4), dict(mbqi=False, seed=7, frac=0.3, arith=2), dict(mbqi=False, seed=0, frac=0.1, simple=True, rel=1), dict(mbqi=True, seed=3, frac=0.3)]
        for cf in cfgs:
            s = z3.SimpleSolver() if cf.get('simple') else z3.Solver()
            s.set('timeout', int(1000 * tmo * cf['frac']))
            s.set('auto_config', False)
            s.set('smt.mbqi', cf['mbqi'])
            s.set('smt.random_seed', cf['seed'])
            if 'rel' in cf:
                s.set('smt.relevancy', cf['rel'])
            if 'arith' in cf:
                s.set('smt.arith.solver', cf['arith'])
            for a in self.axioms:
                s.add(a)
            for a in self.base_facts:
                s.add(a)
            for f in BIT.values():
                s.add(z3.Not(f(z3.IntVal(0))))
            for a in pc:
                s.add(a)
            s.add(z3.Not(goal))
            r = s.check()
            nm = 'z3-%s%s' % (z3.get_version_string(), '' if cf is cfgs[0] else '/alt%d' % cfgs.index(cf))
            if r == z3.unsat:
                return 'proved', nm, time.time() - t0
            if r == z3.sat:
                self.last_model = s.model()
                return 'failed', nm, time.time() - t0
            rs = s.reason_unknown()
            last = 'timeout' if ('timeout' in rs or 'cancel' in rs or 'resource' in rs) else 'unknown'
            if self.quick_fail and last == 'unknown':
                break
        return last, nm, time.time() - t0

    def oblige(self, st, label, goal, line):
        if self.dry:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        key = (label, line)
        # split conjunctions
        goals = []

        def flat(g):
            if z3.is_and(g):
                for x in g.children():
                    flat(x)
            else:
                goals.append(g)
        flat(goal)
        for g in goals:
            status, be, secs = self.solve(st.pc, g, self.cur.timeout)
            ob = Obligation(self.cur.name, label, line, status == 'proved', status, secs, be)
            if not ob.ok and os.environ.get('ECV_DUMP'):
                sv = z3.Solver()
                for a in self.axioms + self.base_facts + st.pc:
                    sv.add(a)
                sv.add(z3.Not(g))
                open(os.path.join(os.environ['ECV_DUMP'], '%s.%d.smt2' % (label, len(self.obs))), 'w').write(sv.to_smt2())
            if not ob.ok:
                ob.detail = "path: %s | goal: %s" % ('>'.join(str(x) for x in st.trace[-12:]), str(z3.simplify(g))[:600])
                if self.verbose:
                    print("   FAIL %s %s line %s: %s" % (self.cur.name, label, line, status))
                    if self.verbose > 1:
                        print(ob.detail)
            self.obs.append(ob)
            if not ob.ok:
                self.nfail += 1
                if self.nfail >= self.max_fail:
                    raise TooManyFailures()

    def feasible(self, pc):
        s = z3.Solver()
        s.set('timeout', 400)
        for a in self.base_facts:
            s.add(a)
        for a in pc:
            if not z3.is_quantifier(a):
                s.add(a)
        return s.check() != z3.unsat

    # ---------------------------------------------------------------- locals by source name
    def local_value(self, st, fr, rec, name, ty, entry=False):
        alias = rec.roles.get(name)
        if alias is not None:
            if entry:
                return rec.phis[alias]
            return fr.env[alias]
        env = rec.phis if entry else fr.env
        # header phi that the debug information (or its name) ties to the variable
        for ins in fr.f.blocks[rec.header].ins:
            if ins.op == 'phi':
                continue
            if ins.op != 'dbgval':
                break
            if ins.a[1] == name and ins.a[0][0] == 'local' and ins.a[0][1] in rec.phis:
                return env[ins.a[0][1]]
        for p in rec.phis:
            if srcname(p) == name:
                return env[p]
        if name in fr.dbg:
            v = fr.dbg[name]
            if isinstance(v, tuple):
                a = v[1]
                if isinstance(a, Addr) and isinstance(a.key, tuple):
                    return (rec.locals if entry else st.locals)[a.key]
                return a
            return v
        for lid in st.locals:
            if srcname(lid[1]) == name and lid[2] == fr.path:
                return (rec.locals if entry else st.locals)[lid]
        if name in fr.env:
            return fr.env[name]
        for fr2 in reversed(st.frames[:-1]):
            if name in fr2.dbg:
                v = fr2.dbg[name]
                if isinstance(v, tuple):
                    a = v[1]
                    if isinstance(a, Addr) and isinstance(a.key, tuple):
                        return (rec.locals if entry else st.locals)[a.key]
                    return a
                return v
        if name in self.top_args:
            return self.top_args[name]
        raise SpecError("no local named %s at loop %s" % (name, rec.name))

    # ---------------------------------------------------------------- driver
    def verify(self, cname, role_choice=None):
        """verify function cname against its contract; returns list of obligations"""
        c = self.contracts[cname]
        f = self.prog.lookup(cname)
        if f is None:
            raise SpecError("function %s not found" % cname)
        self.extra_w = {}
        self.extra_wl = {}
        for attempt in range(8):
            try:
                return self._verify(c, f, role_choice)
            except Restart:
                continue
        raise Unsupported("write sets do not stabilise")

    def verify_roles(self, cname):
        self.used, self.inlined = set(), set()
        return self.verify(cname)

    def _verify(self, c, f, role_choice):
        f.parse()
        self.cur = c
        self.obs = []
        self.nfail = 0
        self.max_fail = 6
        self.dry = False
        self.wsets = []
        self.base_facts = []
        self.names = {}
        self.quick_fail = False
        self.role_choice = role_choice or {}
        self.loop_ids = {}
        self.static_loops(f, c)
        self.nret = 0
        self.vac_ok = False
        self.npaths = 0
        st = State()
        st.mem = {}
        st.epoch = 0
        st.locals = {}
        st.pc = []
        st.ghost = {}
        st.trace = []
        st.frames = []
        env = {}
        args = {}
        for nm, ty in f.params:
            if nm in c.cells:
                lid = ('P', nm, ())
                st.locals[lid] = z3.Const(nm + '^0', sort_of(c.cells[nm]))
                for r in rng(st.locals[lid], c.cells[nm]):
                    st.pc.append(r)
                v = Addr(lid, None, None, c.cells[nm])
            else:
                v = z3.Const('p.' + nm, sort_of(ty))
                st.pc += rng(v, ty)
            env[nm] = v
            args[nm] = v
        for g, srt in c.ghosts.items():
            st.ghost[g] = z3.Const('ghost:' + g, srt)
        self.top_args = args
        self.pre = st.copy()
        pre = self.pre
        self.axioms = []
        self.axioms = self.axioms_for(c, pre)
        for lab, r in norm(c.requires(Ctx(self, args, pre, pre)), 'req'):
            st.pc.append(r)
        # the pre state shares lazily created maps through epoch 0 naming
        fr = Frame(f, env, ())
        st.frames = [fr]
        self.work = [st]
        self.pool = {}
        try:
            while self.work or self.pool:
                if not self.work:
                    self.merge_pool()
                s = self.work.pop()
                self.npaths += 1
                if self.npaths > self.max_paths:
                    raise Unsupported("too many paths in %s" % c.name)
                self.run(s)
        except TooManyFailures:
            pass
        if self.nret == 0 and not c.noreturn and not self.nfail:
            self.obs.append(Obligation(c.name, 'vacuity:no-return-path', None, False, 'vacuous', 0, 'engine'))
        elif not self.vac_ok and not self.nfail and not c.noreturn:
            self.obs.append(Obligation(c.name, 'vacuity:contradictory-assumptions', None, False, 'vacuous', 0, 'engine'))
        return self.obs

    def static_loops(self, f, c):
        """number the loops of f and of the helpers that will be inlined, in source order"""
        out = []
        seen = set()

        def go(f, path):
            f.parse()
            for bn in f.order:
                if bn not in f.reachable:
                    continue
                if bn in f.loops:
                    out.append((path, f.name, bn))
                for k, ins in enumerate(f.blocks[bn].ins):
                    if ins.op == 'call' and ins.a[0][0] == 'global':
                        n = ins.a[0][1]
                        if n in self.contracts and n not in c.inline and not (n == c.name and False):
                            continue
                        if n.startswith('llvm.') or n in NOEFFECT or n in NORETURN or n in c.callees:
                            continue
                        g = self.prog.lookup(n, f.mod)
                        if g is None or len(path) > 6 or n == f.name:
                            continue
                        go(g, path + ((bn, k, n),))
        go(f, ())
        self.loop_ids = {(p, fn, b): i for i, (p, fn, b) in enumerate(out)}
        self.loop_list = out
        if len(out) != len(c.loops):
            raise SpecError("loop structure changed: %d loops, %d invariants" % (len(out), len(c.loops)))

    # ---------------------------------------------------------------- execution
    def run(self, st):
        while True:
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.block]
            ins = blk.ins[fr.ip]
            r = self.step(st, fr, ins)
            if r is False:
                return

    def goto(self, st, fr, target):
        """transfer control; returns False if this path ends here"""
        f = fr.f
        cur = fr.block
        # leaving loops
        fr.loops = [r for r in fr.loops if target in f.loops[r.header]]
        if self.dry:
            vis = self.dry_visited[-1]
            top = self.dry_loop[-1]
            if len(st.frames) == top[2] and target not in top[1].loops[top[0]]:
                return False       # left the loop that is being scanned
        phis = []
        for ins in f.blocks[target].ins:
            if ins.op != 'phi':
                break
            for v, b in ins.a:
                if b == cur:
                    phis.append((ins, self.val(st, fr, v, ins.ty)))
                    break
            else:
                raise Unsupported("phi without edge")
        if target in f.loops:
            active = [r for r in fr.loops if r.header == target]
            if self.dry and self.dry_loop[-1][0] == target and len(st.frames) == self.dry_loop[-1][2] and self.dry_started[-1]:
                for ins, v in phis:
                    self.dry_latch[-1].setdefault(ins.res, []).append(v)
                return False
            if active:
                rec = active[0]
                for ins, v in phis:
                    fr.env[ins.res] = v
                fr.block, fr.prev = target, cur
                self.check_inv(st, fr, rec, 'preserved')
                return False
            return self.enter_loop(st, fr, target, phis, cur)
        for ins, v in phis:
            fr.env[ins.res] = v
        fr.prev, fr.block, fr.ip = cur, target, len(phis)
        if self.dry:
            key = (fr.path, target)
            if key in self.dry_visited[-1]:
                return False
            self.dry_visited[-1].add(key)
        elif self.merging and f.npreds.get(target, 1) > 1:
            # join point: wait for the other paths that meet here
            key = (fr.path, target)
            rank = tuple((x.f.rpo.get(x.block, 0)) for x in st.frames)
            self.pool.setdefault(key, (rank, []))[1].append(st)
            return False
        return True

    merging = True

    def merge_pool(self):
        """continue at the earliest join point; states that agree on everything but the branch conditions become one"""
        key = min(self.pool, key=lambda k: (-len(self.pool[k][0]), self.pool[k][0]))
        # a caller's join point has to wait for all inlined frames, an earlier block for nothing
        rank, sts = self.pool.pop(key)
        out = []
        for s in sts:
            for o in out:
                if self.try_merge(o, s):
                    break
            else:
                out.append(s)
        self.work.extend(reversed(out))

    @staticmethod
    def same_val(a, b):
        if a is b:
            return True
        if isinstance(a, Addr) or isinstance(b, Addr):
            return isinstance(a, Addr) and isinstance(b, Addr) and a.key == b.key and all(
                (x is y) or (x is not None and y is not None and z3.eq(x, y)) for x, y in ((a.base, b.base), (a.idx, b.idx)))
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return z3.eq(a, b)
        return False

    def same_dict(self, a, b):
        return a.keys() == b.keys() and all(self.same_val(a[k], b[k]) for k in a)

    def try_merge(self, o, s):
        if o.epoch != s.epoch or len(o.frames) != len(s.frames):
            return False
        if not self.same_dict(o.locals, s.locals) or not self.same_dict(o.ghost, s.ghost):
            return False
        for k in set(o.mem) | set(s.mem):
            if not z3.eq(self.getmem(o, k), self.getmem(s, k)):
                return False
        for x, y in zip(o.frames[:-1], s.frames[:-1]):
            if x.f is not y.f or x.block != y.block or x.ip != y.ip or x.path != y.path or len(x.loops) != len(y.loops) or any(p is not q for p, q in zip(x.loops, y.loops)):
                return False
            if not self.same_dict(x.env, y.env):
                return False
        x, y = o.frames[-1], s.frames[-1]
        if x.block != y.block or x.ip != y.ip or len(x.loops) != len(y.loops) or any(p is not q for p, q in zip(x.loops, y.loops)):
            return False
        # phis of the join block
        ites = []
        phis = set()
        for ins in x.f.blocks[x.block].ins:
            if ins.op != 'phi':
                break
            phis.add(ins.res)
            a, b = x.env[ins.res], y.env[ins.res]
            if self.same_val(a, b):
                continue
            if (ins.ty == I1 or self.cur.ite) and isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                ites.append(ins.res)
            else:
                return False
        dom = x.f.dom[x.block]
        for k, v in x.env.items():
            if k in phis or k not in y.env or self.same_val(v, y.env[k]):
                continue
            if x.f.defblock.get(k) in dom:      # still usable after the join
                return False
        n = 0
        while n < len(o.pc) and n < len(s.pc) and (o.pc[n] is s.pc[n] or z3.eq(o.pc[n], s.pc[n])):
            n += 1
        r1, r2 = o.pc[n:], s.pc[n:]
        if len(r1) > 40 or len(r2) > 16 or any(has_quant(e) for e in r1 + r2):
            return False
        g1 = z3.And(r1) if r1 else z3.BoolVal(True)
        g2 = z3.And(r2) if r2 else z3.BoolVal(True)
        env = {k: v for k, v in x.env.items() if k in y.env and self.same_val(v, y.env[k])}
        for k in ites:
            env[k] = z3.simplify(z3.If(g1, x.env[k], y.env[k]))
        x.env = env
        x.dbg = {k: v for k, v in x.dbg.items() if k in y.dbg and (v is y.dbg[k] or self.same_val(v, y.dbg[k]))}
        o.pc = o.pc[:n] + [z3.simplify(z3.Or(g1, g2))]
        if x.prev != y.prev:
            pass
        o.trace = o.trace + ['|']
        return True

    def inv_ctx(self, st, fr, rec):
        return InvCtx(self, st, rec, fr, self.top_args, self.pre)

    def check_inv(self, st, fr, rec, what):
        if self.dry:
            return
        line = self.loop_line(fr, rec.header)
        for lab, g in norm(rec.spec.inv(self.inv_ctx(st, fr, rec)), 'inv'):
            self.oblige(st, "%s.%s.%s" % (rec.name, lab, what), g, line)
            if lab.startswith('hint.'):
                st.pc.append(g)      # asserted, then assumed

    def loop_line(self, fr, header):
        for ins in fr.f.blocks[header].ins:
            l = fr.f.mod.line(ins.line)
            if l:
                return l
        return None

    def enter_loop(self, st, fr, target, phis, cur):
        rec = LoopRec()
        rec.header = target
        lid = self.loop_ids.get((fr.path, fr.f.name, target))
        rec.name = 'loop%s' % lid if lid is not None else 'loop:%s:%s' % (fr.f.name, target)
        specs = self.cur.loops
        rec.spec = specs[lid] if lid is not None and lid < len(specs) and specs[lid] is not None else Loop()
        rec.roles = self.role_choice.get(lid, {})
        # dry run to find what the loop writes
        wkeys, wlocals, latch = self.scan_loop(st, fr, target, phis, cur)
        wkeys |= self.extra_w.get(rec.name, set())
        wlocals |= self.extra_wl.get(rec.name, set())
        rec.wkeys, rec.wlocals = wkeys | rec.spec.extra_havoc, wlocals
        for w in self.wsets:
            w[0].update(wkeys)
            w[1].update(wlocals)
        rec.mem = st.mem
        rec.epoch = st.epoch
        rec.locals = dict(st.locals)
        rec.phis = {}
        for ins, v in phis:
            # normalise pointer kinds
            lv = latch.get(ins.res, [])
            ad = [x for x in lv if isinstance(x, Addr)]
            if not isinstance(v, Addr) and ad:
                if any(x.idx is None or not x.key.startswith('elem:') for x in ad):
                    raise Unsupported("pointer kinds at loop phi")
                v = Addr(ad[0].key, v, z3.IntVal(0), ad[0].ty)
            rec.phis[ins.res] = v
            fr.env[ins.res] = v
        fr.prev, fr.block = cur, target
        if rec.spec.unroll and False:
            pass
        if not self.dry:
            self.check_inv(st, fr, rec, 'init')
        # havoc
        st.mem = dict(st.mem)
        for k in sorted(wkeys | rec.spec.extra_havoc):
            st.mem[k] = fresh(k + '~', self.map_sort(k))
        for l in wlocals:
            old = st.locals.get(l)
            if old is None:
                continue
            st.locals[l] = self.havoc_like(st, l[1], old, None, self.local_ty.get(l))
        for ins, _ in phis:
            v = rec.phis[ins.res]
            fr.env[ins.res] = self.havoc_like(st, ins.res, v, latch.get(ins.res, []), ins.ty)
        fr.loops = fr.loops + [rec]
        fr.ip = len(phis)
        if not self.dry:
            for lab, g in norm(rec.spec.inv(self.inv_ctx(st, fr, rec)), 'inv'):
                st.pc.append(g)
        return True

    def havoc_like(self, st, name, old, latch, ty):
        if isinstance(old, Addr):
            base = old.base
            if latch is None or any((not isinstance(x, Addr)) or x.key != old.key for x in latch):
                if latch is not None:
                    raise Unsupported("pointer kinds at loop phi %s" % name)
            if isinstance(old.key, tuple):
                return old
            nb = base
            if base is not None and (latch is None or any(not z3.eq(x.base, base) for x in latch)):
                nb = fresh(name + '.base')
            ni = old.idx
            if ni is not None:
                ni = fresh(name + '.idx')
            return Addr(old.key, nb, ni, old.ty)
        v = fresh(name, old.sort())
        if ty is not None:
            st.pc += rng(v, ty)
        return v

    def scan_loop(self, st, fr, header, phis, cur):
        """dry run of one iteration: written keys, written locals, latch values of the phis"""
        save_dry, save_work = self.dry, self.work
        ws = (set(), set())
        self.wsets.append(ws)
        self.dry_latch = getattr(self, 'dry_latch', [])
        self.dry_visited = getattr(self, 'dry_visited', [])
        self.dry_loop = getattr(self, 'dry_loop', [])
        self.dry_started = getattr(self, 'dry_started', [])
        kinds = {}
        latch = {}
        for rnd in range(3):
            s = st.copy()
            f2 = s.frames[-1]
            s.pc = []
            for ins, v in phis:
                if ins.res in kinds:
                    v = kinds[ins.res]
                f2.env[ins.res] = v if isinstance(v, Addr) else fresh(ins.res, v.sort())
                if isinstance(v, Addr) and v.idx is not None:
                    f2.env[ins.res] = Addr(v.key, v.base, fresh('i'), v.ty)
            f2.prev, f2.block, f2.ip = cur, header, len(phis)
            self.dry = True
            self.work = [s]
            self.dry_latch.append({})
            self.dry_visited.append(set())
            self.dry_loop.append((header, f2.f, len(s.frames)))
            self.dry_started.append(True)
            n = 0
            try:
                while self.work:
                    x = self.work.pop()
                    n += 1
                    if n > 3000:
                        raise Unsupported("loop scan too large")
                    self.run(x)
            finally:
                self.dry, self.work = save_dry, save_work
                latch = self.dry_latch.pop()
                self.dry_visited.pop()
                self.dry_loop.pop()
                self.dry_started.pop()
            new = {}
            for ins, v in phis:
                for x in latch.get(ins.res, []):
                    if isinstance(x, Addr) and not isinstance(v, Addr):
                        new[ins.res] = Addr(x.key, v, z3.IntVal(0), x.ty)
            if not new or new.keys() == kinds.keys():
                break
            kinds = new
        self.wsets.pop()
        return ws[0], ws[1], latch

    def branch(self, st, fr, alts):
        """alts: list of (cond, target)"""
        live = []
        for cond, tgt in alts:
            cond = z3.simplify(cond)
            if z3.is_false(cond):
                continue
            live.append((cond, tgt))
        todo = []
        for cond, tgt in live:
            if z3.is_true(cond):
                todo.append((None, tgt))
                continue
            if not self.dry and not self.feasible(st.pc + [cond]):
                continue
            todo.append((cond, tgt))
        if not todo:
            return False
        for cond, tgt in todo[1:]:
            s2 = st.copy()
            if cond is not None:
                s2.pc.append(cond)
            s2.trace.append(tgt)
            if self.goto(s2, s2.frames[-1], tgt):
                self.work.append(s2)
        cond, tgt = todo[0]
        if cond is not None:
            st.pc.append(cond)
        st.trace.append(tgt)
        return self.goto(st, fr, tgt)

    def step(self, st, fr, ins):
        op = ins.op
        env = fr.env
        if op == 'dbgval':
            v, nm, kind = ins.a
            try:
                v = self.val(st, fr, v, ins.ty)
                fr.dbg[nm] = ('addr', v) if kind == 'declare' else v
            except Unsupported:
                pass
            fr.ip += 1
            return True
        V = lambda o, ty: self.val(st, fr, o, ty)
        if op == 'load':
            p = V(ins.a, PTR)
            v = self.load_addr(st, p, ins.ty)
            if not isinstance(v, (Addr, Agg)):
                if ins.ty[0] == 'i' and ins.ty[1] > 1 or ins.ty == PTR:
                    if not self.dry and not z3.is_int_value(v):
                        st.pc += rng(v, ins.ty)
            env[ins.res] = v
        elif op == 'store':
            self.store_addr(st, V(ins.a[1], PTR), V(ins.a[0], ins.ty), ins.ty)
        elif op == 'getelementptr':
            env[ins.res] = self.gep(st, fr, ins.a[0], V(ins.a[1], PTR), [(t, V(x, t)) for t, x in ins.a[2]])
        elif op == 'alloca':
            ty, cnt = ins.a
            lid = ('A', ins.res, fr.path)
            if ty[0] in ('i', 'ptr', 'fp') and cnt is None or ty[0] in ('i', 'ptr') and cnt == ('int', 1):
                st.locals[lid] = fresh(ins.res, sort_of(ty))
                self.local_ty[lid] = ty
                env[ins.res] = Addr(lid, None, None, ty)
            else:
                p = fresh('stk.' + ins.res)
                st.pc.append(p > 0)
                al = self.getmem(st, 'ghost:alive')
                st.pc.append(z3.Select(al, p) != 1)
                st.mem['ghost:alive'] = z3.Store(al, p, 1)
                env[ins.res] = p
        elif op == 'icmp':
            env[ins.res] = self.icmp(ins.a[0], V(ins.a[2], ins.a[1]), V(ins.a[3], ins.a[1]), ins.a[1])
        elif op == 'fcmp':
            a, b = V(ins.a[2], ins.a[1]), V(ins.a[3], ins.a[1])
            p = ins.a[0][1:]
            env[ins.res] = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            env[ins.res] = self.binop(st, op, V(ins.a[0], ins.ty), V(ins.a[1], ins.ty), ins.ty)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(ins.a[0], ins.ty), V(ins.a[1], ins.ty)
            env[ins.res] = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
        elif op == 'fneg':
            env[ins.res] = -V(ins.a, ins.ty)
        elif op in ('sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                    'fpext', 'fptrunc'):
            env[ins.res] = self.cast(st, op, V(ins.a[1], ins.a[0]), ins.a[0], ins.ty)
        elif op == 'select':
            c, a, b = V(ins.a[0], I1), V(ins.a[1], ins.ty), V(ins.a[2], ins.ty)
            c = z3.simplify(c)
            if z3.is_true(c):
                env[ins.res] = a
            elif z3.is_false(c):
                env[ins.res] = b
            elif isinstance(a, Addr) or isinstance(b, Addr):
                if isinstance(a, Addr) and isinstance(b, Addr) and a.key == b.key and not isinstance(a.key, tuple):
                    env[ins.res] = Addr(a.key, z3.If(c, a.base, b.base) if a.base is not None else None,
                                        z3.If(c, a.idx, b.idx) if a.idx is not None else None, a.ty)
                else:
                    s2 = st.copy()
                    s2.pc.append(z3.Not(c))
                    s2.frames[-1].env[ins.res] = b
                    s2.frames[-1].ip += 1
                    self.work.append(s2)
                    st.pc.append(c)
                    env[ins.res] = a
            else:
                env[ins.res] = z3.If(c, a, b)
        elif op == 'freeze':
            env[ins.res] = V(ins.a, ins.ty)
        elif op == 'br':
            if len(ins.a) == 1:
                return self.goto(st, fr, ins.a[0])
            c = V(ins.a[0], I1)
            return self.branch(st, fr, [(c, ins.a[1]), (z3.Not(c), ins.a[2])])
        elif op == 'switch':
            v = V(ins.a[0], ins.ty)
            bytgt = {}
            allc = []
            for cv, tgt in ins.a[2]:
                cc = (v == cv) if ins.ty != I1 else (v == z3.BoolVal(bool(cv)))
                bytgt.setdefault(tgt, []).append(cc)
                allc.append(cc)
            alts = [(z3.Or(cs) if len(cs) > 1 else cs[0], t) for t, cs in bytgt.items()]
            alts.append((z3.And([z3.Not(x) for x in allc]), ins.a[1]))
            return self.branch(st, fr, alts)
        elif op == 'ret':
            v = None if ins.a is None else V(ins.a, ins.ty)
            return self.do_ret(st, fr, v, ins)
        elif op == 'unreachable':
            return False
        elif op == 'call':
            return self.call(st, fr, ins)
        elif op == 'extractvalue':
            v = V(ins.a[0], ins.ty)
            for i in ins.a[2]:
                v = v.vals[i]
            env[ins.res] = v
        else:
            raise Unsupported("instruction %s" % op)
        fr.ip += 1
        return True

    local_ty = {}

    def icmp(self, pred, a, b, ty):
        if isinstance(a, Addr) or isinstance(b, Addr):
            if isinstance(a, Addr) and isinstance(b, Addr):
                if a.key == b.key:
                    eq = z3.BoolVal(True)
                    if a.base is not None:
                        eq = z3.And(eq, a.base == b.base)
                    if a.idx is not None:
                        if pred not in ('eq', 'ne'):
                            return self.icmp(pred, a.idx, b.idx, ('i', 64))
                        eq = z3.And(eq, a.idx == b.idx)
                else:
                    eq = z3.BoolVal(False)
            else:
                ad, o = (a, b) if isinstance(a, Addr) else (b, a)
                if z3.is_int_value(o) and o.as_long() == 0:
                    eq = z3.BoolVal(False)
                elif ad.key and isinstance(ad.key, str) and ad.key.startswith('elem:'):
                    eq = z3.And(ad.base == o, ad.idx == 0)
                else:
                    raise Unsupported("pointer comparison")
            return eq if pred == 'eq' else z3.Not(eq)
        if ty == I1:
            return {'eq': lambda: a == b, 'ne': lambda: a != b}[pred]()
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        if pred[0] == 'u' and ty[0] == 'i':
            n = 1 << ty[1]
            ua = self.unsigned(a, n)
            ub = self.unsigned(b, n)
        else:
            ua, ub = a, b
        return {'lt': lambda: ua < ub, 'le': lambda: ua <= ub, 'gt': lambda: ua > ub, 'ge': lambda: ua >= ub}[pred[1:]]()

    def unsigned(self, x, n):
        if z3.is_int_value(x):
            return z3.IntVal(x.as_long() % n)
        return z3.If(x < 0, x + n, x)

    def binop(self, st, op, a, b, ty):
        if ty == I1:
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b)
        if isinstance(a, Addr) or isinstance(b, Addr):
            raise Unsupported("arithmetic on address")
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        if op == 'mul':
            return a * b
        ca = a.as_long() if z3.is_int_value(a) else None
        cb = b.as_long() if z3.is_int_value(b) else None
        if ca is not None and cb is None and op in ('and', 'or', 'xor'):
            a, b, ca, cb = b, a, cb, ca
        if ca is not None and cb is not None:
            n = ty[1]
            M = (1 << n) - 1
            r = {'and': lambda: ca & cb, 'or': lambda: ca | cb, 'xor': lambda: ca ^ cb,
                 'shl': lambda: (ca << cb), 'ashr': lambda: ca >> cb, 'lshr': lambda: (ca & M) >> cb,
                 'sdiv': lambda: int(ca / cb) if cb else 0, 'udiv': lambda: (ca & M) // (cb & M),
                 'srem': lambda: ca - cb * int(ca / cb), 'urem': lambda: (ca & M) % (cb & M)}[op]() & M
            if r >> (n - 1):
                r -= 1 << n
            return z3.IntVal(r)
        if op == 'and':
            if cb is not None:
                if cb == 3:
                    r = TAG4(a)
                    st.pc += [r >= 0, r < 4]
                    return r
                if cb == -4:
                    return UNTAG4(a)
                if cb >= 0 and (cb + 1) & cb == 0:
                    if cb == 0:
                        return z3.IntVal(0)
                    if cb == 1:
                        pass
                    else:
                        return a % (cb + 1)
                if cb < 0 and (-cb) & (-cb - 1) == 0 and -cb <= 8:
                    return a - a % (-cb)
                n = ty[1]
                u = cb & ((1 << n) - 1)
                if bin(u).count('1') <= 8:
                    s = z3.IntVal(0)
                    for k in range(n):
                        if (u >> k) & 1:
                            w = (1 << k) if k < n - 1 else -(1 << k)
                            s = s + z3.If(bit(k, a), z3.IntVal(w), z3.IntVal(0))
                    if self.mask_bits:
                        for k in self.track_bits:
                            st.pc.append(bit(k, s) == bit(k, a) if (u >> k) & 1 else z3.Not(bit(k, s)))
                    return s
                # mask out bits
                clear = [k for k in range(n) if not (u >> k) & 1]
                r = z3.Function('and:%d:%d' % (n, cb), IntS, IntS)(a)
                self.bitfact(st, r, a, None, clear=clear)
                if len(clear) <= 2 and n - 1 not in clear:
                    # nothing is left exactly if only the masked bits were set
                    sub = [0]
                    for k in clear:
                        sub += [x | (1 << k) for x in sub]
                    st.pc.append((r == 0) == z3.Or([a == x for x in sub]))
                return r
            f = z3.Function('band', IntS, IntS, IntS)
            r = f(a, b)
            for k in self.track_bits:
                st.pc.append(bit(k, r) == z3.And(bit(k, a), bit(k, b)))
            return r
        if op == 'or':
            if cb is not None:
                n = ty[1]
                u = cb & ((1 << n) - 1)
                sets = [k for k in range(n) if (u >> k) & 1]
                r = z3.Function('or:%d:%d' % (n, cb), IntS, IntS)(a)
                self.bitfact(st, r, a, None, sets=sets)
                return r
            f = z3.Function('bor', IntS, IntS, IntS)
            r = f(a, b)
            st.pc.append(z3.Implies(z3.And(AL8(a), b >= 0, b < 4), z3.And(UNTAG4(r) == a, TAG4(r) == b, r >= a)))
            for k in self.track_bits:
                st.pc.append(bit(k, r) == z3.Or(bit(k, a), bit(k, b)))
            return r
        if op == 'xor':
            if cb is not None:
                if cb == -1:
                    r = -a - 1
                    for k in self.track_bits:
                        st.pc.append(bit(k, r) == z3.Not(bit(k, a)))
                    return r
                n = ty[1]
                u = cb & ((1 << n) - 1)
                r = z3.Function('xor:%d:%d' % (n, cb), IntS, IntS)(a)
                for k in self.track_bits:
                    st.pc.append(bit(k, r) == (z3.Not(bit(k, a)) if (u >> k) & 1 else bit(k, a)))
                return r
            r = z3.Function('bxor', IntS, IntS, IntS)(a, b)
            for k in self.track_bits:
                st.pc.append(bit(k, r) == z3.Xor(bit(k, a), bit(k, b)))
            return r
        if op == 'shl' and cb is not None:
            return a * (1 << cb)
        if op == 'ashr' and cb is not None:
            return a / (1 << cb)
        if op == 'lshr' and cb is not None:
            return self.unsigned(a, 1 << ty[1]) / (1 << cb)
        if op in ('udiv', 'urem') and cb is not None and cb > 0:
            u = self.unsigned(a, 1 << ty[1])
            return u / cb if op == 'udiv' else u % cb
        if op in ('sdiv', 'srem') and cb is not None and cb > 0:
            q = z3.If(a >= 0, a / cb, -((-a) / cb))
            return q if op == 'sdiv' else a - cb * q
        return z3.Function('op:' + op, IntS, IntS, IntS)(a, b)

    track_bits = tuple(range(32))
    escapable = frozenset()   # embedded structures whose address may be passed on
    classic = False
    mask_bits = False      # also give the bits of x & constant (needed where the result is stored)

    def bitfact(self, st, r, a, _, sets=(), clear=()):
        for k in self.track_bits:
            if k in sets:
                st.pc.append(bit(k, r))
            elif k in clear:
                st.pc.append(z3.Not(bit(k, r)))
            else:
                st.pc.append(bit(k, r) == bit(k, a))

    def cast(self, st, op, v, fty, tty):
        if op in ('bitcast', 'inttoptr', 'ptrtoint'):
            if isinstance(v, Addr) and op == 'ptrtoint':
                return self.as_int(v)
            return v
        if op == 'sext':
            if fty == I1:
                return z3.If(v, z3.IntVal(-1), z3.IntVal(0))
            return v
        if op == 'zext':
            if fty == I1:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if z3.is_app_of(v, z3.Z3_OP_ITE) and all(z3.is_int_value(x) and x.as_long() >= 0 for x in v.children()[1:]):
                return v
            return self.unsigned(v, 1 << fty[1])
        if op == 'trunc':
            if tty == I1:
                if z3.is_app_of(v, z3.Z3_OP_ITE):
                    c, a, b = v.children()
                    if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == 0:
                        return c
                if z3.is_int_value(v):
                    return z3.BoolVal(bool(v.as_long() & 1))
                # C bool cells hold 0 or 1
                st.pc.append(z3.Or(v == 0, v == 1))
                return v == 1
            n = tty[1]
            if z3.is_int_value(v):
                x = v.as_long() & ((1 << n) - 1)
                return z3.IntVal(x - (1 << n) if x >> (n - 1) else x)
            f = z3.Function('trunc%d' % n, IntS, IntS)
            return z3.If(z3.And(v >= -(1 << (n - 1)), v < (1 << (n - 1))), v, f(v))
        if op in ('sitofp', 'uitofp'):
            return z3.ToReal(v)
        if op in ('fptosi', 'fptoui'):
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        return v

    # ---------------------------------------------------------------- calls
    def do_ret(self, st, fr, v, ins):
        if len(st.frames) > 1:
            st.frames.pop()
            caller = st.frames[-1]
            if caller.res is not None and v is not None:
                caller.env[caller.res] = v
            caller.ip += 1
            return True
        if self.dry:
            return False
        self.nret += 1
        line = fr.f.mod.line(ins.line)
        c = self.cur
        cx = Ctx(self, self.top_args, self.pre, st, v)
        if not self.vac_ok:
            # the path must not be contradictory: `false` must not be provable here
            s, _, _ = self.solve_short(st.pc, z3.BoolVal(False))
            if s != 'proved':
                self.vac_ok = True
        for lab, g in norm(c.ensures(cx), 'ens'):
            self.oblige(st, 'ensures.' + lab, g, line)
            if lab.startswith('hint.'):
                st.pc.append(g)
        self.check_frame(st, line)
        return False

    def solve_short(self, pc, goal):
        s = z3.Solver()
        s.set('timeout', 1500)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        for a in self.axioms + self.base_facts + pc:
            s.add(a)
        return ('proved' if s.check() == z3.unsat else 'unknown'), '', 0

    def check_frame(self, st, line):
        c = self.cur
        for k, v in st.mem.items():
            if k in c.modifies or '*' in c.modifies or k.startswith('ghost:'):
                continue
            o = self.getmem(self.pre, k)
            if z3.eq(o, v):
                continue
            if any(k.startswith(p[:-1]) for p in c.modifies if p.endswith('*')):
                continue
            if z3.is_array(v):
                q = fresh('fr')
                self.oblige(st, 'frame.' + k, z3.Select(v, q) == z3.Select(o, q), line)
            else:
                self.oblige(st, 'frame.' + k, v == o, line)
        for nm, a in self.top_args.items():
            if isinstance(a, Addr) and nm not in c.cell_mod:
                v, o = st.locals[a.key], self.pre.locals[a.key]
                if not isinstance(v, Addr) and not z3.eq(v, o):
                    self.oblige(st, 'frame.*' + nm, v == o, line)

    def call(self, st, fr, ins):
        callee, args = ins.a
        line = fr.f.mod.line(ins.line)
        if callee[0] != 'global':
            h = self.cur.callees.get('*')
            if h is None:
                raise Unsupported("indirect call")
            name = '*'
            argv = [self.val(st, fr, v, t) for t, v in args if t != ('meta',)]
            return self.special(st, fr, ins, h, argv, line)
        name = callee[1]
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, ins, name, args)
        argv = [self.val(st, fr, v, t) for t, v in args]
        if name in self.cur.callees:
            return self.special(st, fr, ins, self.cur.callees[name], argv, line)
        c = self.contracts.get(name)
        if c is not None and name not in self.cur.inline:
            self.used.add(name)
            return self.apply_contract(st, fr, ins, c, argv, line)
        if name in NORETURN:
            return False
        if name in NOEFFECT:
            if ins.res:
                fr.env[ins.res] = fresh('r.' + name, sort_of(ins.ty))
            fr.ip += 1
            return True
        g = self.prog.lookup(name, fr.f.mod)
        if g is None:
            raise Unsupported("external function %s has no contract" % name)
        g.parse()
        if len(st.frames) > self.max_depth or any(x.f is g for x in st.frames):
            raise Unsupported("recursive function %s has no contract" % name)
        self.inlined.add(name)
        env = {}
        for (pn, pty), v in zip(g.params, argv):
            env[pn] = v
        nf = Frame(g, env, fr.path + ((fr.block, fr.ip, name),))
        fr.res = ins.res
        st.frames.append(nf)
        return True

    def special(self, st, fr, ins, h, argv, line):
        r = h(self, st, fr, ins, argv, line)
        if r is False:
            return False
        if ins.res:
            fr.env[ins.res] = r if r is not None else fresh('r', sort_of(ins.ty))
        fr.ip += 1
        return True

    def intrinsic(self, st, fr, ins, name, args):
        if name.startswith('llvm.expect'):
            fr.env[ins.res] = self.val(st, fr, args[0][1], args[0][0])
        elif name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume'):
            pass
        elif name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.memcpy(st, self.val(st, fr, args[0][1], PTR), self.val(st, fr, args[1][1], PTR),
                        self.val(st, fr, args[2][1], ('i', 64)))
        elif name.startswith('llvm.memset'):
            h = self.cur.callees.get('memset')
            if h is None:
                raise Unsupported("memset")
            h(self, st, fr, ins, [self.val(st, fr, v, t) for t, v in args], None)
        elif name.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin')):
            a, b = [self.val(st, fr, v, t) for t, v in args[:2]]
            fr.env[ins.res] = z3.If(a >= b, a, b) if 'max' in name else z3.If(a <= b, a, b)
        elif name.startswith('llvm.abs'):
            a = self.val(st, fr, args[0][1], args[0][0])
            fr.env[ins.res] = z3.If(a >= 0, a, -a)
        elif name.startswith('llvm.fmuladd'):
            a, b, c = [self.val(st, fr, v, t) for t, v in args[:3]]
            fr.env[ins.res] = a * b + c
        elif name.startswith('llvm.fabs'):
            a = self.val(st, fr, args[0][1], args[0][0])
            fr.env[ins.res] = z3.If(a >= 0, a, -a)
        elif name in ('llvm.trap',):
            return False
        else:
            raise Unsupported("intrinsic %s" % name)
        fr.ip += 1
        return True

    def memcpy(self, st, dst, src, n):
        spec = self.cur.memcpy
        if z3.is_int_value(n) and n.as_long() == 8:
            # copy of one 8 byte element (a union value)
            self.store_addr(st, dst, self.load_addr(st, src, ('i', 64)), ('i', 64))
            return
        if spec is None:
            raise Unsupported("memcpy without element type")
        key, size = spec
        dst, src = self.as_int(dst), self.as_int(src)
        self.keyinfo(key, True, IntS)
        m = self.getmem(st, key)
        a = fresh('cpy', AI)
        k = z3.Int('k?')
        st.pc.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k * size < n), z3.Select(a, k) == z3.Select(z3.Select(m, src), k)),
                               patterns=[z3.Select(a, k)]))
        self.setmem(st, key, z3.Store(m, dst, a))

    def apply_contract(self, st, fr, ins, c, argv, line):
        g = self.prog.lookup(c.name, fr.f.mod)
        if g is not None:
            pnames = [p[0] for p in g.params]
        else:
            pnames = ['a%d' % i for i in range(len(argv))]
        pnames = self.contract_params.get(c.name, pnames)
        args = dict(zip(pnames, argv))
        for n, v in list(args.items()):
            if n not in c.cells and isinstance(v, Addr):
                args[n] = self.as_int(v)
        pre = st.copy()
        cx = Ctx(self, args, pre, pre)
        # theory heaps must be the ones the theory speaks about
        for k in c.frozen:
            cur = self.getmem(st, k)
            o = self.getmem(self.pre, k)
            if not z3.eq(cur, o):
                q = fresh('fz')
                self.oblige(st, 'call.%s.unchanged.%s' % (c.name, k),
                            z3.Select(cur, q) == z3.Select(o, q) if z3.is_array(cur) else cur == o, line)
        for lab, r in norm(c.requires(cx), 'req'):
            self.oblige(st, 'call.%s.%s' % (c.name, lab), r, line)
            if not self.dry:
                st.pc.append(r)
        if c.noreturn:
            return False
        st.mem = dict(st.mem)
        mods = set(c.modifies)
        if '*' in mods:
            st.epoch = next(_cnt) + 1
            for w in self.wsets:
                w[0].update(st.mem.keys())
            keep = {}
            for k in st.mem:
                if k.startswith('ghost:'):
                    keep[k] = st.mem[k]
            st.mem = keep
        else:
            for k in sorted(mods):
                self.note_write(st, k)
                st.mem[k] = fresh(k + "^", self.map_sort(k))
        for n in c.cell_mod:
            a = args.get(n)
            if isinstance(a, Addr):
                ty = c.cells[n]
                v = fresh(n + "^", sort_of(ty))
                st.pc += rng(v, ty)
                self.store_addr(st, a, v, ty)
            elif a is not None:
                ty = c.cells[n]
                v = fresh(n + "^", sort_of(ty))
                self.store_addr(st, self.plain_addr(a, ty), v, ty)
        for gname, srt in c.ghosts.items():
            st.ghost[gname] = fresh('ghost:' + gname, srt)
        ret = None
        if ins.ty != ('void',):
            ret = fresh('r.' + c.name, sort_of(ins.ty))
            st.pc += rng(ret, ins.ty)
        cx = Ctx(self, args, pre, st, ret)
        if not self.dry:
            for lab, e in norm(c.ensures(cx), 'ens'):
                st.pc.append(e)
        if ins.res:
            fr.env[ins.res] = ret
        fr.ip += 1
        return True

    contract_params = {}


class Restart(Exception):
    pass


class TooManyFailures(Exception):
    pass


def check_lemma(lem, name, timeout):
    """lem: dict(axioms=[..], goals=[(label, formula)]); every goal must follow from the axioms"""
    out = []
    for lab, g in lem['goals']:
        t0 = time.time()
        status = 'unknown'
        be = ''
        for i, cf in enumerate([dict(mbqi=False), dict(mbqi=False, arith=2), dict(mbqi=True)]):
            s = z3.Solver()
            s.set('timeout', int(timeout * 400))
            s.set('auto_config', False)
            s.set('smt.mbqi', cf['mbqi'])
            if 'rel' in cf:
                s.set('smt.relevancy', cf['rel'])
            if 'arith' in cf:
                s.set('smt.arith.solver', cf['arith'])
            for a in lem['axioms']:
                s.add(a)
            s.add(z3.Not(g))
            r = s.check()
            be = 'z3-%s%s' % (z3.get_version_string(), '/alt%d' % i if i else '')
            if r == z3.unsat:
                status = 'proved'
                break
            status = 'failed' if r == z3.sat else 'unknown'
            if r == z3.sat:
                break
        out.append(Obligation('lemma:' + name, lab, None, status == 'proved', status, time.time() - t0, be))
    # the axioms alone must not be contradictory
    s = z3.Solver()
    s.set('timeout', 1500)
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    for a in lem['axioms']:
        s.add(a)
    if s.check() == z3.unsat:
        out.append(Obligation('lemma:' + name, 'vacuity:axioms-contradictory', None, False, 'vacuous', 0, be))
    return out
