"""Parser for the subset of textual LLVM IR (clang 18) that the verifier needs.

A Module is parsed lazily: function bodies are only turned into instruction
objects when they are asked for.  Struct member names come from the debug
information, so contracts speak about C field names, not about offsets."""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>0x[KMLHR]?[0-9a-fA-F]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
 | (?P<word>[a-zA-Z_.$][-a-zA-Z_.$0-9]*)
 | (?P<punct>\.\.\.|[][(){}<>,=*:|])
 | (?P<ws>\s+)
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError("token at %r" % s[i:i + 40])
        i = m.end()
        if m.lastgroup != 'ws':
            out.append(m.group())
    return out


class TS:
    """token stream"""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x != v:
            raise ParseError("expected %r got %r in %r" % (v, x, self.t))


# Types: ('i',N) | ('ptr',) | ('fp','double') | ('void',) | ('arr',N,T)
#        | ('struct',name) | ('lit',[T..]) | ('label',) | ('meta',) | ('vec',N,T)
I1 = ('i', 1)
PTR = ('ptr',)


def parse_type(ts):
    t = ts.next()
    if t == 'ptr':
        ty = PTR
    elif t == 'void':
        ty = ('void',)
    elif re.fullmatch(r'i\d+', t):
        ty = ('i', int(t[1:]))
    elif t in ('double', 'float', 'x86_fp80', 'half', 'fp128'):
        ty = ('fp', t)
    elif t == '[':
        n = int(ts.next())
        ts.expect('x')
        e = parse_type(ts)
        ts.expect(']')
        ty = ('arr', n, e)
    elif t == '<':
        if ts.peek() == '{':
            ts.next()
            elems = []
            while not ts.accept('}'):
                elems.append(parse_type(ts))
                ts.accept(',')
            ts.expect('>')
            return ('lit', tuple(elems))
        n = int(ts.next())
        ts.expect('x')
        e = parse_type(ts)
        ts.expect('>')
        ty = ('vec', n, e)
    elif t == '{':
        elems = []
        while not ts.accept('}'):
            elems.append(parse_type(ts))
            ts.accept(',')
        ty = ('lit', tuple(elems))
    elif t.startswith('%'):
        ty = ('struct', t[1:].strip('"'))
    elif t == 'label':
        ty = ('label',)
    elif t == 'metadata':
        ty = ('meta',)
    elif t == 'opaque':
        ty = ('opaque',)
    else:
        raise ParseError("type %r" % t)
    # function types: T (args)
    if ts.peek() == '(':
        depth = 0
        while True:
            x = ts.next()
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
        return ('func', ty)
    return ty


PATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly', 'noalias', 'returned',
          'immarg', 'inreg', 'byval', 'sret', 'dereferenceable', 'dereferenceable_or_null', 'align', 'readnone',
          'allocptr', 'allocalign', 'nofree', 'nest', 'swiftself'}


def skip_pattrs(ts):
    while True:
        p = ts.peek()
        if p in PATTRS:
            ts.next()
            if p == 'align':
                ts.next()
            elif ts.peek() == '(':
                d = 0
                while True:
                    x = ts.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
        else:
            return


# Operands: ('local',name) ('global',name) ('int',n) ('null',) ('undef',) ('fp',str)
#           ('cgep', srcty, base operand, [operands]) ('cast', op, operand) ('zero',) ('agg',..)
def parse_value(ts, ty):
    t = ts.next()
    if t.startswith('%'):
        return ('local', t[1:].strip('"'))
    if t.startswith('@'):
        return ('global', t[1:].strip('"'))
    if t == 'null':
        return ('null',)
    if t == 'true':
        return ('int', 1)
    if t == 'false':
        return ('int', 0)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'zeroinitializer':
        return ('zero',)
    if t == 'getelementptr':
        while ts.peek() in ('inbounds', 'nuw', 'nusw'):
            ts.next()
        ts.expect('(')
        sty = parse_type(ts)
        ts.expect(',')
        bty = parse_type(ts)
        base = parse_value(ts, bty)
        idx = []
        while ts.accept(','):
            ts.accept('inrange')
            ity = parse_type(ts)
            idx.append((ity, parse_value(ts, ity)))
        ts.expect(')')
        return ('cgep', sty, base, idx)
    if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
        ts.expect('(')
        fty = parse_type(ts)
        v = parse_value(ts, fty)
        ts.expect('to')
        tty = parse_type(ts)
        ts.expect(')')
        return ('cast', t, fty, v, tty)
    if re.fullmatch(r'-?\d+', t):
        return ('int', int(t))
    if re.fullmatch(r'0x[0-9A-Fa-f]+', t) or re.fullmatch(r'-?\d+\.\d+(e[+-]?\d+)?', t):
        return ('fp', t)
    if t.startswith('c"') or t.startswith('"'):
        return ('cstr', t)
    if t in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[t]
        vals = []
        while not ts.accept(close):
            ety = parse_type(ts)
            vals.append((ety, parse_value(ts, ety)))
            ts.accept(',')
        return ('agg', vals)
    raise ParseError("value %r" % t)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line')

    def __init__(self, op, res, ty, a, line):
        self.op, self.res, self.ty, self.a, self.line = op, res, ty, a, line

    def __repr__(self):
        return "%s = %s %s %s" % (self.res, self.op, self.ty, self.a)


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
        'fpext', 'fptrunc'}
FLAGS = {'nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'nneg'}
CALLPRE = {'tail', 'musttail', 'notail'}


def parse_instr(line):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
        line = line[:m.start()] + line[m.end():]
    toks = tokenize(line)
    # cut trailing metadata  ", !xyz !n"
    for i in range(len(toks)):
        if toks[i].startswith('!') and toks[i - 1] == ',' and toks[0] != 'call' and not (len(toks) > 2 and toks[2] == 'call'):
            toks = toks[:i - 1]
            break
    ts = TS(toks)
    res = None
    if len(toks) > 1 and toks[1] == '=':
        res = ts.next()[1:].strip('"')
        ts.next()
    op = ts.next()
    while op in CALLPRE:
        op = ts.next()
    I = lambda ty, a, o=op: Instr(o, res, ty, a, dbg)
    if op == 'alloca':
        ty = parse_type(ts)
        cnt = None
        if ts.accept(','):
            if ts.peek() != 'align':
                cty = parse_type(ts)
                cnt = parse_value(ts, cty)
        return I(PTR, (ty, cnt))
    if op == 'load':
        ts.accept('volatile')
        ty = parse_type(ts)
        ts.expect(',')
        pty = parse_type(ts)
        return I(ty, parse_value(ts, pty))
    if op == 'store':
        ts.accept('volatile')
        ty = parse_type(ts)
        v = parse_value(ts, ty)
        ts.expect(',')
        pty = parse_type(ts)
        return I(ty, (v, parse_value(ts, pty)))
    if op == 'getelementptr':
        while ts.peek() in ('inbounds', 'nuw', 'nusw'):
            ts.next()
        sty = parse_type(ts)
        ts.expect(',')
        bty = parse_type(ts)
        base = parse_value(ts, bty)
        idx = []
        while ts.accept(','):
            ity = parse_type(ts)
            idx.append((ity, parse_value(ts, ity)))
        return I(PTR, (sty, base, idx))
    if op in BIN:
        fl = set()
        while ts.peek() in FLAGS:
            fl.add(ts.next())
        ty = parse_type(ts)
        a = parse_value(ts, ty)
        ts.expect(',')
        b = parse_value(ts, ty)
        return I(ty, (a, b, fl))
    if op == 'fneg':
        while ts.peek() in FLAGS:
            ts.next()
        ty = parse_type(ts)
        return I(ty, parse_value(ts, ty))
    if op in ('icmp', 'fcmp'):
        while ts.peek() in FLAGS:
            ts.next()
        pred = ts.next()
        ty = parse_type(ts)
        a = parse_value(ts, ty)
        ts.expect(',')
        b = parse_value(ts, ty)
        return I(I1, (pred, ty, a, b))
    if op in CAST:
        while ts.peek() in FLAGS:
            ts.next()
        fty = parse_type(ts)
        v = parse_value(ts, fty)
        ts.expect('to')
        tty = parse_type(ts)
        return I(tty, (fty, v))
    if op == 'phi':
        ty = parse_type(ts)
        inc = []
        while True:
            ts.expect('[')
            v = parse_value(ts, ty)
            ts.expect(',')
            b = ts.next()[1:].strip('"')
            ts.expect(']')
            inc.append((v, b))
            if not ts.accept(','):
                break
        return I(ty, inc)
    if op == 'select':
        while ts.peek() in FLAGS:
            ts.next()
        cty = parse_type(ts)
        c = parse_value(ts, cty)
        ts.expect(',')
        ty = parse_type(ts)
        a = parse_value(ts, ty)
        ts.expect(',')
        ty2 = parse_type(ts)
        b = parse_value(ts, ty2)
        return I(ty, (c, a, b))
    if op == 'br':
        if ts.peek() == 'label':
            ts.next()
            return I(('void',), (ts.next()[1:].strip('"'),))
        cty = parse_type(ts)
        c = parse_value(ts, cty)
        ts.expect(',')
        ts.expect('label')
        t = ts.next()[1:].strip('"')
        ts.expect(',')
        ts.expect('label')
        f = ts.next()[1:].strip('"')
        return I(('void',), (c, t, f))
    if op == 'switch':
        ty = parse_type(ts)
        v = parse_value(ts, ty)
        ts.expect(',')
        ts.expect('label')
        d = ts.next()[1:].strip('"')
        ts.expect('[')
        cases = []
        while not ts.accept(']'):
            cty = parse_type(ts)
            cv = parse_value(ts, cty)
            ts.expect(',')
            ts.expect('label')
            cases.append((cv[1], ts.next()[1:].strip('"')))
        return I(ty, (v, d, cases))
    if op == 'ret':
        ty = parse_type(ts)
        if ty == ('void',):
            return I(ty, None)
        return I(ty, parse_value(ts, ty))
    if op == 'unreachable':
        return I(('void',), None)
    if op == 'freeze':
        ty = parse_type(ts)
        return I(ty, parse_value(ts, ty))
    if op in ('extractvalue', 'insertvalue'):
        ty = parse_type(ts)
        v = parse_value(ts, ty)
        ins = None
        if op == 'insertvalue':
            ts.expect(',')
            ety = parse_type(ts)
            ins = (ety, parse_value(ts, ety))
        idx = []
        while ts.accept(','):
            idx.append(int(ts.next()))
        return I(ty, (v, ins, idx))
    if op == 'call':
        while ts.peek() in FLAGS or ts.peek() in ('ccc', 'fastcc'):
            ts.next()
        skip_pattrs(ts)
        ty = parse_type(ts)
        if ty[0] == 'func':
            ty = ty[1]
        if ts.peek() == 'asm':
            return Instr('asm', res, ty, None, dbg)
        callee = parse_value(ts, PTR)
        ts.expect('(')
        args = []
        while not ts.accept(')'):
            aty = parse_type(ts)
            if aty == ('meta',):
                # skip metadata operand
                d = 0
                while True:
                    p = ts.peek()
                    if d == 0 and p in (',', ')'):
                        break
                    p = ts.next()
                    if p in '([{':
                        d += 1
                    elif p in ')]}':
                        d -= 1
                args.append((aty, None))
            else:
                skip_pattrs(ts)
                args.append((aty, parse_value(ts, aty)))
            ts.accept(',')
        return I(ty, (callee, args))
    raise ParseError("instr %r" % line)


class Block:
    def __init__(self, name):
        self.name = name
        self.ins = []
        self.succ = []


class Function:
    def __init__(self, mod, name, header, lines, internal):
        self.mod, self.name, self.header, self.lines, self.internal = mod, name, header, lines, internal
        self._parsed = False
        self._parse_header()

    def _parse_header(self):
        h = self.header
        m = re.search(r'@("?[^"(\s]+"?)\(', h)
        pre = tokenize(h[len('define'):m.start()])
        ts = TS(pre)
        while ts.peek() in ('internal', 'dso_local', 'weak', 'linkonce_odr', 'hidden', 'available_externally',
                            'private', 'local_unnamed_addr', 'unnamed_addr', 'fastcc'):
            ts.next()
        skip_pattrs(ts)
        self.ret = parse_type(ts)
        # params
        i = m.end()
        d = 1
        j = i
        while d:
            if h[j] == '(':
                d += 1
            elif h[j] == ')':
                d -= 1
            j += 1
        ptxt = h[i:j - 1]
        ts = TS(tokenize(ptxt))
        self.params = []
        while ts.peek() is not None:
            if ts.accept('...'):
                break
            ty = parse_type(ts)
            skip_pattrs(ts)
            nm = ts.next()[1:].strip('"')
            self.params.append((nm, ty))
            ts.accept(',')

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        self.blocks = {}
        self.order = []
        cur = None
        buf = None
        for line in self.lines:
            if buf is not None:
                buf += ' ' + line.split(';')[0].strip()
                if ']' in line.split('!')[0]:
                    line = buf
                    buf = None
                else:
                    continue
            s = line.strip()
            if not s or s.startswith(';') or s.startswith('#dbg'):
                continue
            m = re.match(r'^("[^"]+"|[-a-zA-Z$._0-9]+):', line)
            if m and not line.startswith(' '):
                nm = m.group(1).strip('"')
                cur = Block(nm)
                self.blocks[nm] = cur
                self.order.append(nm)
                continue
            if cur is None:
                cur = Block('entry')
                self.blocks['entry'] = cur
                self.order.append('entry')
            if s.startswith('switch') and ']' not in s.split('!')[0]:
                buf = line.split(';')[0].rstrip()
                continue
            if 'call void @llvm.dbg' in s:
                m = re.search(r'@llvm\.dbg\.(value|declare)\(metadata (.*?), metadata !(\d+), metadata !DIExpression\(\)', s)
                if m and not m.group(2).startswith('!'):
                    vn = re.search(r'name: "([^"]*)"', self.mod.meta.get(int(m.group(3)), ''))
                    if vn:
                        try:
                            ts = TS(tokenize(m.group(2)))
                            ty = parse_type(ts)
                            v = parse_value(ts, ty)
                            cur.ins.append(Instr('dbgval', None, ty, (v, vn.group(1), m.group(1)), None))
                        except (ParseError, IndexError):
                            pass
                continue
            ins = parse_instr(s)
            cur.ins.append(ins)
        for b in self.blocks.values():
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = list(t.a) if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
        self._loops()
        return self

    def _loops(self):
        """natural loops: header -> set of blocks"""
        order = self.order
        entry = order[0]
        preds = {b: set() for b in order}
        for b in order:
            for s in self.blocks[b].succ:
                preds[s].add(b)
        # dominators, iterative
        rpo = []
        seen = set()

        def dfs(b):
            st = [(b, iter(self.blocks[b].succ))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.blocks[s].succ)))
                        break
                else:
                    st.pop()
                    rpo.append(x)
        dfs(entry)
        rpo.reverse()
        dom = {b: set(rpo) for b in rpo}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == entry:
                    continue
                ps = [dom[p] for p in preds[b] if p in dom]
                n = set.intersection(*ps) | {b} if ps else {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self.loops = {}
        for b in rpo:
            for s in self.blocks[b].succ:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in preds[x] if p in dom)
        self.loop_order = [b for b in order if b in self.loops]
        self.reachable = set(rpo)
        self.dom = dom
        self.defblock = {ins.res: b for b in rpo for ins in self.blocks[b].ins if getattr(ins, 'res', None)}
        self.rpo = {b: i for i, b in enumerate(rpo)}
        self.npreds = {b: len([p for p in preds[b] if p in self.reachable]) for b in rpo}


class Module:
    def __init__(self, path):
        self.path = path
        self.funcs = {}
        self.decls = set()
        self.structs = {}
        self.globals = {}
        self.meta = {}
        self._locs = {}
        txt = open(path).read().split('\n')
        i = 0
        n = len(txt)
        while i < n:
            l = txt[i]
            if l.startswith('define '):
                m = re.search(r'@("?[^"(\s]+"?)\(', l)
                name = m.group(1).strip('"')
                j = i + 1
                while txt[j] != '}':
                    j += 1
                self.funcs[name] = Function(self, name, l, txt[i + 1:j], ' internal ' in l[:m.start()])
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@("?[^"(\s]+"?)\(', l)
                self.decls.add(m.group(1).strip('"'))
            elif l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                nm = nm[1:].strip('"')
                if rest.strip() == 'opaque':
                    self.structs[nm] = None
                else:
                    self.structs[nm] = parse_type(TS(tokenize(rest)))
            elif l.startswith('@'):
                m = re.match(r'@("[^"]+"|[-a-zA-Z$._0-9]+) = (.*)', l)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', l)
                if m:
                    self.meta[int(m.group(1))] = m.group(2)
            i += 1
        self._names()

    def _names(self):
        """field names of each LLVM struct"""
        self.fields = {}
        self.enums = {}
        ref = lambda s: int(s)
        comp = {}
        for k, v in self.meta.items():
            if 'DICompositeType(' in v and 'DW_TAG_structure_type' in v or 'DICompositeType(' in v and 'DW_TAG_union_type' in v:
                m = re.search(r'elements: !(\d+)', v)
                if not m:
                    continue
                els = [int(x) for x in re.findall(r'!(\d+)', self.meta[int(m.group(1))])]
                names = []
                for e in els:
                    mm = re.search(r'name: "([^"]*)"', self.meta[e])
                    names.append(mm.group(1) if mm else None)
                comp[k] = names
                mm = re.search(r'name: "([^"]*)"', v)
                if mm:
                    self.fields[mm.group(1)] = names
        for k, v in self.meta.items():
            if 'DIDerivedType(' in v and 'DW_TAG_typedef' in v:
                m = re.search(r'baseType: !(\d+)', v)
                mm = re.search(r'name: "([^"]*)"', v)
                if m and mm and int(m.group(1)) in comp:
                    self.fields.setdefault(mm.group(1), comp[int(m.group(1))])
            if 'DIEnumerator(' in v:
                mm = re.search(r'name: "([^"]*)", value: (-?\d+)', v)
                if mm:
                    self.enums[mm.group(1)] = int(mm.group(2))

    def line(self, dbg):
        if dbg is None:
            return None
        if dbg not in self._locs:
            m = re.search(r'DILocation\(line: (\d+)', self.meta.get(dbg, ''))
            self._locs[dbg] = int(m.group(1)) if m else None
        return self._locs[dbg]

    def field_name(self, struct, i):
        """struct: LLVM name such as struct.termcell; i: element number"""
        base = re.sub(r'^(struct|union)\.', '', struct)
        base = re.sub(r'\.\d+$', '', base)
        nm = self.fields.get(base)
        if nm and i < len(nm) and nm[i]:
            st = self.structs.get(struct)
            if st and st[0] == 'lit' and len(st[1]) >= i + 1:
                return base, nm[i]
        return base, 'f%d' % i
