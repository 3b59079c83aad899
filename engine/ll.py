"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits from /repo's sources.

Only what clang produces for this code base without vectorisation is accepted; anything else raises
Unsupported, which the driver reports as an engine error (never as a violation)."""
import re, struct
from fractions import Fraction


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'a', 'b', '_sz', '_al', '_offs')

    def __init__(self, k, a=None, b=None):
        self.k = k
        self.a = a
        self.b = b
        self._sz = self._al = self._offs = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k == 'arr':
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.a))
        if self.k == 'named':
            return '%' + self.a
        return self.k


INTS = {}


def IntT(n):
    t = INTS.get(n)
    if t is None:
        t = INTS[n] = T('int', n)
    return t


VOID, PTR, DOUBLE, FLOAT, FP80, LABEL, META, TOKEN = (T('void'), T('ptr'), T('double'), T('float'), T('x86_fp80'),
                                                      T('label'), T('metadata'), T('token'))
PRIM = {'void': VOID, 'ptr': PTR, 'double': DOUBLE, 'float': FLOAT, 'x86_fp80': FP80, 'label': LABEL,
        'metadata': META, 'token': TOKEN, 'opaque': T('opaque'), 'i128': IntT(128)}

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<attr>\#\d+)
 | (?P<md>![a-zA-Z0-9_.]*)
 | (?P<num>-?\d+\.\d*(?:[eE][-+]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<ell>\.\.\.)
 | (?P<id>[a-zA-Z_$][-a-zA-Z$._0-9]*:?)
 | (?P<p><\{|\}>|[\[\]{}()<>,=*|:])
 )''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            if s[i:].lstrip().startswith(';'):
                break
            raise Unsupported('token: ' + s[i:i + 60])
        i = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


def unq(name):
    if name[1:2] == '"':
        return name[2:-1]
    return name[1:]


# ---------------------------------------------------------------- values
class C:
    """constant operand"""
    __slots__ = ('k', 't', 'v')

    def __init__(self, k, t, v=None):
        self.k = k   # int fp null undef zero agg str glob expr
        self.t = t
        self.v = v

    def __repr__(self):
        return 'C(%s %r %r)' % (self.k, self.t, self.v)


class R:
    """register operand"""
    __slots__ = ('n', 't')

    def __init__(self, n, t):
        self.n = n
        self.t = t

    def __repr__(self):
        return '%' + self.n


class Ins:
    __slots__ = ('op', 'res', 't', 'a', 'x', 'txt', 'flags')

    def __init__(self, op, res, t, a, x=None, txt='', flags=()):
        self.op, self.res, self.t, self.a, self.x, self.txt, self.flags = op, res, t, a, x, txt, flags

    def __repr__(self):
        return self.txt


PATTR = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext',
         'returned', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'dead_on_unwind', 'writable', 'allocalign',
         'allocptr', 'noext', 'inalloca', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'range', 'nofpclass'}
PATTR_P = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'captures', 'initializes',
           'elementtype', 'preallocated', 'byref'}
FASTFLAGS = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class P:
    """token-stream parser"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, d=0):
        j = self.i + d
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, d=0):
        j = self.i + d
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise Unsupported('expected %r got %r in %r' % (s, self.peek(), [x[1] for x in self.t[:40]]))

    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'id':
            if v in PRIM:
                t = PRIM[v]
            elif re.fullmatch(r'i\d+', v):
                t = IntT(int(v[1:]))
            else:
                raise Unsupported('type ' + v)
        elif k == 'loc':
            t = T('named', unq(v))
        elif v == '[':
            n = int(self.next())
            x = self.next()
            assert x == 'x', x
            e = self.type()
            self.expect(']')
            t = T('arr', n, e)
        elif v == '{' or v == '<{':
            end = '}' if v == '{' else '}>'
            fs = []
            while not self.eat(end):
                fs.append(self.type())
                self.eat(',')
            t = T('struct', fs, v == '<{')
        elif v == '<':
            n = int(self.next())
            self.next()
            e = self.type()
            self.expect('>')
            t = T('vec', n, e)
        else:
            raise Unsupported('type tok ' + v)
        # function type?
        if self.peek() == '(' and self.kind() == 'p':
            self.i += 1
            ps = []
            va = False
            while not self.eat(')'):
                if self.eat('...'):
                    va = True
                else:
                    ps.append(self.type())
                    self.skip_pattrs()
                self.eat(',')
            t = T('fn', t, ps)
        return t

    def skip_pattrs(self):
        res = {}
        while True:
            v = self.peek()
            if v in PATTR and self.kind() == 'id':
                self.i += 1
                res[v] = True
                if self.peek() == '(':
                    self.skip_parens()
            elif v in PATTR_P:
                self.i += 1
                if self.peek() == '(':
                    if v in ('sret', 'byval'):
                        self.i += 1
                        res[v] = self.type()
                        self.expect(')')
                    else:
                        self.skip_parens()
                else:
                    self.next()
                res.setdefault(v, True)
            elif self.kind() == 'str' and v.startswith('"'):
                self.i += 1
                if self.eat('='):
                    self.i += 1
            else:
                return res

    def skip_parens(self):
        d = 0
        while True:
            v = self.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    def value(self, t):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'loc':
            return R(unq(v), t)
        if k == 'glob':
            return C('glob', t, unq(v))
        if k == 'num':
            if t.k in ('double', 'float'):
                return C('fp', t, parse_fp(v))
            if t.k == 'x86_fp80':
                return C('fp', t, parse_fp80(v))
            return C('int', t, int(v) & ((1 << t.a) - 1))
        if k == 'str':
            return C('str', t, cstr(v))
        if v == 'true':
            return C('int', t, 1)
        if v == 'false':
            return C('int', t, 0)
        if v == 'null':
            return C('null', t)
        if v in ('undef', 'poison'):
            return C('undef', t)
        if v in ('zeroinitializer', 'none'):
            return C('zero', t)
        if v in ('{', '[', '<{', '<'):
            end = {'{': '}', '[': ']', '<{': '}>', '<': '>'}[v]
            es = []
            while not self.eat(end):
                et = self.type()
                es.append(self.value(et))
                self.eat(',')
            return C('agg', t, es)
        if v in ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'sub', 'add', 'mul',
                 'icmp', 'and', 'or', 'xor', 'shl', 'lshr', 'addrspacecast'):
            return self.cexpr(v, t)
        if v == 'blockaddress' or v == 'asm' or v == 'dso_local_equivalent':
            raise Unsupported(v)
        raise Unsupported('value %r' % v)

    def cexpr(self, op, t):
        while self.peek() in ('inbounds', 'nuw', 'nsw', 'exact', 'inrange', 'nusw'):
            self.i += 1
            if self.peek() == '(' and self.t[self.i - 1][1] == 'inrange':
                self.skip_parens()
        if op == 'icmp':
            raise Unsupported('icmp constexpr')
        self.expect('(')
        if op == 'getelementptr':
            st = self.type()
            self.expect(',')
            ops = []
            while True:
                while self.peek() in ('inrange',):
                    self.i += 1
                ty = self.type()
                ops.append(self.value(ty))
                if not self.eat(','):
                    break
            self.expect(')')
            return C('expr', t, ('gep', st, ops))
        ty = self.type()
        a = self.value(ty)
        if self.eat('to'):
            tt = self.type()
            self.expect(')')
            return C('expr', tt, (op, a, tt))
        self.expect(',')
        ty = self.type()
        b = self.value(ty)
        self.expect(')')
        return C('expr', t, (op, a, b))

    def tv(self):
        t = self.type()
        self.skip_pattrs()
        return self.value(t)


def parse_fp(s):
    if s.startswith('0x'):
        return struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
    return float(s)


def parse_fp80(s):
    if s.startswith('0xK'):
        h = int(s[3:], 16)
        sign = h >> 79
        e = (h >> 64) & 0x7fff
        m = h & ((1 << 64) - 1)
        if e == 0 and m == 0:
            return Fraction(0)
        if e == 0x7fff:
            raise Unsupported('fp80 inf/nan')
        v = Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
        return -v if sign else v
    return Fraction(s)


def cstr(s):
    if s.startswith('c'):
        s = s[1:]
    s = s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


# ---------------------------------------------------------------- functions
class Block:
    __slots__ = ('name', 'ins', 'phis')

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.phis = []


class Fn:
    def __init__(self, mod, name, ret, params, attrs, body, rattrs):
        self.mod, self.name, self.ret, self.params, self.body = mod, name, ret, params, body
        self.attrs = attrs
        self.blocks = None
        self._ip = None
        self.rattrs = rattrs

    @property
    def defined(self):
        return self.body is not None

    def parse(self):
        if self.blocks is not None:
            return self
        blocks = {}
        order = []
        cur = None
        lines = self.body
        i = 0
        # number of unnamed params decides the implicit entry label
        joined = []
        n = len(lines)
        while i < n:
            l = lines[i]
            s = l.strip()
            i += 1
            if not s or s.startswith(';'):
                continue
            if s.startswith('switch') or ' = switch' in s:
                while ']' not in s:
                    s += ' ' + lines[i].strip()
                    i += 1
            else:
                while i < n:
                    nx = lines[i].strip()
                    if nx.startswith('to label') or (re.match(r'(catch|filter|cleanup)\b', nx) and
                                                     ('landingpad' in s)):
                        s += ' ' + nx
                        i += 1
                    else:
                        break
            joined.append(s)
        for s in joined:
            m = re.match(r'^([-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*"):(?:\s*;.*)?$', s)
            if m:
                nm = m.group(1)
                if nm.startswith('"'):
                    nm = nm[1:-1]
                cur = Block(nm)
                blocks[nm] = cur
                order.append(nm)
                continue
            if cur is None:
                cnt = sum(1 for p in self.params if re.fullmatch(r'\d+', p[0]))
                cur = Block(str(cnt))
                blocks[cur.name] = cur
                order.append(cur.name)
            ins = parse_ins(s, self.mod)
            if ins is None:
                continue
            (cur.phis if ins.op == 'phi' else cur.ins).append(ins)
        self.blocks = blocks
        self.order = order
        self.entry = order[0]
        return self

    def succs(self, b):
        t = self.blocks[b].ins[-1]
        if t.op == 'br':
            return list(dict.fromkeys(t.x))
        if t.op == 'switch':
            return list(dict.fromkeys([t.x[0]] + [x[1] for x in t.x[1]]))
        if t.op == 'invoke':
            return list(dict.fromkeys([t.x['normal'], t.x['unwind']]))
        return []

    def ipdom(self, b):
        """immediate post-dominator on the CFG restricted to blocks from which a `ret` is reachable"""
        if self._ip is None:
            self._compute_ipdom()
        return self._ip.get(b)

    def _compute_ipdom(self):
        preds = {}
        for b in self.order:
            for s in self.succs(b):
                preds.setdefault(s, []).append(b)
        rets = [b for b in self.order if self.blocks[b].ins[-1].op == 'ret']
        live = set(rets)
        wl = list(rets)
        while wl:
            b = wl.pop()
            for p in preds.get(b, []):
                if p not in live:
                    live.add(p)
                    wl.append(p)
        EXIT = None
        # reverse postorder on reverse graph from EXIT
        order = []
        seen = set()

        def dfs(root):
            st = [(root, iter(preds.get(root, [])))]
            seen.add(root)
            while st:
                b, it = st[-1]
                for p in it:
                    if p in live and p not in seen:
                        seen.add(p)
                        st.append((p, iter(preds.get(p, []))))
                        break
                else:
                    order.append(b)
                    st.pop()
        for r in rets:
            if r not in seen:
                dfs(r)
        rpo = order[::-1]
        num = {b: i + 1 for i, b in enumerate(rpo)}
        num[EXIT] = 0
        ip = {EXIT: EXIT}
        for r in rets:
            ip[r] = EXIT

        def inter(a, b):
            while a != b:
                while num[a] > num[b]:
                    a = ip[a]
                while num[b] > num[a]:
                    b = ip[b]
            return a
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b in rets:
                    continue
                new = 'unset'
                for s in self.succs(b):
                    if s in live and s in ip:
                        new = s if new == 'unset' else inter(new, s)
                if new != 'unset' and ip.get(b, 'unset') != new:
                    ip[b] = new
                    ch = True
        self._ip = {b: v for b, v in ip.items() if b is not None}
        self.live = live


def parse_call(p, res, op, txt):
    # optional tail markers consumed by caller; fast-math flags, cconv, ret attrs
    while p.peek() in FASTFLAGS or p.peek() in ('fastcc', 'ccc', 'coldcc'):
        p.i += 1
    p.skip_pattrs()
    t = p.type()
    vararg_params = None
    if t.k == 'fn':
        t = t.a
    k, v = p.t[p.i]
    if k == 'glob':
        callee = C('glob', PTR, unq(v))
        p.i += 1
    elif k == 'loc':
        callee = R(unq(v), PTR)
        p.i += 1
    elif v == 'asm':
        raise Unsupported('inline asm')
    else:
        callee = p.value(PTR)
    p.expect('(')
    args = []
    at = []
    while not p.eat(')'):
        ty = p.type()
        pa = p.skip_pattrs()
        if ty.k == 'metadata':
            # skip until , or )
            d = 0
            while not (d == 0 and p.peek() in (',', ')')):
                v = p.next()
                if v in '({[<':
                    d += 1
                elif v in ')}]>':
                    d -= 1
            args.append(None)
        else:
            args.append(p.value(ty))
        at.append(pa)
        p.eat(',')
    x = {'callee': callee, 'at': at}
    while p.peek() is not None and p.kind() == 'attr':
        p.i += 1
    if p.peek() == '[':      # operand bundles
        while p.next() != ']':
            pass
    if op == 'invoke':
        while p.peek() != 'to':
            p.next()
        p.expect('to')
        p.expect('label')
        x['normal'] = unq(p.next())
        p.expect('unwind')
        p.expect('label')
        x['unwind'] = unq(p.next())
    return Ins(op, res, t, args, x, txt)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub',
       'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint',
        'inttoptr', 'addrspacecast'}


def parse_ins(s, mod):
    toks = tokenize(s)
    p = P(toks, mod)
    res = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        res = unq(p.next())
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        fl = []
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FASTFLAGS:
            fl.append(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Ins(op, res, t, [a, b], None, s, tuple(fl))
    if op == 'fneg':
        while p.peek() in FASTFLAGS:
            p.i += 1
        t = p.type()
        return Ins(op, res, t, [p.value(t)], None, s)
    if op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.i += 1
        a = p.tv()
        p.expect('to')
        t = p.type()
        return Ins(op, res, t, [a], None, s)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FASTFLAGS or p.peek() == 'samesign':
            p.i += 1
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Ins(op, res, IntT(1), [a, b], (pred, t), s)
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'):
            p.i += 1
        t = p.type()
        p.expect(',')
        a = p.tv()
        return Ins(op, res, t, [a], None, s)
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'):
            p.i += 1
        v = p.tv()
        p.expect(',')
        a = p.tv()
        return Ins(op, None, v.t, [v, a], None, s)
    if op == 'alloca':
        p.eat('inalloca')
        t = p.type()
        n = None
        if p.eat(','):
            if p.peek() != 'align':
                n = p.tv()
        return Ins(op, res, PTR, [n] if n is not None else [], t, s)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.i += 1
        st = p.type()
        p.expect(',')
        ops = [p.tv()]
        while p.eat(','):
            if p.kind() == 'md':
                break
            ops.append(p.tv())
        return Ins(op, res, PTR, ops, st, s)
    if op == 'select':
        while p.peek() in FASTFLAGS:
            p.i += 1
        c = p.tv()
        p.expect(',')
        a = p.tv()
        p.expect(',')
        b = p.tv()
        return Ins(op, res, a.t, [c, a, b], None, s)
    if op == 'phi':
        while p.peek() in FASTFLAGS:
            p.i += 1
        t = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc[unq(p.next())] = v
            p.expect(']')
            if not p.eat(','):
                break
            if p.kind() == 'md':
                break
        return Ins(op, res, t, [], inc, s)
    if op == 'br':
        if p.eat('label'):
            return Ins(op, None, VOID, [], [unq(p.next())], s)
        c = p.tv()
        p.expect(',')
        p.expect('label')
        a = unq(p.next())
        p.expect(',')
        p.expect('label')
        b = unq(p.next())
        return Ins(op, None, VOID, [c], [a, b], s)
    if op == 'switch':
        v = p.tv()
        p.expect(',')
        p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cs = []
        while not p.eat(']'):
            c = p.tv()
            p.expect(',')
            p.expect('label')
            cs.append((c.v, unq(p.next())))
        return Ins(op, None, VOID, [v], (d, cs), s)
    if op == 'ret':
        if p.peek() == 'void':
            return Ins(op, None, VOID, [], None, s)
        return Ins(op, None, VOID, [p.tv()], None, s)
    if op in ('call', 'invoke'):
        return parse_call(p, res, op, s)
    if op == 'unreachable':
        return Ins(op, None, VOID, [], None, s)
    if op == 'landingpad':
        t = p.type()
        cl = []
        cleanup = False
        while p.peek() is not None and p.kind() != 'md' and p.peek() != ',':
            k = p.next()
            if k == 'cleanup':
                cleanup = True
            elif k == 'catch':
                cl.append(('catch', p.tv()))
            elif k == 'filter':
                cl.append(('filter', p.tv()))
            else:
                raise Unsupported('landingpad ' + k)
        return Ins(op, res, t, [], (cleanup, cl), s)
    if op == 'resume':
        return Ins(op, None, VOID, [p.tv()], None, s)
    if op == 'extractvalue':
        a = p.tv()
        idx = []
        while p.eat(','):
            if p.kind() == 'md':
                break
            idx.append(int(p.next()))
        return Ins(op, res, None, [a], idx, s)
    if op == 'insertvalue':
        a = p.tv()
        p.expect(',')
        b = p.tv()
        idx = []
        while p.eat(','):
            if p.kind() == 'md':
                break
            idx.append(int(p.next()))
        return Ins(op, res, a.t, [a, b], idx, s)
    if op == 'freeze':
        a = p.tv()
        return Ins(op, res, a.t, [a], None, s)
    if op == 'atomicrmw':
        p.eat('volatile')
        o = p.next()
        a = p.tv()
        p.expect(',')
        b = p.tv()
        return Ins(op, res, b.t, [a, b], o, s)
    if op == 'fence':
        return None
    return Ins('unsupported', res, VOID, [], op, s)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.aliases = {}
        self.ctors = []
        self.parse(text)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if not l or l[0] in ';!' or l.startswith('source_filename') or l.startswith('target') or \
                    l.startswith('attributes') or l.startswith('module asm') or l.startswith('$'):
                continue
            if l[0] == '%':
                m = re.match(r'^(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                name = unq(m.group(1))
                self.types[name] = m.group(2)
            elif l[0] == '@':
                self.parse_global(l)
            elif l.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self.parse_fn(l, body)
            elif l.startswith('declare'):
                self.parse_fn(l, None)
        self._tcache = {}

    def parse_global(self, l):
        m = re.match(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
        name = unq(m.group(1))
        self.globals[name] = [m.group(2), None]

    def parse_fn(self, l, body):
        m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
        name = unq(m.group(1))
        self.fns[name] = [l, body, None]

    def fn(self, name):
        e = self.fns.get(name)
        if e is None:
            g = self.globals.get(name)
            if g is not None and ' alias ' in ' ' + g[0]:
                mm = re.search(r'alias .*?(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))', g[0])
                if mm:
                    return self.fn(unq(mm.group(1)))
            return None
        if e[2] is None:
            l, body, _ = e
            l = l[len('define'):] if body is not None else l[len('declare'):]
            m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
            head = tokenize(l[:m.start()])
            while head and head[0][0] == 'id' and head[0][1] in (
                    'linkonce_odr', 'weak_odr', 'internal', 'private', 'weak', 'linkonce', 'external', 'hidden',
                    'protected', 'default', 'dso_local', 'dso_preemptable', 'available_externally', 'unnamed_addr',
                    'local_unnamed_addr', 'fastcc', 'ccc', 'coldcc', 'extern_weak'):
                head = head[1:]
            p = P(head, self)
            ra = p.skip_pattrs()
            ret = p.type()
            toks = tokenize(l[m.end():])
            p = P(toks, self)
            params = []
            va = False
            idx = 0
            while not p.eat(')'):
                if p.eat('...'):
                    va = True
                    continue
                t = p.type()
                at = p.skip_pattrs()
                if p.kind() == 'loc':
                    nm = unq(p.next())
                else:
                    nm = str(idx)
                idx += 1
                params.append((nm, t, at))
                p.eat(',')
            e[2] = Fn(self, name, ret, params, {}, body, ra)
        return e[2]

    def gvar(self, name):
        """-> (type, initialiser C or None, is_const)"""
        g = self.globals[name]
        if g[1] is None:
            s = g[0]
            m = re.match(r'^(.*?)\b(global|constant|alias)\b (.*)$', s)
            quals, kind, rest = m.groups()
            if kind == 'alias':
                raise Unsupported('alias global ' + name)
            p = P(tokenize(rest), self)
            t = p.type()
            init = None
            if 'external' not in quals.split() and 'extern_weak' not in quals.split():
                init = p.value(t)
            g[1] = (t, init, kind == 'constant')
        return g[1]

    # --- layout
    def resolve(self, t):
        if t.k != 'named':
            return t
        r = self._tcache.get(t.a)
        if r is None:
            s = self.types[t.a]
            r = P(tokenize(s), self).type()
            self._tcache[t.a] = r
        return r

    def size(self, t):
        t = self.resolve(t)
        if t._sz is None:
            t._sz = self._size(t)
        return t._sz

    def _size(self, t):
        k = t.k
        if k == 'int':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.a) or ((t.a + 7) // 8)
        if k == 'ptr':
            return 8
        if k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k in ('arr', 'vec'):
            return t.a * self.size(t.b)
        if k == 'struct':
            self.offsets(t)
            return t._sz
        if k == 'opaque':
            return 0
        raise Unsupported('size of %r' % t)

    def align(self, t):
        t = self.resolve(t)
        k = t.k
        if k == 'int':
            return min(self.size(t), 16) if t.a in (1, 8, 16, 32, 64, 128) else 8
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return self.align(t.b)
        if k == 'struct':
            if t.b:
                return 1
            return max([self.align(x) for x in t.a] or [1])
        return 1

    def offsets(self, t):
        t = self.resolve(t)
        if t._offs is None:
            o = 0
            offs = []
            for f in t.a:
                if not t.b:
                    al = self.align(f)
                    o = (o + al - 1) // al * al
                offs.append(o)
                o += self.size(f)
            if not t.b:
                al = self.align(t)
                o = (o + al - 1) // al * al
            t._sz = o
            t._offs = offs
        return t._offs
