"""Verification-condition generator: forward symbolic execution of LLVM IR with state merging at post-dominators.

A proof harness (a function of /verif/contracts/*.cpp) states requires/ensures around a call of the real function.
Functions that have a contract of their own are replaced at call sites by that contract (function `vpstub__<symbol>`);
every other function is taken from its real body.  All obligations become SMT queries (see solve.py)."""
import sys
import time
import math
import re
from fractions import Fraction
import z3
import ll
import solve
from ll import Unsupported, C, R, T, IntT, DOUBLE, PTR
from dom import *

sys.setrecursionlimit(200000)


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r = r       # region id
        self.o = o       # int (signed python) or symbolic i64 value

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.o)


class FnPtr:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'FnPtr(%s)' % self.n


class PInt:
    """ptrtoint of a pointer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class PCh:
    """guarded choice of pointers: [(cond z3 Bool, Ptr|0|FnPtr), ...] conditions disjoint and exhaustive under pc"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class Undef:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Region:
    __slots__ = ('id', 'size', 'cells', 'fill', 'name', 'const', 'heap', 'arr')

    def __init__(self, id, size, name, const=False, heap=False):
        self.id, self.size, self.name, self.const, self.heap = id, size, name, const, heap
        self.cells = {}      # off -> (size, value, type)
        self.fill = []       # list of (start, end, byte)
        self.arr = None      # unbounded: (z3 array, elem size, elem type, length value)

    def copy(self):
        r = Region(self.id, self.size, self.name, self.const, self.heap)
        r.cells = dict(self.cells)
        r.fill = list(self.fill)
        r.arr = self.arr
        return r


class State:
    __slots__ = ('pc', 'mem', 'frames', 'caught', 'own', 'cnt', 'allocas', 'tag')

    def __init__(self):
        self.pc = []
        self.mem = {}
        self.frames = []
        self.caught = []
        self.own = set()
        self.cnt = {}
        self.allocas = []
        self.tag = None

    def fork(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.frames = list(self.frames)
        if s.frames:
            s.frames[-1] = dict(s.frames[-1])
        s.caught = list(self.caught)
        s.own = set()
        self.own = set()
        s.cnt = dict(self.cnt)
        s.allocas = [list(a) for a in self.allocas]
        return s

    def wr(self, rid):
        r = self.mem[rid]
        if rid not in self.own:
            r = r.copy()
            self.mem[rid] = r
            self.own.add(rid)
        return r


class Obl:
    __slots__ = ('name', 'kind', 'pc', 'goal', 'where')

    def __init__(self, name, kind, pc, goal, where):
        self.name, self.kind, self.pc, self.goal, self.where = name, kind, pc, goal, where


class Loop(Exception):
    pass


class TooLong(Exception):
    pass


NIL = 0


class Engine:
    def __init__(self, mod, imode='bv', fmode='ieee', opt=None, log=None):
        self.mod = mod
        self.opt = {'loop_max': 3000, 'feas_ms': 400, 'ftoi_ub': True}
        self.opt.update(opt or {})
        self.dom = Dom(self, imode, fmode)
        self.imode, self.fmode = imode, fmode
        self.next_rid = 1
        self.deadline = None
        self.gl = {}           # global name -> rid
        self.obls = []
        self.anys = {}         # name -> (kind, z3 const)
        self.axioms = []
        self.ax_seen = {}
        self.extra_models = {}
        self.stack = []
        self.stats = {'ins': 0, 'branches': 0, 'merges': 0, 'feas': 0, 'paths': 0, 'inlined': {}, 'stubs': {},
                      'opaque': {}, 'covers': set()}
        self.log = log
        self.solver = z3.Solver()
        if self.opt.get('gf2'):
            self.use_gf2()
        self.ub_cache = {}
        self.idx_cache = {}
        self.var_cache = {}
        self.ax_by_var = {}
        self.nax = 0
        self.stats['inline'] = self.stats['inline_ub'] = self.stats['gf2'] = 0
        self.solver.set('timeout', self.opt['feas_ms'])
        self.lits = {}
        self.feas_cache = {}
        self.tids = {}
        self.live_cache = {}
        self.rtypes = {}
        self.stubs = {}
        self.base = State()
        self.base.frames = []
        self.uid = 0
        self.in_init = False
        self.fn_seen = set()
        self.loops_cut = {}

    # ------------------------------------------------------------ misc
    def fresh(self, t, hint='u'):
        self.uid += 1
        nm = '%s!%d' % (hint, self.uid)
        return self.sym(nm, t)

    def sym(self, nm, t):
        if t.k == 'int':
            if t.a == 1:
                return z3.Bool(nm)
            if self.imode == 'int':
                lo, hi = -(1 << (t.a - 1)), (1 << (t.a - 1)) - 1
                v = z3.Int(nm)
                self.axioms.append(z3.And(v >= lo, v <= hi))
                self.solver.add(self.axioms[-1])
                return IV(v, lo, hi)
            return z3.BitVec(nm, t.a)
        if t.k in ('double', 'float') or (t.k == 'x86_fp80' and self.fmode == 'real'):
            if self.fmode == 'real':
                return z3.Real(nm)
            return z3.FP(nm, F64 if t.k == 'double' else F32)
        if t.k == 'ptr':
            return Undef(t)
        raise Unsupported('fresh %r' % t)

    def where(self):
        return '/'.join(self.stack[-3:])

    def oblige(self, st, name, cond, kind='ensures'):
        if self.in_init:
            return
        if isinstance(cond, int) and kind == 'ub' and cond:
            return
        if kind == 'ub' and not self.opt.get('ub', True):
            return
        if not isinstance(cond, int) and kind == 'ub':
            cond = simp(cond)
            if isinstance(cond, int) and cond:
                return
            if not isinstance(cond, int) and self.inline_ub(st, cond):
                self.stats['inline_ub'] += 1
                return
        if kind in ('ensures', 'requires') and not isinstance(cond, int):
            if self.imode == 'bv' and solve.gf2_valid(cond):
                self.stats['gf2'] += 1
                cond = 1
            elif self.inline_ub(st, cond):
                cond = 1
        self.obls.append(Obl(name, kind, list(st.pc), cond, self.where()))
        if kind == 'ub' and not isinstance(cond, int):
            st.pc.append(cond)      # execution past an UB point assumes it did not happen

    def inline_ub(self, st, cond):
        """discharge a side condition at once with the path solver"""
        key = (tuple(c.get_id() for c in st.pc), cond.get_id())
        r = self.ub_cache.get(key)
        if r is None:
            q = self.slice_check(st.pc, z3.Not(cond), 150)
            if q is not None:
                self.ub_cache[key] = r = (q == z3.unsat, list(st.pc), cond)
                if r[0]:
                    self.stats['inline'] += 1
                return r[0]
            self.solver.set('timeout', 150)
            try:
                r = self.solver.check(*[self.lit(c) for c in st.pc] + [self.lit(z3.Not(cond))]) == z3.unsat
            finally:
                self.solver.set('timeout', self.opt['feas_ms'])
            self.ub_cache[key] = r = (r, list(st.pc), cond)
            if r[0]:
                self.stats['inline'] += 1
        return r[0]

    def vars(self, e):
        """names of the uninterpreted symbols of e"""
        r = self.var_cache.get(e.get_id())
        if r is not None:
            return r[0]
        out = set()
        seen = set()
        todo = [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            q = self.var_cache.get(i)
            if q is not None:
                out |= q[0]
                continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                todo.extend(x.children())
        self.var_cache[e.get_id()] = (frozenset(out), e)
        return self.var_cache[e.get_id()][0]

    def slice_check(self, pc, extra, ms):
        """checks the conjuncts (and axioms) connected with extra by shared symbols; None if there are many"""
        for a in self.axioms[self.nax:]:
            for v in self.vars(a):
                self.ax_by_var.setdefault(v, []).append(a)
        self.nax = len(self.axioms)
        known = set(self.vars(extra))
        todo = list(known)
        used = {}
        rest = [(c, self.vars(c)) for c in pc]
        while True:
            while todo:
                v = todo.pop()
                for a in self.ax_by_var.get(v, ()):
                    if a.get_id() not in used:
                        used[a.get_id()] = a
                        for w in self.vars(a):
                            if w not in known:
                                known.add(w)
                                todo.append(w)
            nrest = []
            for c, vs in rest:
                if not vs.isdisjoint(known):
                    used[c.get_id()] = c
                    for w in vs:
                        if w not in known:
                            known.add(w)
                            todo.append(w)
                else:
                    nrest.append((c, vs))
            if len(used) > 24:
                return None
            done = len(nrest) == len(rest)
            rest = nrest
            if done and not todo:
                break
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(extra, *used.values())
        self.stats['sliced'] = self.stats.get('sliced', 0) + 1
        return s.check()

    def lit(self, c):
        i = c.get_id()
        l = self.lits.get(i)
        if l is None:
            v = z3.Bool('lit!%d' % len(self.lits))
            self.solver.add(z3.Implies(v, c))
            self.lits[i] = l = (v, c)
        return l[0]

    def axiom(self, a):
        i = a.get_id()
        if i not in self.ax_seen:
            self.ax_seen[i] = a
            self.axioms.append(a)
            self.solver.add(a)

    def concretise(self, st, v, n):
        """the unique value of v on this path, or None"""
        if isinstance(v, int):
            return v
        e = self.dom.iv(v, n)[0] if self.imode == 'int' else self.dom.bv(v, n)
        ls = [self.lit(c) for c in st.pc]
        if self.solver.check(*ls) != z3.sat:
            return None
        m = self.solver.model().eval(e, model_completion=True)
        ne = e != m
        if self.solver.check(*(ls + [self.lit(ne)])) == z3.unsat:
            return uns(m.as_long(), n)
        return None

    def feasible(self, pc, extra):
        """is pc /\\ extra satisfiable?  'unknown' counts as yes"""
        key = (tuple(c.get_id() for c in pc), extra.get_id())
        r = self.feas_cache.get(key)
        if r is not None:
            return r[0]
        # decided by a conjunct of the path condition itself
        ids = key[0]
        if extra.get_id() in ids:
            return True
        if z3.is_not(extra):
            if extra.arg(0).get_id() in ids:
                return False
        elif any(z3.is_not(c) and c.arg(0).get_id() == extra.get_id() for c in pc):
            return False
        self.stats['feas'] += 1
        q = self.slice_check(pc, extra, self.opt['feas_ms'])
        if q is not None:
            r = q != z3.unsat
            self.feas_cache[key] = (r, list(pc), extra)
            return r
        ls = [self.lit(c) for c in pc] + [self.lit(extra)]
        r = self.solver.check(*ls) != z3.unsat
        self.feas_cache[key] = (r, list(pc), extra)
        return r

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, name, const=False, heap=False):
        rid = self.next_rid
        self.next_rid += 1
        st.mem[rid] = Region(rid, size, name, const, heap)
        st.own.add(rid)
        return Ptr(rid, 0)

    def global_ptr(self, st, name):
        if name in self.mod.fns:
            return FnPtr(name)
        g = self.mod.globals.get(name)
        if g is None:
            raise Unsupported('global ' + name)
        if ' alias ' in ' ' + g[0]:
            m = re.search(r'alias .*?(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\s*$', g[0])
            if m:
                return self.global_ptr(st, ll.unq(m.group(1)))
            raise Unsupported('alias ' + name)
        rid = self.gl.get(name)
        if rid is None:
            rid = self.next_rid
            self.next_rid += 1
            self.gl[name] = rid
        if rid not in st.mem:
            t, init, const = self.mod.gvar(name)
            try:
                sz = self.mod.size(t)
            except Unsupported:
                sz = 8
            r = Region(rid, sz, '@' + name, const)
            st.mem[rid] = r
            st.own.add(rid)
            if init is not None:
                self.init_const(st, r, 0, t, init)
        return Ptr(rid, 0)

    def use_gf2(self):
        """keep bit vectors that are xors of input bits in a canonical form (option gf2)"""
        g = solve.GF2(cap=200)

        def wrap(f):
            def h(*a):
                r = f(*a)
                if isinstance(r, (z3.BitVecRef, z3.BoolRef)):
                    r = g.canon(r)
                    if z3.is_bv_value(r):
                        return r.as_long()
                    if z3.is_true(r):
                        return 1
                    if z3.is_false(r):
                        return 0
                return r
            return h
        for n in ('ite', 'ibin', 'icmp', 'icast'):
            setattr(self.dom, n, wrap(getattr(self.dom, n)))

    def run_ctors(self, st, rx):
        """run the dynamic initialisers of namespace-scope objects (functions matching rx) and keep their effects"""
        g = self.mod.globals.get('llvm.global_ctors')
        if g is None:
            raise Unsupported('no dynamic initialisers')
        names = [n for n in re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', g[0])]
        names = [n.strip('"') for n in names]
        done = 0
        for n in names:
            if n in self.mod.fns and re.search(rx, n):
                done += 1
                outs = self.exec_fn(st, self.mod.fn(n), [])
                if len(outs) != 1 or outs[0][1] != 'ret' or outs[0][0] is not st:
                    raise Unsupported('dynamic initialiser ' + n + ' branches')
        if not done:
            raise Unsupported('no dynamic initialiser matches ' + rx)

    def init_const(self, st, r, off, t, c):
        t = self.mod.resolve(t)
        k = c.k
        if k == 'zero':
            r.fill.append((off, off + self.mod.size(t), 0))
            return
        if k == 'undef':
            return
        if k == 'str':
            for i, b in enumerate(c.v):
                r.cells[off + i] = (1, b, IntT(8))
            return
        if k == 'agg':
            if t.k in ('arr', 'vec'):
                es = self.mod.size(t.b)
                for i, e in enumerate(c.v):
                    self.init_const(st, r, off + i * es, t.b, e)
            else:
                for o, ft, e in zip(self.mod.offsets(t), t.a, c.v):
                    self.init_const(st, r, off + o, ft, e)
            return
        r.cells[off] = (self.mod.size(t), self.const(st, c), t)

    def const(self, st, c):
        k = c.k
        if k == 'int':
            return c.v
        if k == 'fp':
            return self.dom.fconst(c.v, c.t.k)
        if k == 'null':
            return NIL
        if k == 'undef':
            return Undef(c.t)
        if k == 'zero':
            return self.zero(c.t)
        if k == 'glob':
            return self.global_ptr(st, c.v)
        if k == 'agg':
            return tuple(self.const(st, x) for x in c.v)
        if k == 'expr':
            x = c.v
            if x[0] == 'gep':
                ops = [self.const(st, o) for o in x[2]]
                return self.gep(st, x[1], ops[0], ops[1:], x[2][1:])
            if x[0] == 'ptrtoint':
                return self.cast(st, 'ptrtoint', self.const(st, x[1]), x[1].t, x[2])
            if x[0] == 'inttoptr':
                return self.cast(st, 'inttoptr', self.const(st, x[1]), x[1].t, x[2])
            if x[0] in ('sub', 'add'):
                return self.binop(st, x[0], self.const(st, x[1]), self.const(st, x[2]), c.t, ())
        raise Unsupported('const %r' % c)

    def zero(self, t):
        t = self.mod.resolve(t)
        if t.k == 'int':
            return 0
        if t.k in ('double', 'float'):
            return self.dom.fconst(0.0, t.k)
        if t.k == 'ptr':
            return NIL
        if t.k == 'x86_fp80':
            return Fraction(0)
        if t.k == 'struct':
            return tuple(self.zero(x) for x in t.a)
        if t.k == 'arr':
            return tuple(self.zero(t.b) for _ in range(t.a))
        raise Unsupported('zero %r' % t)

    def region(self, st, rid):
        r = st.mem.get(rid)
        if r is None:
            b = self.base.mem.get(rid)
            if b is not None:
                st.mem[rid] = b
                return b
            for n, i in self.gl.items():
                if i == rid:
                    self.global_ptr(st, n)
                    return st.mem[rid]
            raise Unsupported('use of dead region')
        return r

    def load(self, st, p, t):
        t = self.mod.resolve(t)
        if isinstance(p, PCh):
            vals = [(c, self.load(st, q, t)) for c, q in p.alts]
            r = vals[-1][1]
            for c, v in vals[-2::-1]:
                x = self.ite_val(c, v, r, t)
                if x is None:
                    raise Unsupported('load through pointer choice')
                r = x
            return r
        if t.k == 'struct':
            return tuple(self.load(st, self.padd(p, o), ft) for o, ft in zip(self.mod.offsets(t), t.a))
        if t.k == 'arr':
            es = self.mod.size(t.b)
            return tuple(self.load(st, self.padd(p, i * es), t.b) for i in range(t.a))
        sz = self.mod.size(t)
        if not isinstance(p, Ptr):
            self.oblige(st, 'memory-safety: load through null/invalid pointer', 0, 'ub')
            raise PathEnd()
        r = self.region(st, p.r)
        if r.arr is not None:
            return self.arr_load(st, r, p, t, sz)
        if not isinstance(p.o, int):
            n = self.concretise(st, p.o, 64) if self.opt.get('uniqidx') else None
            if n is None:
                return self.load_sym(st, r, p.o, t, sz)
            if n >= 1 << 63:
                n -= 1 << 64
            p = Ptr(p.r, n)
        if r.size is not None and (p.o < 0 or p.o + sz > r.size):
            self.oblige(st, 'memory-safety: out-of-bounds load from %s' % r.name, 0, 'ub')
            raise PathEnd()
        return self.load_at(st, r, p.o, t, sz)

    def load_at(self, st, r, o, t, sz):
        c = r.cells.get(o)
        if c is not None and c[0] == sz:
            v = self.conv(c[1], c[2], t)
            if v is not None:
                return v
        # byte-wise
        if c is None:
            ov = [oo for oo in range(o - 15, o + sz) if oo in r.cells and oo + r.cells[oo][0] > o]
            if not ov:
                for s, e, b in reversed(r.fill):
                    if s <= o and o + sz <= e:
                        return self.fillval(b, t, sz)
                    if s < o + sz and o < e:
                        break
                v = self.fresh_undef(t, r, o)
                if t.k != 'ptr':
                    r2 = st.wr(r.id) if r.id in st.mem else r
                    r2.cells[o] = (sz, v, t)
                return v
        by = [self.load_byte(st, r, o + i) for i in range(sz)]
        return self.from_bytes(by, t, sz)

    def fresh_undef(self, t, r, o):
        if t.k == 'ptr':
            return Undef(t)
        return self.fresh(t, 'undef')

    def fillval(self, b, t, sz):
        if b == 0:
            return self.zero(t)
        v = int.from_bytes(bytes([b]) * sz, 'little')
        return self.conv(v, IntT(8 * sz), t)

    def load_byte(self, st, r, o):
        for oo in range(o, o - 16, -1):
            c = r.cells.get(oo)
            if c is not None:
                if oo + c[0] <= o:
                    break
                k = o - oo
                v, ct = c[1], c[2]
                if c[0] == 1 and ct.k == 'int':
                    if ct.a == 1:
                        return self.dom.icast(st, 'zext', v, 1, 8)
                    return v
                iv = self.conv(v, ct, IntT(8 * c[0]))
                if iv is None or isinstance(iv, (Ptr, Undef)):
                    raise Unsupported('byte of %r' % (v,))
                if isinstance(iv, int):
                    return (iv >> (8 * k)) & 255
                if self.imode == 'int':
                    e = self.dom.ibin(st, 'lshr', iv, 8 * k, 8 * c[0])
                    return self.dom.icast(st, 'trunc', e, 8 * c[0], 8)
                return z3.simplify(z3.Extract(8 * k + 7, 8 * k, iv))
        for s, e, b in reversed(r.fill):
            if s <= o < e:
                return b
        v = self.fresh(IntT(8), 'undef')
        r2 = st.wr(r.id)
        r2.cells[o] = (1, v, IntT(8))
        return v

    def from_bytes(self, by, t, sz):
        if all(isinstance(b, int) for b in by):
            v = int.from_bytes(bytes(by), 'little')
        elif self.imode == 'int':
            e, lo, hi = z3.IntVal(0), 0, 0
            for i, b in enumerate(by):
                x, l, h = self.dom.unsigned(b, 8)
                e = e + x * z3.IntVal(1 << (8 * i))
                lo += l << (8 * i)
                hi += h << (8 * i)
            v = self.dom.wrap(e, lo, hi, 8 * sz)
        else:
            v = z3.simplify(z3.Concat(*[self.dom.bv(b, 8) for b in reversed(by)])) if sz > 1 else by[0]
        r = self.conv(v, IntT(8 * sz), t)
        if r is None:
            raise Unsupported('reinterpret bytes as %r' % t)
        return r

    def conv(self, v, ft, t):
        """reinterpret value v of type ft (same size) as type t"""
        if isinstance(v, Undef):
            if t.k == 'ptr':
                return v
            return self.fresh(t, 'undef')
        ft = self.mod.resolve(ft)
        if ft is t or (ft.k == t.k and (ft.k != 'int' or ft.a == t.a)):
            return v
        if ft.k == 'int' and t.k == 'int':
            if t.a == 1:
                return self.dom.icast(None, 'trunc', v, ft.a, 1)
            if ft.a == 1:
                return self.dom.icast(None, 'zext', v, 1, t.a)
            if self.mod.size(ft) == self.mod.size(t):
                if isinstance(v, int):
                    return v
            return None
        if t.k == 'ptr' and ft.k == 'int':
            return self.cast(None, 'inttoptr', v, ft, t)
        if t.k == 'int' and ft.k == 'ptr':
            if isinstance(v, int):
                return v
            return PInt(v)
        import struct
        if t.k in ('double', 'float') and ft.k == 'int':
            kind = 'd' if t.k == 'double' else 'f'
            if isinstance(v, int):
                x = struct.unpack('<' + kind, v.to_bytes(8 if kind == 'd' else 4, 'little'))[0]
                return self.dom.fconst(x, t.k)
            if self.fmode == 'ieee' and self.imode == 'bv':
                if z3.is_app(v) and v.decl().name() == 'vp_ieee_bits':
                    return v.arg(0)
                return z3.fpBVToFP(v, F64 if kind == 'd' else F32)
            return None
        if t.k == 'int' and ft.k in ('double', 'float'):
            kind = 'd' if ft.k == 'double' else 'f'
            if isinstance(v, (float, Fraction)):
                return int.from_bytes(struct.pack('<' + kind, float(v)), 'little')
            if self.fmode == 'ieee' and self.imode == 'bv':
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_FPA_TO_FP and v.num_args() == 1 and z3.is_bv(v.arg(0)):
                    return v.arg(0)
                return z3.fpToIEEEBV(v)
            return None
        if t.k == 'ptr' and ft.k == 'ptr':
            return v
        return None

    def offeq(self, off, k):
        """z3 Bool / 0/1 for symbolic offset == const"""
        return self.dom.icmp('eq', off, uns(k, 64), 64)

    def load_sym(self, st, r, off, t, sz):
        cands = sorted(o for o, c in r.cells.items() if c[0] == sz)
        if r.fill and r.size is not None and r.size <= 65536:
            s = set(cands)
            for a, b, _ in r.fill:
                a0 = a
                o = a0
                while o + sz <= b:
                    if o not in r.cells:
                        s.add(o)
                    o += sz
            cands = sorted(s)
        if not cands and self.opt.get('lazy_arr') and r.size and r.size % sz == 0:
            cands = list(range(0, r.size, sz))
        if not cands:
            raise Unsupported('symbolic load from empty region ' + str(r.name))
        if len(cands) > 4096:
            raise Unsupported('symbolic load: too many cells')
        conds = []
        for o in cands:
            c = self.offeq(off, o)
            if isinstance(c, int) and c == 0:
                continue
            conds.append((c, o))
        if not all(isinstance(c, int) for c, _ in conds):
            if len(conds) == len(cands) or True:
                g = z3.Or(*[b2z(c) for c, _ in conds]) if conds else z3.BoolVal(False)
                # only oblige when not implied syntactically; solver decides
                self.oblige(st, 'memory-safety: symbolic load index in bounds of %s' % r.name, simp(g), 'ub')
        res = None
        vals = []
        for c, o in conds:
            cell = r.cells.get(o)
            v = self.load_at(st, r, o, t, sz)
            r = self.region(st, r.id)
            vals.append((c, v))
        if not vals:
            raise PathEnd()
        res = vals[-1][1]
        for c, v in vals[-2::-1]:
            x = self.ite_val(b2z(c), v, res, t)
            if x is None:
                raise Unsupported('symbolic load of unmergeable values')
            res = x
        return res

    def store(self, st, p, v, t):
        t = self.mod.resolve(t)
        if isinstance(p, PCh):
            for c, q in p.alts:
                if not isinstance(q, Ptr):
                    self.oblige(st, 'memory-safety: store through null', simp(z3.Not(c)), 'ub')
                    continue
                old = self.load(st, q, t)
                x = self.ite_val(c, v, old, t)
                if x is None:
                    raise Unsupported('store through pointer choice')
                self.store(st, q, x, t)
            return
        if t.k == 'struct' and isinstance(v, tuple):
            for o, ft, x in zip(self.mod.offsets(t), t.a, v):
                self.store(st, self.padd(p, o), x, ft)
            return
        if t.k == 'arr' and isinstance(v, tuple):
            es = self.mod.size(t.b)
            for i, x in enumerate(v):
                self.store(st, self.padd(p, i * es), x, t.b)
            return
        sz = self.mod.size(t)
        if not isinstance(p, Ptr):
            self.oblige(st, 'memory-safety: store through null/invalid pointer', 0, 'ub')
            raise PathEnd()
        r = self.region(st, p.r)
        if r.const and not self.in_init:
            self.oblige(st, 'memory-safety: store to constant %s' % r.name, 0, 'ub')
            raise PathEnd()
        r = st.wr(p.r)
        if r.arr is not None:
            return self.arr_store(st, r, p, v, t, sz)
        if not isinstance(p.o, int):
            return self.store_sym(st, r, p.o, v, t, sz)
        if r.size is not None and (p.o < 0 or p.o + sz > r.size):
            self.oblige(st, 'memory-safety: out-of-bounds store to %s' % r.name, 0, 'ub')
            raise PathEnd()
        c = r.cells.get(p.o)
        if c is None or c[0] != sz:
            self.clear_range(st, r, p.o, sz)
        r.cells[p.o] = (sz, v, t)

    def clear_range(self, st, r, o, sz):
        """make [o,o+sz) free of cells, splitting partially overlapped ones into bytes"""
        for oo in list(range(o - 15, o + sz)):
            c = r.cells.get(oo)
            if c is None or oo + c[0] <= o:
                continue
            if oo < o or oo + c[0] > o + sz:
                by = [self.load_byte(st, r, oo + i) if not (o <= oo + i < o + sz) else None for i in range(c[0])]
                del r.cells[oo]
                for i, b in enumerate(by):
                    if b is not None:
                        r.cells[oo + i] = (1, b, IntT(8))
            else:
                del r.cells[oo]

    def store_sym(self, st, r, off, v, t, sz):
        cands = sorted(o for o, c in r.cells.items() if c[0] == sz)
        if r.fill and r.size is not None and r.size <= 65536:
            s = set(cands)
            for a, b, _ in r.fill:
                o = a
                while o + sz <= b:
                    if o not in r.cells:
                        s.add(o)
                    o += sz
            cands = sorted(s)
        if not cands and r.size and r.size % sz == 0 and r.size // sz <= 1024:
            cands = list(range(0, r.size, sz))
        if not cands or len(cands) > 4096:
            raise Unsupported('symbolic store to %s' % r.name)
        conds = []
        for o in cands:
            c = self.offeq(off, o)
            if isinstance(c, int) and c == 0:
                continue
            conds.append((b2z(c), o))
        self.oblige(st, 'memory-safety: symbolic store index in bounds of %s' % r.name,
                    simp(z3.Or(*[c for c, _ in conds])) if conds else 0, 'ub')
        for c, o in conds:
            old = self.load_at(st, st.mem[r.id], o, t, sz)
            x = self.ite_val(c, v, old, t)
            if x is None:
                raise Unsupported('symbolic store of pointer')
            st.wr(r.id).cells[o] = (sz, x, t)

    # unbounded array regions (one element type)
    def arr_index(self, st, r, p, sz, what):
        A, es, et, ln = r.arr
        if sz != es:
            raise Unsupported('array region access of different width')
        o = p.o if not isinstance(p.o, int) else uns(p.o, 64)
        if es == 1:
            idx = o
        elif isinstance(o, int):
            if sgn(o, 64) % es:
                raise Unsupported('misaligned array access')
            idx = uns(sgn(o, 64) // es, 64)
        else:
            if self.imode == 'int':
                q = self.divexact(o.e, es)
                idx = IV(q, -(-o.lo // es), o.hi // es)
            else:
                idx = z3.simplify(z3.LShR(o, (es - 1).bit_length()))
        lt = self.dom.icmp('slt', idx, ln, 64)
        ge = self.dom.icmp('sge', idx, 0, 64)
        self.oblige(st, 'memory-safety: array %s index in bounds of %s' % (what, r.name), band(lt, ge), 'ub')
        return idx

    def divexact(self, e, k):
        """Int expr e known to be a multiple of k -> e/k, syntactically when possible"""
        if z3.is_int_value(e):
            return z3.IntVal(e.as_long() // k)
        if z3.is_mul(e) and z3.is_int_value(e.arg(e.num_args() - 1)) and e.num_args() == 2 and \
                e.arg(1).as_long() % k == 0:
            return z3.simplify(e.arg(0) * (e.arg(1).as_long() // k))
        if z3.is_mul(e) and z3.is_int_value(e.arg(0)) and e.num_args() == 2 and e.arg(0).as_long() % k == 0:
            return z3.simplify(e.arg(1) * (e.arg(0).as_long() // k))
        if z3.is_add(e):
            return z3.simplify(z3.Sum([self.divexact(x, k) for x in e.children()]))
        if z3.is_sub(e):
            return z3.simplify(self.divexact(e.arg(0), k) - self.divexact(e.arg(1), k))
        return e / z3.IntVal(k)

    def arr_load(self, st, r, p, t, sz):
        if isinstance(p.o, int) and r.arr is None:
            return None
        idx = self.arr_index(st, r, p, sz, 'load')
        A, es, et, ln = r.arr
        v = self.asel(A, self.ix(idx))
        if t.k == 'int' and self.imode == 'int':
            lo, hi = -(1 << (t.a - 1)), (1 << (t.a - 1)) - 1
            self.add_range_axiom(st, v, lo, hi)
            return IV(v, lo, hi)
        return self.cv(v)

    def add_range_axiom(self, st, v, lo, hi):
        st.pc.append(z3.And(v >= lo, v <= hi))

    def ix(self, idx):
        if self.imode == 'int':
            return self.dom.iv(idx, 64)[0]
        return self.dom.bv(idx, 64)

    # array terms are kept as Store chains over distinct indices
    def idx_rel(self, i, j):
        """1 equal, 0 different, None unknown"""
        if i.eq(j):
            return 1
        key = (i.get_id(), j.get_id())
        r = self.idx_cache.get(key)
        if r is None:
            d = z3.simplify(i - j)
            v = None
            if z3.is_bv_value(d) or z3.is_int_value(d):
                v = int(d.as_long() == 0)
            elif self.imode != 'int':
                k, a = linform(i)
                l, b = linform(j)
                if a == b:
                    v = int(k == l)
            self.idx_cache[key] = r = (v, i, j)
        return r[0]

    def chain(self, A):
        out = []
        while z3.is_app(A) and A.decl().kind() == z3.Z3_OP_STORE:
            out.append((A.arg(1), A.arg(2)))
            A = A.arg(0)
        return A, out

    def asel(self, A, i):
        B, ch = self.chain(A)
        for k, (j, v) in enumerate(ch):
            r = self.idx_rel(i, j)
            if r == 1:
                return v
            if r is None:
                for jj, vv in reversed(ch[k:]):
                    B = z3.Store(B, jj, vv)
                return z3.Select(B, i)
        return z3.Select(B, i)

    def asto(self, A, i, v):
        B, ch = self.chain(A)
        for k, (j, _) in enumerate(ch):
            r = self.idx_rel(i, j)
            if r == 1:
                ch[k] = (j, v)
                break
            if r is None:
                return z3.Store(A, i, v)
        else:
            return z3.Store(A, i, v)
        for jj, vv in reversed(ch):
            B = z3.Store(B, jj, vv)
        return B

    def amerge(self, c, X, Y, et):
        A, cx = self.chain(X)
        B, cy = self.chain(Y)
        if A.eq(B):
            ids = []
            for j, _ in cx + cy:
                rs = [self.idx_rel(j, k) for k in ids]
                if 1 in rs:
                    continue
                if None in rs:
                    return z3.If(c, X, Y)
                ids.append(j)
            for j in ids:
                x, y = self.asel(X, j), self.asel(Y, j)
                if et.k == 'int' and self.imode != 'int':
                    v = self.dom.ite(c, self.cv(x), self.cv(y), et)
                    v = self.dom.bv(v, et.a)
                else:
                    v = x if x.eq(y) else z3.If(c, x, y)
                A = z3.Store(A, j, v)
            return A
        return z3.If(c, X, Y)

    @staticmethod
    def cv(x):
        return x.as_long() if z3.is_bv_value(x) else x

    def arr_store(self, st, r, p, v, t, sz):
        idx = self.arr_index(st, r, p, sz, 'store')
        A, es, et, ln = r.arr
        if t.k == 'int':
            x = self.dom.iv(v, t.a)[0] if self.imode == 'int' else self.dom.bv(v, t.a)
        else:
            x = self.dom.fz(v, t.k)
        r.arr = (self.asto(A, self.ix(idx), x), es, et, ln)

    def padd(self, p, o):
        if isinstance(p, PCh):
            return PCh([(c, self.padd(q, o)) for c, q in p.alts])
        if o == 0 and isinstance(o, int):
            return p
        if not isinstance(p, Ptr):
            if isinstance(p, int) and isinstance(o, int):
                return uns(p + o, 64)
            if isinstance(p, Undef):
                return p
            return Undef(PTR)
        if isinstance(p.o, int) and isinstance(o, int):
            return Ptr(p.r, p.o + o)
        a = uns(p.o, 64) if isinstance(p.o, int) else p.o
        b = uns(o, 64) if isinstance(o, int) else o
        x = self.dom.ibin(None, 'add', a, b, 64)
        return Ptr(p.r, sgn(x, 64) if isinstance(x, int) else x)

    def gep(self, st, sty, base, idx, idxops):
        t = sty
        p = base
        for k, (i, o) in enumerate(zip(idx, idxops)):
            n = o.t.a
            if k == 0:
                sc = self.mod.size(t)
            else:
                t = self.mod.resolve(t)
                if t.k == 'struct':
                    p = self.padd(p, self.mod.offsets(t)[i])
                    t = t.a[i]
                    continue
                sc = self.mod.size(t.b)
                t = t.b
            if isinstance(i, Undef):
                i = self.fresh(IntT(n))
            if isinstance(i, int):
                p = self.padd(p, sgn(i, n) * sc)
            else:
                if n < 64:
                    i = self.dom.icast(st, 'sext', i, n, 64)
                p = self.padd(p, self.dom.ibin(st, 'mul', i, sc, 64) if sc != 1 else i)
        return p

    def memcpy(self, st, d, s, n, move=False):
        if not isinstance(n, int):
            n = self.concretise(st, n, 64)
        if n is None:
            raise Unsupported('memcpy of symbolic size')
        if n == 0:
            return
        if isinstance(s, PCh) or isinstance(d, PCh):
            # element-wise through i8 would be slow; use words
            raise Unsupported('memcpy through pointer choice')
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            self.oblige(st, 'memory-safety: memcpy with null pointer', 0, 'ub')
            raise PathEnd()
        rs = self.region(st, s.r)
        if not isinstance(s.o, int) or not isinstance(d.o, int) or rs.arr is not None or \
                self.region(st, d.r).arr is not None:
            if n in (1, 2, 4, 8):
                v = self.load(st, s, IntT(8 * n))
                self.store(st, d, v, IntT(8 * n))
                return
            raise Unsupported('memcpy with symbolic offset')
        if s.o < 0 or (rs.size is not None and s.o + n > rs.size):
            self.oblige(st, 'memory-safety: memcpy source out of bounds of %s' % rs.name, 0, 'ub')
            raise PathEnd()
        # collect
        items = []
        o = s.o
        end = s.o + n
        fills = []
        if n == 1:
            items.append((0, (1, self.load_byte(st, rs, o), IntT(8))))
        else:
            # split cells crossing the borders
            for border in (s.o, end):
                for oo in range(border - 15, border):
                    c = rs.cells.get(oo)
                    if c and oo + c[0] > border:
                        rs = st.wr(s.r)
                        by = [self.load_byte(st, rs, oo + i) for i in range(c[0])]
                        del rs.cells[oo]
                        for i, b in enumerate(by):
                            rs.cells[oo + i] = (1, b, IntT(8))
            if len(rs.cells) > 4 * n:
                for oo in range(s.o, end):
                    c = rs.cells.get(oo)
                    if c:
                        items.append((oo - s.o, c))
            else:
                for oo, c in rs.cells.items():
                    if s.o <= oo < end:
                        items.append((oo - s.o, c))
            for a, b, v in rs.fill:
                a, b = max(a, s.o), min(b, end)
                if a < b:
                    fills.append((a - s.o, b - s.o, v))
        rd = self.region(st, d.r)
        if d.o < 0 or (rd.size is not None and d.o + n > rd.size):
            self.oblige(st, 'memory-safety: memcpy destination out of bounds of %s' % rd.name, 0, 'ub')
            raise PathEnd()
        rd = st.wr(d.r)
        if n == 1:
            self.clear_range(st, rd, d.o, 1)
        else:
            self.clear_big(st, rd, d.o, n)
            # uninitialised parts: mark by splitting fills
            self.cut_fill(rd, d.o, d.o + n)
        for a, b, v in fills:
            rd.fill.append((a + d.o, b + d.o, v))
        for o, c in items:
            rd.cells[d.o + o] = c

    def clear_big(self, st, r, o, n):
        for border in (o, o + n):
            for oo in range(border - 15, border):
                c = r.cells.get(oo)
                if c and oo + c[0] > border:
                    by = [self.load_byte(st, r, oo + i) for i in range(c[0])]
                    del r.cells[oo]
                    for i, b in enumerate(by):
                        r.cells[oo + i] = (1, b, IntT(8))
        for oo in [x for x in r.cells if o <= x < o + n]:
            del r.cells[oo]

    def cut_fill(self, r, a, b):
        nf = []
        for s, e, v in r.fill:
            if e <= a or s >= b:
                nf.append((s, e, v))
            else:
                if s < a:
                    nf.append((s, a, v))
                if e > b:
                    nf.append((b, e, v))
        r.fill = nf

    def memset(self, st, d, b, n):
        if not isinstance(n, int):
            raise Unsupported('memset of symbolic size')
        if n == 0:
            return
        if not isinstance(d, Ptr):
            self.oblige(st, 'memory-safety: memset null', 0, 'ub')
            raise PathEnd()
        if not isinstance(d.o, int):
            raise Unsupported('memset symbolic offset')
        r = st.wr(self.region(st, d.r).id)
        if d.o < 0 or (r.size is not None and d.o + n > r.size):
            self.oblige(st, 'memory-safety: memset out of bounds of %s' % r.name, 0, 'ub')
            raise PathEnd()
        self.clear_big(st, r, d.o, n)
        if isinstance(b, int):
            self.cut_fill(r, d.o, d.o + n)
            r.fill.append((d.o, d.o + n, b & 255))
        else:
            for i in range(n):
                r.cells[d.o + i] = (1, b, IntT(8))

    # ------------------------------------------------------------ scalar ops
    def ite_val(self, c, a, b, t):
        """c z3 Bool"""
        if a is b:
            return a
        if t.k == 'ptr':
            if isinstance(a, Undef):
                return b
            if isinstance(b, Undef):
                return a
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.n == b.n:
                return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                if isinstance(a.o, int) and isinstance(b.o, int) and a.o == b.o:
                    return a
                x = uns(a.o, 64) if isinstance(a.o, int) else a.o
                y = uns(b.o, 64) if isinstance(b.o, int) else b.o
                return Ptr(a.r, self.dom.ite(c, x, y, IntT(64)))
            al = []
            for cond, v in ((c, a), (z3.Not(c), b)):
                if isinstance(v, PCh):
                    for cc, q in v.alts:
                        al.append((z3.And(cond, cc), q))
                elif isinstance(v, (Ptr, FnPtr)) or (isinstance(v, int) and v == 0):
                    al.append((cond, v))
                else:
                    return None
            # join equal targets
            out = []
            for cc, q in al:
                for i, (c2, q2) in enumerate(out):
                    if type(q) is type(q2) and ((isinstance(q, Ptr) and q.r == q2.r and isinstance(q.o, int) and
                                                 isinstance(q2.o, int) and q.o == q2.o) or
                                                (isinstance(q, int) and q == q2) or
                                                (isinstance(q, FnPtr) and q.n == q2.n)):
                        out[i] = (z3.Or(c2, cc), q2)
                        break
                else:
                    out.append((cc, q))
            if len(out) == 1:
                return out[0][1]
            if len(out) > 8:
                return None
            return PCh(out)
        if isinstance(a, Undef):
            return b
        if isinstance(b, Undef):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple):
            t = self.mod.resolve(t)
            fts = t.a if t.k == 'struct' else [t.b] * len(a)
            out = []
            for x, y, ft in zip(a, b, fts):
                r = self.ite_val(c, x, y, self.mod.resolve(ft))
                if r is None:
                    return None
                out.append(r)
            return tuple(out)
        if isinstance(a, (PInt,)) or isinstance(b, PInt):
            if isinstance(a, PInt) and isinstance(b, PInt):
                x = self.ite_val(c, a.p, b.p, PTR)
                return PInt(x) if x is not None else None
            return None
        return self.dom.ite(c, a, b, t)

    def binop(self, st, op, a, b, t, flags):
        if isinstance(a, Undef):
            a = self.fresh(t, 'undef')
        if isinstance(b, Undef):
            b = self.fresh(t, 'undef')
        if t.k == 'int':
            if isinstance(a, PInt) or isinstance(b, PInt):
                return self.pint_bin(st, op, a, b)
            return self.dom.ibin(st, op, a, b, t.a, flags)
        if t.k in ('double', 'float') or (t.k == 'x86_fp80' and self.fmode == 'real'):
            return self.dom.fbin(op, a, b, t.k)
        if t.k == 'x86_fp80':
            if isinstance(a, Fraction) and isinstance(b, Fraction):
                return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b,
                        'fdiv': lambda: a / b}[op]()
            raise Unsupported('x86_fp80 arithmetic on symbolic value')
        raise Unsupported('binop %s %r' % (op, t))

    def pint_bin(self, st, op, a, b):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            p, q = a.p, b.p
            if isinstance(p, PCh) or isinstance(q, PCh):
                ps = p.alts if isinstance(p, PCh) else [(z3.BoolVal(True), p)]
                qs = q.alts if isinstance(q, PCh) else [(z3.BoolVal(True), q)]
                res = None
                for c1, x in ps:
                    for c2, y in qs:
                        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r != y.r:
                            continue
                        d = self.pint_bin(st, 'sub', PInt(x), PInt(y))
                        res = d if res is None else self.dom.ite(z3.And(c1, c2), d, res, IntT(64))
                if res is None:
                    raise Unsupported('pointer difference')
                return res
            if isinstance(p, int) and isinstance(q, int):
                return uns(p - q, 64)
            if isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r:
                x = uns(p.o, 64) if isinstance(p.o, int) else p.o
                y = uns(q.o, 64) if isinstance(q.o, int) else q.o
                return self.dom.ibin(st, 'sub', x, y, 64)
            raise Unsupported('difference of unrelated pointers')
        if op in ('sub',) and isinstance(a, PInt) and isinstance(b, int):
            return PInt(self.padd(a.p, -sgn(b, 64))) if b else a
        if op == 'sub' and isinstance(a, int) and a == 0 and isinstance(b, PInt):
            if isinstance(b.p, int):
                return uns(-b.p, 64)
        if op == 'add':
            if isinstance(b, PInt):
                a, b = b, a
            if isinstance(b, PInt):
                raise Unsupported('pointer sum')
            return PInt(self.padd(a.p, sgn(b, 64) if isinstance(b, int) else b))
        if op == 'sub' and isinstance(b, PInt) and isinstance(b.p, int) and b.p == 0:
            return a
        if op == 'sub' and isinstance(b, PInt) and isinstance(b.p, int) and isinstance(a, PInt):
            return a
        if op == 'and' and isinstance(a, PInt) and isinstance(b, int) and b == 1 and isinstance(a.p, (FnPtr, Ptr)):
            # member-function-pointer virtual bit: functions and objects are aligned
            return 0
        raise Unsupported('pointer arithmetic ' + op)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, PCh):
            r = None
            for c, q in a.alts[::-1]:
                v = self.pcmp(st, pred, q, b)
                r = v if r is None else self.dom.ite(c, v, r, IntT(1))
            return r
        if isinstance(b, PCh):
            r = None
            for c, q in b.alts[::-1]:
                v = self.pcmp(st, pred, a, q)
                r = v if r is None else self.dom.ite(c, v, r, IntT(1))
            return r
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported('comparison of undefined pointer in ' + self.where())

        def key(x):
            return ('r', x.r) if isinstance(x, Ptr) else ('f', x.n) if isinstance(x, FnPtr) else ('c', 0)
        ka, kb = key(a), key(b)
        if ka == kb and isinstance(a, Ptr):
            x = uns(a.o, 64) if isinstance(a.o, int) else a.o
            y = uns(b.o, 64) if isinstance(b.o, int) else b.o
            pr = pred if pred in ('eq', 'ne') else 's' + pred[1:]
            return self.dom.icmp(pr, x, y, 64)
        if ka == kb and isinstance(a, int):
            return self.dom.icmp(pred, a, b, 64)
        same = ka == kb
        if pred == 'eq':
            return int(same)
        if pred == 'ne':
            return int(not same)
        # ordering against null
        if isinstance(a, Ptr) and isinstance(b, int) and b == 0:
            return int(pred in ('ugt', 'uge'))
        if isinstance(b, Ptr) and isinstance(a, int) and a == 0:
            return int(pred in ('ult', 'ule'))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            # distinct objects: order is unspecified but total; allocation order stands in (e.g. std::less, string
            # overlap test _M_disjunct only needs disjointness)
            r = a.r < b.r
            return int({'ult': r, 'ule': r, 'ugt': not r, 'uge': not r}[pred])
        raise Unsupported('pointer compare %s' % pred)

    def cast(self, st, op, v, ft, t):
        if isinstance(v, Undef) and op not in ('ptrtoint', 'inttoptr', 'bitcast'):
            v = self.fresh(ft, 'undef')
        if op in ('trunc', 'zext', 'sext'):
            if isinstance(v, PInt):
                if op == 'trunc':
                    raise Unsupported('trunc of pointer')
                return v
            return self.dom.icast(st, op, v, ft.a, t.a)
        if op in ('sitofp', 'uitofp'):
            if t.k == 'x86_fp80' and self.fmode != 'real':
                if isinstance(v, int):
                    return Fraction(sgn(v, ft.a) if op == 'sitofp' else v)
                raise Unsupported('int to fp80')
            return self.dom.itof(op, v, ft.a, t.k)
        if op in ('fptosi', 'fptoui'):
            if ft.k == 'x86_fp80' and isinstance(v, Fraction):
                return uns(math.trunc(v), t.a)
            return self.dom.ftoi(st, op, v, t.a, ft.k)
        if op in ('fpext', 'fptrunc'):
            if (ft.k == 'x86_fp80' or t.k == 'x86_fp80') and self.fmode != 'real':
                if isinstance(v, Fraction):
                    return v if t.k == 'x86_fp80' else self.dom.fconst(v, t.k)
                if isinstance(v, float) and t.k == 'x86_fp80':
                    return Fraction(v)
                raise Unsupported('fp80 conversion of symbolic')
            if self.fmode == 'real':
                return v
            if isinstance(v, float):
                return f32(v) if t.k == 'float' else v
            return z3.fpFPToFP(RNE, v, F64 if t.k == 'double' else F32)
        if op == 'bitcast':
            if ft.k == t.k:
                return v
            r = self.conv(v, ft, t)
            if r is None:
                raise Unsupported('bitcast')
            return r
        if op == 'ptrtoint':
            if isinstance(v, int):
                return v
            return PInt(v)
        if op == 'inttoptr':
            if isinstance(v, PInt):
                return v.p
            if isinstance(v, int):
                return v
            return Undef(PTR)
        raise Unsupported(op)

    # ------------------------------------------------------------ execution
    def val(self, st, o):
        if isinstance(o, R):
            try:
                return st.frames[-1][o.n]
            except KeyError:
                raise Unsupported('unmerged or undefined register %%%s in %s' % (o.n, self.where()))
        return self.const(st, o)

    def ival(self, st, o):
        v = self.val(st, o)
        if isinstance(v, Undef):
            return self.fresh(o.t, 'undef')
        return v

    def regtypes(self, fn):
        r = self.rtypes.get(fn.name)
        if r is None:
            r = {p[0]: self.mod.resolve(p[1]) for p in fn.params}
            for b in fn.blocks.values():
                for i in b.phis + b.ins:
                    if i.res is not None:
                        if i.op == 'extractvalue':
                            t = self.optype(r, i.a[0])
                            for k in i.x:
                                t = self.mod.resolve(t)
                                t = t.a[k] if t.k == 'struct' else t.b
                            i.t = t
                        r[i.res] = self.mod.resolve(i.t)
            self.rtypes[fn.name] = r
        return r

    def optype(self, r, o):
        return o.t

    def liveness(self, fn):
        """live-in registers per block (excluding that block's phis' results)"""
        L = self.live_cache.get(fn.name)
        if L is not None:
            return L
        use, dfs = {}, {}
        phiuse = {}

        def ops(o, acc):
            if isinstance(o, R):
                acc.add(o.n)
        for bn, b in fn.blocks.items():
            u, d = set(), set()
            for ph in b.phis:
                d.add(ph.res)
                for pb, v in ph.x.items():
                    if isinstance(v, R):
                        phiuse.setdefault(pb, set()).add(v.n)
            for i in b.ins:
                acc = set()
                for o in i.a:
                    ops(o, acc)
                if i.op in ('call', 'invoke'):
                    ops(i.x['callee'], acc)
                u |= acc - d
                if i.res is not None:
                    d.add(i.res)
            use[bn], dfs[bn] = u, d
        live = {b: set(use[b]) for b in fn.blocks}
        ch = True
        while ch:
            ch = False
            for bn in reversed(fn.order):
                out = set(phiuse.get(bn, ()))
                for s in fn.succs(bn):
                    out |= live[s]
                n = use[bn] | (out - dfs[bn])
                if n != live[bn]:
                    live[bn] = n
                    ch = True
        L = {b: live[b] | {p.res for p in fn.blocks[b].phis} for b in fn.blocks}
        self.live_cache[fn.name] = L
        return L

    def jump(self, st, fn, frm, to):
        b = fn.blocks[to]
        if b.phis:
            vals = [(p.res, self.val(st, p.x[frm])) for p in b.phis]
            fr = st.frames[-1]
            for n, v in vals:
                fr[n] = v

    def run(self, st, fn, bb, stop, out, depth=0):
        """execute from start of block bb until block `stop`; returns states that reached stop.  Finished function
        outcomes are appended to out as (state, kind, value)."""
        work = [(st, bb)]
        reached = []
        iters = 0
        first = True
        while work:
            st, bb = work.pop()
            if bb == stop and not first:
                reached.append(st)
                continue
            first = False
            iters += 1
            if iters > self.opt['loop_max']:
                raise Loop('loop bound exceeded in %s' % fn.name)
            blk = fn.blocks[bb]
            try:
                nxt = self.exec_block(st, fn, blk, stop, out, depth)
            except PathEnd:
                continue
            for s, b in nxt:
                work.append((s, b))
        return reached

    def exec_block(self, st, fn, blk, stop, out, depth):
        return self.exec_from(st, fn, blk, 0, stop, out, depth)

    def exec_from(self, st, fn, blk, i, stop, out, depth):
        n = len(blk.ins)
        while i < n:
            ins = blk.ins[i]
            op = ins.op
            self.stats['ins'] += 1
            if op == 'br':
                return self.do_br(st, fn, blk, ins, stop, out, depth)
            if op == 'switch':
                return self.do_switch(st, fn, blk, ins, stop, out, depth)
            if op == 'ret':
                out.append((st, 'ret', self.val(st, ins.a[0]) if ins.a else None))
                return []
            if op == 'unreachable':
                self.oblige(st, 'unreachable-reached', 0, 'ub')
                return []
            if op == 'resume':
                v = self.val(st, ins.a[0])
                if isinstance(v, tuple) and len(v) == 2:
                    v = v[0]
                out.append((st, 'throw', v))
                return []
            if op in ('call', 'invoke'):
                res = self.do_call(st, ins)
                cont = []
                for s, kind, v in res:
                    if kind == 'ret':
                        if ins.res is not None:
                            s.frames[-1][ins.res] = v
                        cont.append(s)
                    elif kind == 'throw':
                        if op == 'invoke':
                            r = self.landing(s, fn, ins.x['unwind'], v)
                            if r:
                                s.frames[-1]['\0exc'] = r
                                self.jump(s, fn, blk.name, ins.x['unwind'])
                                sub = [(s, ins.x['unwind'])]
                                cont.append(('pad', s))
                                continue
                        out.append((s, 'throw', v))
                nx = []
                normal = []
                for c in cont:
                    if isinstance(c, tuple):
                        nx.append((c[1], ins.x['unwind']))
                    else:
                        normal.append(c)
                if op == 'invoke':
                    for s in normal:
                        self.jump(s, fn, blk.name, ins.x['normal'])
                        nx.append((s, ins.x['normal']))
                    return nx
                if len(normal) == 0:
                    return nx
                if len(normal) == 1:
                    st = normal[0]
                    i += 1
                    continue
                rets = []
                for s in normal:
                    try:
                        rets += self.exec_from(s, fn, blk, i + 1, stop, out, depth)
                    except PathEnd:
                        pass
                return nx + rets
            if op == 'select':
                c = self.val(st, ins.a[0])
                if isinstance(c, Undef):
                    c = self.fresh(IntT(1))
                if isinstance(c, int):
                    st.frames[-1][ins.res] = self.val(st, ins.a[1] if c else ins.a[2])
                else:
                    a, b = self.val(st, ins.a[1]), self.val(st, ins.a[2])
                    rt = self.mod.resolve(ins.t)
                    # with nomerge the two cases of a floating-point selection are proved one by one
                    v = None if self.opt.get('nomerge') and rt.k in ('double', 'float') else self.ite_val(c, a, b, rt)
                    if v is None:
                        rets = []
                        for cc, x in ((c, a), (simp(z3.Not(c)), b)):
                            cc = b2z(cc)
                            if self.feasible(st.pc, cc):
                                s = st.fork()
                                s.pc.append(cc)
                                s.frames[-1][ins.res] = x
                                try:
                                    rets += self.exec_from(s, fn, blk, i + 1, stop, out, depth)
                                except PathEnd:
                                    pass
                        return rets
                    st.frames[-1][ins.res] = v
            else:
                self.step(st, fn, ins)
            i += 1
        raise Unsupported('block without terminator')

    def landing(self, st, fn, pad, exc):
        """exc = ('exc', typename, ptr).  Returns (selector) info or None if the pad does not apply"""
        b = fn.blocks[pad]
        lp = b.ins[0]
        if lp.op != 'landingpad':
            raise Unsupported('pad without landingpad')
        cleanup, clauses = lp.x
        e = exc if exc[0] == 'exc' else exc
        for kind, c in clauses:
            if kind == 'catch':
                if c.k == 'null':
                    return ('sel', self.tid('*all'), exc)
                name = c.v
                if self.subtype(exc[1], name):
                    return ('sel', self.tid(name), exc)
            else:
                # filter: matches when the type is not in the list
                lst = [x.v for x in (c.v if c.k == 'agg' else [])]
                if not any(self.subtype(exc[1], x) for x in lst):
                    return ('sel', -1, exc)
        if cleanup:
            return ('sel', 0, exc)
        return None

    def tid(self, name):
        if name not in self.tids:
            self.tids[name] = len(self.tids) + 1
        return self.tids[name]

    STDB = {'_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
            '_ZTISt12length_error': ['_ZTISt11logic_error'], '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
            '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt9bad_alloc': ['_ZTISt9exception']}

    def bases(self, name):
        if name in self.STDB:
            return self.STDB[name]
        g = self.mod.globals.get(name)
        if g is None or 'external' in g[0].split('global')[0].split('constant')[0].split():
            return []
        return [x for x in re.findall(r'@(_ZTI[A-Za-z0-9_]+)', g[0])]

    def subtype(self, a, b):
        if a == b:
            return True
        return any(self.subtype(x, b) for x in self.bases(a))

    def do_br(self, st, fn, blk, ins, stop, out, depth):
        if not ins.a:
            self.jump(st, fn, blk.name, ins.x[0])
            return [(st, ins.x[0])]
        c = self.ival(st, ins.a[0])
        if isinstance(c, int):
            t = ins.x[0] if c else ins.x[1]
            self.jump(st, fn, blk.name, t)
            return [(st, t)]
        return self.branch(st, fn, blk, [(c, ins.x[0]), (bnot(c), ins.x[1])], stop, out, depth)

    def do_switch(self, st, fn, blk, ins, stop, out, depth):
        v = self.ival(st, ins.a[0])
        d, cs = ins.x
        n = ins.a[0].t.a
        if isinstance(v, int):
            t = d
            for k, b in cs:
                if k == v:
                    t = b
                    break
            self.jump(st, fn, blk.name, t)
            return [(st, t)]
        by = {}
        allc = []
        for k, b in cs:
            e = self.dom.icmp('eq', v, k, n)
            allc.append(e)
            by[b] = bor(by.get(b, 0), e)
        dc = 1
        for e in allc:
            dc = band(dc, bnot(e))
        by[d] = bor(by.get(d, 0), dc)
        alts = [(e, b) for b, e in by.items() if not (isinstance(e, int) and e == 0)]
        return self.branch(st, fn, blk, alts, stop, out, depth)

    def branch(self, st, fn, blk, alts, stop, out, depth):
        self.stats['branches'] += 1
        feas = []
        for c, b in alts:
            cz = b2z(c)
            if len(alts) == 2 and len(feas) == 0 and b == alts[1][1]:
                feas.append((cz, b))
                continue
            if self.feasible(st.pc, cz):
                feas.append((cz, b))
        if not feas:
            raise PathEnd()
        if len(feas) == 1:
            c, b = feas[0]
            if b2z(alts[0][0]) is not None:
                st.pc.append(c) if not z3.is_true(c) else None
            self.jump(st, fn, blk.name, b)
            return [(st, b)]
        ip = fn.ipdom(blk.name)
        res = []
        states = []
        for k, (c, b) in enumerate(feas):
            s = st.fork() if k < len(feas) - 1 else st
            s.pc = list(s.pc)
            s.pc.append(c)
            states.append((s, b))
        for s, b in states:
            self.jump(s, fn, blk.name, b)
        if ip is None or self.opt.get('nomerge'):
            if ip is None:
                # merge only at function exit
                nx = []
                return [(s, b) for s, b in states]
            return [(s, b) for s, b in states]
        reached = []
        for s, b in states:
            if b == ip:
                reached.append(s)
            else:
                reached += self.run1(s, fn, b, ip, out, depth + 1)
        if not reached:
            raise PathEnd()
        ms = self.merge(reached, self.liveness(fn)[ip], self.regtypes(fn))
        return [(s, ip) for s in ms]

    def run1(self, st, fn, bb, stop, out, depth):
        return self.run_until(st, fn, bb, stop, out, depth)

    def run_until(self, st, fn, bb, stop, out, depth):
        work = [(st, bb)]
        reached = []
        iters = 0
        while work:
            st, bb = work.pop()
            if bb == stop:
                reached.append(st)
                continue
            iters += 1
            if (iters & 15) == 0 and self.deadline and time.time() > self.deadline:
                raise TooLong('time limit of VC generation')
            if iters > self.opt['loop_max'] or depth > 4 * self.opt['loop_max']:
                raise Loop('loop bound exceeded in %s' % fn.name)
            try:
                nxt = self.exec_block(st, fn, fn.blocks[bb], stop, out, depth)
            except PathEnd:
                continue
            work.extend(nxt)
        return reached

    # ------------------------------------------------------------ merging
    def merge(self, sts, live, rt):
        out = []
        for s in sts:
            for i, o in enumerate(out):
                m = self.merge2(o, s, live, rt)
                if m is not None:
                    out[i] = m
                    self.stats['merges'] += 1
                    break
            else:
                out.append(s)
        return out

    def merge2(self, a, b, live, rt):
        if len(a.frames) != len(b.frames) or len(a.caught) != len(b.caught) or a.tag != b.tag:
            return None
        for x, y in zip(a.caught, b.caught):
            if x is not y:
                return None
        k = 0
        m = min(len(a.pc), len(b.pc))
        while k < m and (a.pc[k] is b.pc[k] or a.pc[k].eq(b.pc[k])):
            k += 1
        ra, rb = a.pc[k:], b.pc[k:]
        ca = z3.And(*ra) if len(ra) > 1 else (ra[0] if ra else z3.BoolVal(True))
        cb = z3.And(*rb) if len(rb) > 1 else (rb[0] if rb else z3.BoolVal(True))
        # choose the simpler guard as ITE condition
        cond, neg = ca, False
        if len(rb) < len(ra):
            cond, neg = cb, True

        def ite(x, y, t):
            return self.ite_val(cond, y, x, t) if neg else self.ite_val(cond, x, y, t)
        fr = {}
        if a.frames:
            fa, fb = a.frames[-1], b.frames[-1]
            for n in live:
                if n in fa and n in fb:
                    x, y = fa[n], fb[n]
                    if x is y:
                        fr[n] = x
                        continue
                    v = ite(x, y, rt[n])
                    if v is None:
                        return None
                    fr[n] = v
                elif n in fa:
                    fr[n] = fa[n]
                elif n in fb:
                    fr[n] = fb[n]
            if '\0exc' in fa or '\0exc' in fb:
                if fa.get('\0exc') is not fb.get('\0exc'):
                    # selector info only matters until the pad has been executed
                    pass
                else:
                    fr['\0exc'] = fa['\0exc']
        newmem = {}
        for rid in set(a.mem) | set(b.mem):
            x, y = a.mem.get(rid), b.mem.get(rid)
            if x is y:
                newmem[rid] = x
                continue
            if x is None or y is None:
                newmem[rid] = x or y
                continue
            r = self.merge_region(a, b, x, y, ite)
            if r is None:
                return None
            newmem[rid] = r
        s = State()
        s.pc = a.pc[:k]
        if not (z3.is_true(ca) or z3.is_true(cb)):
            d = simp(z3.Or(ca, cb)) if len(ra) == 1 and len(rb) == 1 else z3.Or(ca, cb)
            if not isinstance(d, int):
                s.pc.append(d)
        s.mem = newmem
        s.frames = list(a.frames)
        if s.frames:
            s.frames[-1] = fr
        s.caught = list(a.caught)
        s.cnt = {n: max(a.cnt.get(n, 0), b.cnt.get(n, 0)) for n in set(a.cnt) | set(b.cnt)}
        s.allocas = [list(dict.fromkeys(p + q)) for p, q in zip(a.allocas, b.allocas)]
        s.tag = a.tag
        a.own = set()
        b.own = set()
        return s

    def merge_region(self, sa, sb, x, y, ite):
        if x.arr is not None or y.arr is not None:
            if x.arr is None or y.arr is None or x.arr[1] != y.arr[1]:
                return None
            r = x.copy()
            if x.arr[0] is not y.arr[0]:
                c = ite(1, 0, IntT(1))
                A = self.amerge(b2z(c), x.arr[0], y.arr[0], x.arr[2])
                r.arr = (A,) + x.arr[1:]
            return r
        r = x.copy()
        if x.fill != y.fill:
            # materialise differing fills as bytes if small
            xs, ys = x.copy(), y.copy()
            keys = set()
            for reg in (xs, ys):
                for s, e, b in reg.fill:
                    keys.add((s, e))
            if sum(e - s for s, e in keys) > 8192:
                return None
            common = [f for f in x.fill if f in y.fill]
            # word-wise materialisation at the cells present on the other side, bytes elsewhere
            self.materialise(sa, xs, ys, common)
            self.materialise(sb, ys, xs, common)
            x, y = xs, ys
            r = x.copy()
            r.fill = common
        cells = {}
        keys = set(x.cells) | set(y.cells)
        for o in keys:
            p, q = x.cells.get(o), y.cells.get(o)
            if p is q:
                cells[o] = p
                continue
            if p is not None and q is not None and p[0] == q[0]:
                if p[1] is q[1]:
                    cells[o] = p
                    continue
                t = p[2]
                qv = q[1]
                if not (t.k == q[2].k and (t.k != 'int' or t.a == q[2].a)):
                    try:
                        qv = self.conv(q[1], q[2], t)
                    except Unsupported:
                        return None
                    if qv is None:
                        return None
                v = ite(p[1], qv, t)
                if v is None:
                    return None
                cells[o] = (p[0], v, t)
                continue
            one = p or q
            other = y if p is not None else x
            ost = sb if p is not None else sa
            # other side: covered by fill, or overlapping other cells, or uninitialised
            ov = [oo for oo in range(o - 15, o + one[0]) if oo in other.cells and oo + other.cells[oo][0] > o]
            if ov:
                return self.merge_bytes(sa, sb, x, y, ite)
            fv = None
            for s, e, b in reversed(other.fill):
                if s <= o and o + one[0] <= e:
                    fv = self.fillval(b, one[2], one[0])
                    break
            if fv is None:
                cells[o] = one      # other side uninitialised: any value will do
                continue
            v = ite(one[1], fv, one[2]) if p is not None else ite(fv, one[1], one[2])
            if v is None:
                return None
            cells[o] = (one[0], v, one[2])
        r.cells = cells
        return r

    def merge_bytes(self, sa, sb, x, y, ite):
        """layouts differ: split all overlapping cells into bytes on both sides"""
        xs, ys = x.copy(), y.copy()
        ch = True
        try:
            while ch:
                ch = False
                for reg, oth in ((xs, ys), (ys, xs)):
                    for o in list(reg.cells):
                        c = reg.cells.get(o)
                        if c is None or c[0] == 1:
                            continue
                        bad = False
                        for oo in range(o - 15, o + c[0]):
                            d = oth.cells.get(oo)
                            if d and oo + d[0] > o and not (oo == o and d[0] == c[0]):
                                bad = True
                                break
                        if bad:
                            st = State()
                            st.mem[reg.id] = reg
                            st.own.add(reg.id)
                            by = [self.load_byte(st, reg, o + i) for i in range(c[0])]
                            del reg.cells[o]
                            for i, b in enumerate(by):
                                reg.cells[o + i] = (1, b, IntT(8))
                            ch = True
        except Unsupported:
            return None
        if all(xs.cells.get(o) is x.cells.get(o) for o in xs.cells) and \
                all(ys.cells.get(o) is y.cells.get(o) for o in ys.cells):
            return None
        return self.merge_region(sa, sb, xs, ys, ite)

    def materialise(self, st, reg, oth, common):
        for s, e, b in reg.fill:
            if (s, e, b) in common:
                continue
            o = s
            while o < e:
                if any(oo in reg.cells and oo + reg.cells[oo][0] > o for oo in range(o - 15, o + 1)):
                    o += 1
                    continue
                c = oth.cells.get(o)
                if c is not None and o + c[0] <= e:
                    reg.cells[o] = (c[0], self.fillval(b, c[2], c[0]), c[2])
                    o += c[0]
                else:
                    reg.cells[o] = (1, b, IntT(8))
                    o += 1
        reg.fill = list(common)

    # ------------------------------------------------------------ instructions
    def step(self, st, fn, ins):
        op = ins.op
        fr = st.frames[-1]
        if op == 'load':
            fr[ins.res] = self.load(st, self.val(st, ins.a[0]), ins.t)
        elif op == 'store':
            self.store(st, self.val(st, ins.a[1]), self.val(st, ins.a[0]), ins.t)
        elif op == 'getelementptr':
            ops = [self.val(st, o) for o in ins.a]
            fr[ins.res] = self.gep(st, ins.x, ops[0], ops[1:], ins.a[1:])
        elif op in ll.BIN:
            fr[ins.res] = self.binop(st, op, self.val(st, ins.a[0]), self.val(st, ins.a[1]), ins.t, ins.flags)
        elif op == 'icmp':
            a, b = self.val(st, ins.a[0]), self.val(st, ins.a[1])
            t = ins.x[1]
            if t.k == 'ptr':
                fr[ins.res] = self.pcmp(st, ins.x[0], a, b)
            else:
                if isinstance(a, Undef):
                    a = self.fresh(t)
                if isinstance(b, Undef):
                    b = self.fresh(t)
                if isinstance(a, PInt) or isinstance(b, PInt):
                    fr[ins.res] = self.pcmp(st, ins.x[0], a.p if isinstance(a, PInt) else a,
                                            b.p if isinstance(b, PInt) else b)
                else:
                    fr[ins.res] = self.dom.icmp(ins.x[0], a, b, t.a)
        elif op == 'fcmp':
            a, b = self.ival(st, ins.a[0]), self.ival(st, ins.a[1])
            if ins.x[1].k == 'x86_fp80' and self.fmode != 'real':
                p = ins.x[0]
                fr[ins.res] = int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b,
                                   'ge': a >= b}[p[1:]])
            else:
                fr[ins.res] = self.dom.fcmp(ins.x[0], a, b, ins.x[1].k)
        elif op in ll.CAST:
            fr[ins.res] = self.cast(st, op, self.val(st, ins.a[0]), self.mod.resolve(ins.a[0].t), ins.t)
        elif op == 'alloca':
            n = 1
            if ins.a:
                n = self.val(st, ins.a[0])
                if not isinstance(n, int):
                    raise Unsupported('symbolic alloca')
            p = self.alloc(st, n * self.mod.size(ins.x), '%%%s in %s' % (ins.res, fn.name[:60]))
            st.allocas[-1].append(p.r)
            fr[ins.res] = p
        elif op == 'fneg':
            fr[ins.res] = self.dom.fneg(self.ival(st, ins.a[0]))
        elif op == 'freeze':
            v = self.val(st, ins.a[0])
            fr[ins.res] = self.fresh(ins.t) if isinstance(v, Undef) and ins.t.k != 'ptr' else v
        elif op == 'extractvalue':
            v = self.val(st, ins.a[0])
            if isinstance(v, tuple) and len(v) == 3 and v[0] == 'exc':
                v = (v, 0)
            for k in ins.x:
                if isinstance(v, Undef):
                    break
                v = v[k]
            fr[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(st, ins.a[0])
            x = self.val(st, ins.a[1])
            fr[ins.res] = self.insval(self.mod.resolve(ins.t), v, x, ins.x)
        elif op == 'landingpad':
            sel = fr.pop('\0exc')
            fr[ins.res] = (sel[2], uns(sel[1], 32))
        elif op == 'atomicrmw':
            p = self.val(st, ins.a[0])
            old = self.load(st, p, ins.t)
            v = self.val(st, ins.a[1])
            new = v if ins.x == 'xchg' else self.binop(st, ins.x, old, v, ins.t, ())
            self.store(st, p, new, ins.t)
            fr[ins.res] = old
        else:
            raise Unsupported('instruction ' + ins.txt[:100])

    def insval(self, t, v, x, idx):
        if isinstance(v, Undef) or not isinstance(v, tuple):
            v = tuple(Undef(self.mod.resolve(f)) for f in (t.a if t.k == 'struct' else [t.b] * t.a))
        l = list(v)
        if len(idx) == 1:
            l[idx[0]] = x
        else:
            ft = t.a[idx[0]] if t.k == 'struct' else t.b
            l[idx[0]] = self.insval(self.mod.resolve(ft), l[idx[0]], x, idx[1:])
        # an exception aggregate re-packed by clang: {ptr, i32}
        if len(l) == 2 and isinstance(l[0], tuple) and len(l[0]) == 3 and l[0][0] == 'exc' and \
                not isinstance(l[1], Undef):
            return l[0]
        return tuple(l)

    # ------------------------------------------------------------ calls
    def do_call(self, st, ins):
        callee = ins.x['callee']
        if isinstance(callee, C) and callee.k == 'glob':
            name = callee.v
        else:
            v = self.val(st, callee)
            if isinstance(v, PCh):
                res = []
                for c, q in v.alts:
                    if not self.feasible(st.pc, c):
                        continue
                    s = st.fork()
                    s.pc.append(c)
                    if not isinstance(q, FnPtr):
                        self.oblige(s, 'memory-safety: call through null', 0, 'ub')
                        continue
                    res += self.call_named(s, ins, q.n)
                return res
            if not isinstance(v, FnPtr):
                raise Unsupported('indirect call through %r in %s' % (v, self.where()))
            name = v.n
        return self.call_named(st, ins, name)

    def call_named(self, st, ins, name):
        if name.startswith('llvm.'):
            return self.intrinsic(st, ins, name)
        args = [None if a is None else self.val(st, a) for a in ins.a]
        # byval aggregates are copied
        for k, at in enumerate(ins.x['at']):
            if 'byval' in at and at['byval'] is not True:
                sz = self.mod.size(at['byval'])
                p = self.alloc(st, sz, 'byval')
                self.memcpy(st, p, args[k], sz)
                args[k] = p
        return self.call_fn(st, name, args, ins.t, [a.t if a is not None else None for a in ins.a])

    def call_fn(self, st, name, args, rett, argt):
        import models
        seen = set()
        stub = self.stubs.get(name)
        if stub is not None and name not in self.opt.get('nostub', ()) and self.stack and \
                not any(s.startswith('vpstub__') for s in self.stack):
            self.stats['stubs'][name] = self.stats['stubs'].get(name, 0) + 1
            return self.exec_fn(st, self.mod.fn(stub), args)
        m = models.lookup(self, name)
        if m is not None:
            r = m(self, st, args, rett, argt)
            if isinstance(r, list):
                return r
            return [(st, 'ret', r)]
        fn = self.mod.fn(name)
        if fn is None or not fn.defined:
            raise Unsupported('call to undefined function %s from %s' % (name, self.where()))
        return self.exec_fn(st, fn, args)

    def exec_fn(self, st, fn, args):
        fn.parse()
        self.regtypes(fn)
        if len(self.stack) > 200:
            raise Unsupported('recursion too deep at ' + fn.name)
        if not self.in_init:
            self.fn_seen.add(fn.name)
        if len(args) < len(fn.params):
            raise Unsupported('arity ' + fn.name)
        fr = {}
        for (n, t, at), v in zip(fn.params, args):
            fr[n] = v
        st.frames.append(fr)
        st.allocas.append([])
        self.stack.append(fn.name)
        out = []
        try:
            self.run_until(st, fn, fn.entry, None, out, 0)
        finally:
            self.stack.pop()
        res = []
        rets = []
        for s, kind, v in out:
            if kind == 'ret':
                s.frames[-1] = {'\0ret': v}
                rets.append(s)
            else:
                self.leave(s)
                res.append((s, kind, v))
        for s in rets:
            for rid in s.allocas[-1]:
                s.mem.pop(rid, None)
            s.allocas[-1] = []
        if len(rets) > 1:
            rets = self.merge(rets, ['\0ret'] if fn.ret.k != 'void' else [], {'\0ret': self.mod.resolve(fn.ret)})
        for s in rets:
            v = s.frames[-1].get('\0ret')
            self.leave(s)
            res.append((s, 'ret', v))
        # callers' frames are shared between the resulting states: unshare
        if len(res) > 1:
            for s, k, v in res:
                if s.frames:
                    s.frames[-1] = dict(s.frames[-1])
        return res

    def leave(self, s):
        s.frames.pop()
        for rid in s.allocas.pop():
            s.mem.pop(rid, None)

    def throw(self, st, tname, ptr):
        return [(st, 'throw', ('exc', tname, ptr))]

    def intrinsic(self, st, ins, name):
        a = ins.a

        def ret(v=None):
            return [(st, 'ret', v)]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.invariant') or \
                name.startswith('llvm.experimental.noalias') or name.startswith('llvm.assume') or \
                name.startswith('llvm.stackrestore') or name.startswith('llvm.donothing'):
            return ret()
        if name.startswith('llvm.stacksave'):
            return ret(NIL)
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d, s, n = [self.val(st, x) for x in a[:3]]
            self.memcpy(st, d, s, n)
            return ret()
        if name.startswith('llvm.memset'):
            d, b, n = [self.val(st, x) for x in a[:3]]
            self.memset(st, d, b, n)
            return ret()
        if name == 'llvm.eh.typeid.for' or name.startswith('llvm.eh.typeid.for'):
            return ret(self.tid(a[0].v))
        if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
            self.oblige(st, 'trap', 0, 'ub')
            return []
        if name.startswith('llvm.expect'):
            return ret(self.val(st, a[0]))
        if name.startswith('llvm.is.constant'):
            return ret(0)
        if name.startswith('llvm.objectsize'):
            return ret((1 << 64) - 1)
        m = re.match(r'llvm\.(fabs|floor|ceil|trunc|rint|nearbyint|round|sqrt|sin|cos|exp|log|log10|pow|copysign|minnum|maxnum|fmuladd|fma|ldexp|exp2)\.', name)
        if m:
            import models
            args = [self.ival(st, x) for x in a]
            return ret(models.libm(self, st, m.group(1), args))
        m = re.match(r'llvm\.(abs|smax|smin|umax|umin|ctpop|bswap|cttz|ctlz|fshl|fshr|uadd\.sat|usub\.sat)\.i(\d+)', name)
        if m:
            n = int(m.group(2))
            x = self.ival(st, a[0])
            o = m.group(1)
            if o == 'abs':
                c = self.dom.icmp('slt', x, 0, n)
                neg = self.dom.ibin(st, 'sub', 0, x, n)
                return ret((neg if c else x) if isinstance(c, int) else self.dom.ite(c, neg, x, IntT(n)))
            if o in ('smax', 'smin', 'umax', 'umin'):
                y = self.ival(st, a[1])
                c = self.dom.icmp(o[0] + ('gt' if o.endswith('max') else 'lt'), x, y, n)
                return ret((x if c else y) if isinstance(c, int) else self.dom.ite(c, x, y, IntT(n)))
            if o == 'bswap' and isinstance(x, int):
                return ret(int.from_bytes(x.to_bytes(n // 8, 'little'), 'big'))
            if o == 'bswap' and self.imode == 'bv':
                return ret(z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n // 8)])))
            if o == 'ctpop':
                if isinstance(x, int):
                    return ret(bin(x).count('1'))
                if self.imode == 'bv':
                    return ret(z3.Sum([z3.ZeroExt(n - 1, z3.Extract(i, i, x)) for i in range(n)]))
            if o in ('ctlz', 'cttz') and isinstance(x, int):
                x &= (1 << n) - 1
                if x == 0:
                    return ret(n)
                return ret(n - x.bit_length() if o == 'ctlz' else (x & -x).bit_length() - 1)
            raise Unsupported(name)
        m = re.match(r'llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            n = int(m.group(3))
            x, y = self.ival(st, a[0]), self.ival(st, a[1])
            if isinstance(x, int) and isinstance(y, int):
                if m.group(1) == 's':
                    x, y = sgn(x, n), sgn(y, n)
                r = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)]
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if m.group(1) == 's' else (0, (1 << n) - 1)
                return ret((uns(r, n), int(not lo <= r <= hi)))
            if self.imode == 'int' and m.group(1) == 'u':
                ex, l1, h1 = self.dom.unsigned(x, n)
                ey, l2, h2 = self.dom.unsigned(y, n)
                if m.group(2) == 'mul':
                    e, h = ex * ey, h1 * h2
                elif m.group(2) == 'add':
                    e, h = ex + ey, h1 + h2
                else:
                    raise Unsupported(name)
                ov = 0 if h < (1 << n) else simp(e >= (1 << n))
                return ret((self.dom.wrap(e, 0, h, n), ov))
            raise Unsupported(name)
        raise Unsupported('intrinsic ' + name)


class PathEnd(Exception):
    pass
