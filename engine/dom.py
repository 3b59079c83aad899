"""Value domains of the VC generator.

Integers:   mode 'bv'  - symbolic values are z3 bit-vectors (exact machine semantics)
            mode 'int' - symbolic values are mathematical integers IV(expr, lo, hi) in the signed range of their
                         width; every operation that could leave the range emits a no-overflow obligation (signed) or
                         an explicit wrap (unsigned), so the treatment is exact, not an assumption.
Doubles:    mode 'ieee' - z3 floating point, round to nearest even (exact)
            mode 'real' - mathematical reals, libm functions uninterpreted (machine arithmetic treated as
                          mathematical; reported as an assumption)
Concrete values are Python ints (unsigned canonical) / floats / Fractions."""
import math
import struct
from fractions import Fraction
import z3
from ll import Unsupported, IntT

RNE = z3.RNE()
RTZ = z3.RTZ()
F64 = z3.Float64()
F32 = z3.Float32()
REAL = z3.RealSort()


class IV:
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi

    def __repr__(self):
        return 'IV(%s,[%d,%d])' % (str(self.e)[:80], self.lo, self.hi)


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def uns(v, n):
    return v & ((1 << n) - 1)


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def is_bool(x):
    return isinstance(x, z3.BoolRef)


def simp(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def b2z(b):
    """i1 value -> z3 Bool"""
    if isinstance(b, int):
        return z3.BoolVal(bool(b))
    return b


def bnot(b):
    if isinstance(b, int):
        return 1 - (b & 1)
    if z3.is_not(b):
        return b.arg(0)
    return z3.Not(b)


def band(a, b):
    if isinstance(a, int):
        return b if a else 0
    if isinstance(b, int):
        return a if b else 0
    if a.eq(b):
        return a
    return z3.And(a, b)


def bor(a, b):
    if isinstance(a, int):
        return 1 if a else b
    if isinstance(b, int):
        return 1 if b else a
    if a.eq(b):
        return a
    return z3.Or(a, b)


UB = {}


def ubound(e, n, d=8):
    """an upper bound of the unsigned value, from the shape of the term"""
    r = UB.get(e.get_id())
    if r is None:
        UB[e.get_id()] = r = (ubound1(e, n, d), e)
    return r[0]


def ubound1(e, n, d):
    full = (1 << n) - 1
    if z3.is_bv_value(e):
        return e.as_long()
    if d == 0 or not z3.is_app(e):
        return full
    k = e.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        t = 0
        for c in e.children():
            m = c.size()
            t = (t << m) + ubound(c, m, d - 1)
        return t
    if k == z3.Z3_OP_ITE:
        return max(ubound(e.arg(1), n, d - 1), ubound(e.arg(2), n, d - 1))
    if k == z3.Z3_OP_BADD:
        t = sum(ubound(c, n, d - 1) for c in e.children())
        return t if t <= full else full
    if k == z3.Z3_OP_BMUL:
        t = 1
        for c in e.children():
            t *= ubound(c, n, d - 1)
        return t if t <= full else full
    if k == z3.Z3_OP_EXTRACT:
        h, l = e.params()
        return min(full, ubound(e.arg(0), e.arg(0).size(), d - 1) >> l)
    return full


def lead0(e, n):
    """number of leading zero bits known from the shape of the term"""
    return n - ubound(e, n).bit_length()


def trail0(e, n, memo=None):
    """number of trailing zero bits known from the shape of the term"""
    if z3.is_bv_value(e):
        v = e.as_long()
        return n if v == 0 else (v & -v).bit_length() - 1
    k = e.decl().kind() if z3.is_app(e) else None
    if k not in (z3.Z3_OP_CONCAT, z3.Z3_OP_ITE):
        return 0
    if memo is None:
        memo = {}
    h = e.get_id()
    if h in memo:
        return memo[h]
    t = 0
    if k == z3.Z3_OP_CONCAT:
        for c in reversed(e.children()):
            m = c.size()
            z = trail0(c, m, memo)
            t += z
            if z < m:
                break
    else:
        t = trail0(e.arg(1), n, memo)
        if t:
            t = min(t, trail0(e.arg(2), n, memo))
    memo[h] = t
    return t


def narrow(e, hi, lo):
    e = z3.simplify(z3.Extract(hi, lo, e))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_EXTRACT:
        h, l = e.params()
        a = e.arg(0)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            return z3.simplify(z3.If(a.arg(0), z3.Extract(h, l, a.arg(1)), z3.Extract(h, l, a.arg(2))))
    return e


def pieces(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_CONCAT:
        return list(e.children())
    return [e]


def common(px, py, left):
    """strips the common pieces at one end; numerals are split to fit"""
    out = []
    i = 0 if left else -1
    while px and py:
        a, b = px[i], py[i]
        if not a.eq(b):
            na, nb = a.size(), b.size()
            if na == nb or not (z3.is_bv_value(a) and z3.is_bv_value(b)):
                break
            m = min(na, nb)
            va, vb = a.as_long(), b.as_long()
            ha, hb = (va >> (na - m), vb >> (nb - m)) if left else (va & ((1 << m) - 1), vb & ((1 << m) - 1))
            if ha != hb:
                break
            for q, v, k in ((px, va, na), (py, vb, nb)):
                if k > m:
                    r = z3.BitVecVal(v & ((1 << (k - m)) - 1) if left else v >> m, k - m)
                    q[i] = r
                else:
                    q.pop(i)
            out.append(z3.BitVecVal(ha, m))
            continue
        out.append(px.pop(i))
        py.pop(i)
    return out


def cat(ps):
    return ps[0] if len(ps) == 1 else z3.Concat(*ps)


def ite_cat(c, x, y, n):
    px, py = pieces(x), pieces(y)
    if len(px) == 1 and len(py) == 1:
        return z3.If(c, x, y)
    L = common(px, py, True)
    if not px:
        return x
    R = common(px, py, False)
    if not L and not R:
        return z3.If(c, x, y)
    if not px:
        return x
    return z3.simplify(cat(L + [z3.If(c, cat(px), cat(py))] + R[::-1]))


def linform(e):
    """(constant, sorted ids of the other summands); equal to the unsigned value of e as an integer (no wrap)"""
    n = e.size()
    if z3.is_bv_value(e):
        return e.as_long(), ()
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_CONCAT:
            ps = e.children()
            if z3.is_bv_value(ps[0]) and ps[0].as_long() == 0 and len(ps) == 2:
                return linform(ps[1])
            if len(ps) > 2 and z3.is_bv_value(ps[0]) and ps[0].as_long() == 0:
                return linform(LF.setdefault(e.get_id(), (z3.Concat(*ps[1:]), e))[0])
        elif k == z3.Z3_OP_BADD and sum(ubound(c, n) for c in e.children()) < 1 << n:
            c, ids = 0, ()
            for x in e.children():
                a, b = linform(x)
                c += a
                ids += b
            return c, tuple(sorted(ids))
    return 0, (e.get_id(),)


LF = {}


def add_num(x, y, op, n):
    """concat(H, c) + k  =  concat(H + carry, c')"""
    if z3.is_bv_value(x):
        x, y = y, x
    k = y.as_long()
    if op == 'sub':
        k = -k % (1 << n)
    ps = pieces(x)
    if len(ps) < 2 or not z3.is_bv_value(ps[-1]):
        return None
    t = ps[-1].size()
    lo = ps[-1].as_long() + (k & ((1 << t) - 1))
    hi = ((k >> t) + (lo >> t)) & ((1 << (n - t)) - 1)
    H = cat(ps[:-1])
    if hi:
        H = z3.simplify(H + z3.BitVecVal(hi, n - t))
    return z3.simplify(z3.Concat(H, z3.BitVecVal(lo & ((1 << t) - 1), t)))


def disjoint_or(x, y, n):
    """x + y = x | y as a concatenation when their non-zero parts do not overlap (a normal form for packed fields)"""
    for a, b in ((x, y), (y, x)):
        t = trail0(a, n)
        if 0 < t < n and n - lead0(b, n) <= t:
            return z3.Concat(narrow(a, n - 1, t), narrow(b, t - 1, 0))
    return None


class Dom:
    def __init__(self, eng, imode='bv', fmode='ieee'):
        self.i2f = {}
        self.cv = {}
        self.cvn = {}
        self.eng = eng
        self.imode = imode
        self.fmode = fmode
        self.ufs = {}

    # ------------------------------------------------------------ ints
    def iv(self, v, n):
        """(expr, lo, hi) of a value in int mode, signed"""
        if isinstance(v, int):
            s = sgn(v, n)
            return z3.IntVal(s), s, s
        if isinstance(v, IV):
            return v.e, v.lo, v.hi
        if is_bool(v):
            if n == 1:
                return z3.If(v, z3.IntVal(-1), z3.IntVal(0)), -1, 0
            return z3.If(v, z3.IntVal(1), z3.IntVal(0)), 0, 1
        raise Unsupported('iv of %r' % (v,))

    def bv(self, v, n):
        if isinstance(v, int):
            return z3.BitVecVal(v, n)
        if is_bool(v):
            return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        if isinstance(v, IV):
            raise Unsupported('IV in bv context')
        return v

    def mk(self, e, lo, hi, n):
        """wrap an Int expr with exact bounds lo..hi into an n-bit value (signed canonical)"""
        mn, mx = -(1 << (n - 1)), (1 << (n - 1)) - 1
        if lo == hi:
            return uns(lo, n)
        if lo >= mn and hi <= mx:
            if z3.is_int_value(e):
                return uns(e.as_long(), n)
            return IV(e, lo, hi)
        return None

    def wrap(self, e, lo, hi, n):
        r = self.mk(e, lo, hi, n)
        if r is not None:
            return r
        mn, mx = -(1 << (n - 1)), (1 << (n - 1)) - 1
        M = 1 << n
        if hi - lo < M * 4:
            # few wraps: ite chain keeps the term linear
            k0 = (lo - mn) // M
            k1 = (hi - mn) // M
            if k1 - k0 <= 3:
                r = e - z3.IntVal(M * k1)
                for k in range(k1 - 1, k0 - 1, -1):
                    r = z3.If(e <= z3.IntVal(mx + M * k), e - z3.IntVal(M * k), r)
                return IV(r, mn, mx)
        return IV((e - z3.IntVal(mn)) % z3.IntVal(M) + z3.IntVal(mn), mn, mx)

    def unsigned(self, v, n):
        """(expr, lo, hi) of the unsigned reading (int mode)"""
        if isinstance(v, int):
            return z3.IntVal(v), v, v
        e, lo, hi = self.iv(v, n)
        if n == 1:
            return z3.If(b2z(v), z3.IntVal(1), z3.IntVal(0)), 0, 1
        if lo >= 0:
            return e, lo, hi
        M = 1 << n
        if hi < 0:
            return e + M, lo + M, hi + M
        return z3.If(e < 0, e + M, e), 0, M - 1

    def ibin(self, st, op, a, b, n, flags=()):
        if isinstance(a, int) and isinstance(b, int):
            r = self.conc(st, op, a, b, n, flags)
            if r is not None:
                return r
        if n == 1:
            x, y = a, b
            if op == 'and':
                return band(x, y)
            if op == 'or':
                return bor(x, y)
            if op in ('xor', 'add', 'sub'):
                if isinstance(x, int):
                    x, y = y, x
                if isinstance(y, int):
                    return bnot(x) if y else x
                return z3.Xor(x, y)
            raise Unsupported('i1 ' + op)
        if self.imode == 'int':
            return self.int_bin(st, op, a, b, n, flags)
        # ---- bv
        if isinstance(a, int) and op in ('add', 'mul', 'and', 'or', 'xor'):
            a, b = b, a
        if isinstance(b, int):
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == 0:
                return a
            if op in ('and', 'mul') and b == 0:
                return 0
            if op == 'and' and b == (1 << n) - 1:
                return a
            if op in ('mul', 'udiv', 'sdiv') and b == 1:
                return a
        if isinstance(a, int):
            if op in ('add', 'or', 'xor') and a == 0:
                return b
            if op in ('and', 'mul', 'shl', 'lshr', 'ashr') and a == 0:
                return 0
            if op == 'mul' and a == 1:
                return b
        x, y = self.bv(a, n), self.bv(b, n)
        if op in ('add', 'sub', 'mul') and 'nsw' in flags and self.eng.opt.get('overflow'):
            if op == 'add':
                ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            self.eng.oblige(st, 'no-signed-overflow', simp(ok), 'ub')
        r = None
        if op in ('add', 'sub') and (z3.is_bv_value(y) or op == 'add' and z3.is_bv_value(x)):
            r = add_num(x, y, op, n)
        if r is None and op in ('add', 'or', 'xor'):
            r = disjoint_or(x, y, n)
        if r is not None:
            pass
        elif op == 'add':
            r = x + y
        elif op == 'sub':
            r = x - y
        elif op == 'mul' and isinstance(b, int) and b & (b - 1) == 0:
            r = x << z3.BitVecVal(b.bit_length() - 1, n)
        elif op == 'mul':
            r = x * y
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        elif op in ('shl', 'lshr', 'ashr'):
            # a shift by >= width yields an arbitrary value (poison; LLVM may speculate such shifts)
            if isinstance(b, int) and b >= n:
                return self.eng.fresh(IntT(n), 'poison')
            r = {'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
            if not isinstance(b, int):
                ok = 1 if 1 << (n - lead0(y, n)) <= n else simp(z3.ULT(y, z3.BitVecVal(n, n)))
                if not isinstance(ok, int):
                    r = z3.If(ok, r, self.eng.fresh(IntT(n), 'poison'))
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not isinstance(b, int):
                self.eng.oblige(st, 'division-by-zero', simp(y != 0), 'ub')
            elif b == 0:
                self.eng.oblige(st, 'division-by-zero', 0, 'ub')
            if op in ('sdiv', 'srem') and isinstance(b, int) and 0 < b < 1 << (n - 1) and lead0(x, n) >= 1:
                op = 'u' + op[1:]
            if op[0] == 'u' and isinstance(b, int) and b > 1 and b & (b - 1) == 0:
                k = b.bit_length() - 1
                r = z3.Concat(z3.BitVecVal(0, k), z3.Extract(n - 1, k, x)) if op == 'udiv' else \
                    z3.Concat(z3.BitVecVal(0, n - k), z3.Extract(k - 1, 0, x))
                r = z3.simplify(r)
                return r.as_long() if z3.is_bv_value(r) else r
            r = {'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y,
                 'srem': lambda: z3.SRem(x, y)}[op]()
        else:
            raise Unsupported(op)
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def conc(self, st, op, a, b, n, flags):
        if op == 'add':
            return uns(a + b, n)
        if op == 'sub':
            return uns(a - b, n)
        if op == 'mul':
            return uns(a * b, n)
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if b >= n:
                return self.eng.fresh(IntT(n), 'poison')
            if op == 'shl':
                return uns(a << b, n)
            if op == 'lshr':
                return a >> b
            return uns(sgn(a, n) >> b, n)
        if b == 0:
            self.eng.oblige(st, 'division-by-zero', 0, 'ub')
            return 0
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sgn(a, n), sgn(b, n)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return uns(q, n)
        if op == 'srem':
            return uns(x - q * y, n)
        return None

    def nowrap(self, st, e, lo, hi, n, flags, op):
        r = self.mk(e, lo, hi, n)
        if r is not None:
            return r
        if 'nsw' in flags:
            mn, mx = -(1 << (n - 1)), (1 << (n - 1)) - 1
            self.eng.oblige(st, 'no-signed-overflow', simp(z3.And(e >= mn, e <= mx)), 'ub')
            return IV(e, max(lo, mn), min(hi, mx))
        return self.wrap(e, lo, hi, n)

    def int_bin(self, st, op, a, b, n, flags):
        if isinstance(b, int):
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == 0:
                return a
            if op in ('and', 'mul') and b == 0:
                return 0
            if op in ('mul', 'udiv', 'sdiv') and b == 1:
                return a
        if isinstance(a, int):
            if op in ('add', 'or', 'xor') and a == 0:
                return b
            if op in ('and', 'mul', 'shl', 'lshr', 'ashr') and a == 0:
                return 0
        if op in ('add', 'sub'):
            x, l1, h1 = self.iv(a, n)
            y, l2, h2 = self.iv(b, n)
            if op == 'add':
                return self.nowrap(st, x + y, l1 + l2, h1 + h2, n, flags, op)
            return self.nowrap(st, x - y, l1 - h2, h1 - l2, n, flags, op)
        if op == 'mul':
            x, l1, h1 = self.iv(a, n)
            y, l2, h2 = self.iv(b, n)
            c = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
            return self.nowrap(st, x * y, min(c), max(c), n, flags, op)
        if op == 'shl':
            if isinstance(b, int):
                x, l1, h1 = self.iv(a, n)
                m = 1 << b
                return self.nowrap(st, x * z3.IntVal(m), l1 * m, h1 * m, n, flags, op)
            raise Unsupported('int shl by symbolic amount')
        if op in ('sdiv', 'srem'):
            x, l1, h1 = self.iv(a, n)
            if not isinstance(b, int):
                raise Unsupported('int sdiv by symbolic')
            d = sgn(b, n)
            if d == 0:
                self.eng.oblige(st, 'division-by-zero', 0, 'ub')
                return 0
            ad = abs(d)
            D = z3.IntVal(ad)
            if l1 >= 0:
                q = x / D
            elif h1 <= 0:
                q = -((-x) / D)
            else:
                q = z3.If(x >= 0, x / D, -((-x) / D))

            def tq(v):
                return v // ad if v >= 0 else -((-v) // ad)
            if op == 'sdiv':
                if d < 0:
                    return self.nowrap(st, -q, -tq(h1), -tq(l1), n, flags, op)
                return self.mk(q, tq(l1), tq(h1), n)
            lo = 0 if l1 >= 0 else -min(ad - 1, -l1)
            hi = 0 if h1 <= 0 else min(ad - 1, h1)
            if l1 >= 0:
                r = x % D
            elif h1 <= 0:
                r = -((-x) % D)
            else:
                r = z3.If(x >= 0, x % D, -((-x) % D))
            return self.mk(r, lo, hi, n)
        if op in ('udiv', 'urem'):
            x, l1, h1 = self.unsigned(a, n)
            if not isinstance(b, int):
                raise Unsupported('int udiv by symbolic')
            if b == 0:
                self.eng.oblige(st, 'division-by-zero', 0, 'ub')
                return 0
            if op == 'udiv':
                return self.wrap(x / z3.IntVal(b), l1 // b, h1 // b, n)
            if h1 < b:
                return self.wrap(x, l1, h1, n)
            return self.wrap(x % z3.IntVal(b), 0, b - 1, n)
        if op == 'lshr' and isinstance(b, int):
            x, l1, h1 = self.unsigned(a, n)
            m = 1 << b
            return self.wrap(x / z3.IntVal(m), l1 // m, h1 // m, n)
        if op == 'ashr' and isinstance(b, int):
            x, l1, h1 = self.iv(a, n)
            m = 1 << b
            return self.mk(x / z3.IntVal(m), l1 // m, h1 // m, n)   # z3 Int div floors for positive divisor
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                m = b
                if m & (m + 1) == 0:          # 2^k-1
                    x, l1, h1 = self.unsigned(a, n)
                    xs, ls, hs = self.iv(a, n)
                    if ls >= 0 and hs <= m:
                        return a
                    return self.wrap(xs % z3.IntVal(m + 1), 0, m, n)
                inv = ((1 << n) - 1) & ~m
                if inv & (inv + 1) == 0:       # ~(2^k-1)
                    xs, ls, hs = self.iv(a, n)
                    return self.mk(xs - xs % z3.IntVal(inv + 1), ls - ls % (inv + 1), hs, n)
                if m & (m - 1) == 0:          # single bit
                    k = m.bit_length() - 1
                    xs, ls, hs = self.iv(a, n)
                    return self.wrap(z3.If((xs / z3.IntVal(m)) % 2 == 1, z3.IntVal(m), z3.IntVal(0)), 0, m, n)
        if op == 'or':
            # disjoint or: a multiple of 2^k, b < 2^k
            for p, q in ((a, b), (b, a)):
                k = self.trailing(p)
                if k:
                    y, l2, h2 = self.unsigned(q, n)
                    if h2 < (1 << k):
                        x, l1, h1 = self.iv(p, n)
                        return self.nowrap(st, x + y, l1 + l2, h1 + h2, n, (), 'add')
            for p, q in ((a, b), (b, a)):
                y, l2, h2 = self.unsigned(q, n)
                m = 1 << max(1, int(h2).bit_length())
                if st is not None and h2 < 1 << (n - 1):
                    x, l1, h1 = self.iv(p, n)
                    if not self.eng.feasible(st.pc, x % z3.IntVal(m) != 0):
                        return self.nowrap(st, x + y, l1 + l2, h1 + h2, n, (), 'add')
        if op == 'xor' and isinstance(b, int) and b == (1 << n) - 1:
            x, l1, h1 = self.iv(a, n)
            return self.mk(-x - 1, -h1 - 1, -l1 - 1, n)
        raise Unsupported('int-mode %s %r %r' % (op, a, b))

    def trailing(self, v):
        if isinstance(v, int):
            return (v & -v).bit_length() - 1 if v else 64
        if isinstance(v, IV):
            e = v.e
            if z3.is_mul(e) and e.num_args() == 2:
                for k in (0, 1):
                    if z3.is_int_value(e.arg(k)):
                        c = abs(e.arg(k).as_long())
                        return (c & -c).bit_length() - 1 if c else 0
            if z3.is_sub(e) and z3.is_mod(e.arg(1)) and z3.is_int_value(e.arg(1).arg(1)) and \
                    e.arg(1).arg(0).eq(e.arg(0)):
                c = e.arg(1).arg(1).as_long()
                return c.bit_length() - 1 if c & (c - 1) == 0 else 0
        return 0

    def icmp(self, pred, a, b, n):
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sgn(a, n), sgn(b, n)) if pred[0] == 's' else (a, b)
            return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y,
                        'le': x <= y}[pred if pred in ('eq', 'ne') else pred[1:]])
        if n == 1:
            if pred == 'eq':
                return bnot(self.ibin(None, 'xor', a, b, 1))
            if pred == 'ne':
                return self.ibin(None, 'xor', a, b, 1)
            raise Unsupported('i1 icmp ' + pred)
        if self.imode == 'int':
            if pred[0] == 'u':
                x, l1, h1 = self.unsigned(a, n)
                y, l2, h2 = self.unsigned(b, n)
            else:
                x, l1, h1 = self.iv(a, n)
                y, l2, h2 = self.iv(b, n)
            p = pred if pred in ('eq', 'ne') else pred[1:]
            if p == 'eq':
                if h1 < l2 or h2 < l1:
                    return 0
                return simp(x == y)
            if p == 'ne':
                if h1 < l2 or h2 < l1:
                    return 1
                return simp(x != y)
            if p in ('gt', 'ge'):
                x, l1, h1, y, l2, h2 = y, l2, h2, x, l1, h1
                p = {'gt': 'lt', 'ge': 'le'}[p]
            if p == 'lt':
                if h1 < l2:
                    return 1
                if l1 >= h2:
                    return 0
                return simp(x < y)
            if h1 <= l2:
                return 1
            if l1 > h2:
                return 0
            return simp(x <= y)
        # zext(bool) compare shortcuts
        x, y = self.bv(a, n), self.bv(b, n)
        lx, ly = lead0(x, n), lead0(y, n)
        p = pred
        if p[0] == 's' and lx >= 1 and ly >= 1:
            p = 'u' + p[1:]
            pred = p
        elif p[0] == 's' and lx >= 1 and isinstance(b, int) or p[0] == 's' and ly >= 1 and isinstance(a, int):
            # exactly one side is a negative constant
            return int((p in ('sgt', 'sge')) == (lx >= 1))
        if p in ('ugt', 'uge'):
            p = {'ugt': 'ult', 'uge': 'ule'}[p]
            u, v, lu, lv, cu, cv = y, x, ly, lx, b, a
        else:
            u, v, lu, lv, cu, cv = x, y, lx, ly, a, b
        if p in ('ult', 'ule'):
            mu = (1 << (n - lu)) - 1
            if isinstance(cv, int) and (mu < cv or (p == 'ule' and mu <= cv)):
                return 1
            if isinstance(cu, int):
                mv = (1 << (n - lv)) - 1
                if cu > mv or (p == 'ult' and cu >= mv):
                    return 0
        if pred not in ('eq', 'ne'):
            q = self.offcmp(p, u, v, n) if p in ('ult', 'ule') else None
            if q is not None:
                return q
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        return simp(r)

    def icast(self, st, op, v, n, m):
        """n -> m bits"""
        if op == 'trunc':
            if isinstance(v, int):
                return v & ((1 << m) - 1)
            if self.imode == 'int':
                if m == 1:
                    x, l, h = self.iv(v, n)
                    if l >= 0 and h <= 1:
                        return simp(x == 1)
                    return simp(x % 2 == 1)
                x, l, h = self.iv(v, n)
                return self.wrap(x, l, h, m)
            v = self.bv(v, n)
            if m == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return z3.simplify(z3.Extract(m - 1, 0, v))
        if op == 'zext':
            if isinstance(v, int):
                return v
            if n == 1:
                if self.imode == 'int':
                    return IV(z3.If(v, z3.IntVal(1), z3.IntVal(0)), 0, 1)
                return z3.If(v, z3.BitVecVal(1, m), z3.BitVecVal(0, m))
            if self.imode == 'int':
                x, l, h = self.unsigned(v, n)
                return self.mk(x, l, h, m)
            return self.zx(v, n, m)
        # sext
        if isinstance(v, int):
            return uns(sgn(v, n), m)
        if n == 1:
            if self.imode == 'int':
                return IV(z3.If(v, z3.IntVal(-1), z3.IntVal(0)), -1, 0)
            return z3.If(v, z3.BitVecVal((1 << m) - 1, m), z3.BitVecVal(0, m))
        if self.imode == 'int':
            return v
        if lead0(v, n) >= 1:
            return self.zx(v, n, m)
        return z3.simplify(z3.SignExt(m - n, v))

    def offcmp(self, p, u, v, n):
        """comparison of e+k with e+l where neither sum wraps"""
        k, a = linform(u)
        l, b = linform(v)
        if a != b:
            return None
        return int(k < l if p == 'ult' else k <= l)

    def zx(self, v, n, m):
        """zero extension, moved inside a sum that cannot wrap (sums of different widths then compare equal)"""
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_BADD and \
                sum(ubound(c, n) for c in v.children()) < 1 << n:
            return z3.simplify(z3.Sum([self.zx(c, n, m) for c in v.children()]))
        return z3.simplify(z3.ZeroExt(m - n, v))

    # ------------------------------------------------------------ floats
    def fconst(self, x, kind='double'):
        if self.fmode == 'real':
            if isinstance(x, Fraction):
                return x
            if math.isnan(x) or math.isinf(x):
                return x
            return Fraction(x)
        if isinstance(x, Fraction):
            x = float(x)
        return f32(x) if kind == 'float' else x

    def fz(self, v, kind='double'):
        if self.fmode == 'real':
            if isinstance(v, Fraction):
                return z3.RealVal(v)
            if isinstance(v, float):
                raise Unsupported('nan/inf in real mode')
            return v
        if isinstance(v, float):
            s = F64 if kind == 'double' else F32
            return z3.FPVal(v, s) if not (v == 0 and math.copysign(1, v) < 0) else z3.fpMinusZero(s)
        return v

    def freal(self, e):
        e = z3.simplify(e) if self.eng.opt.get('realsimp') else e
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        return e

    def fbin(self, op, a, b, kind):
        if self.fmode == 'real':
            if isinstance(a, float) or isinstance(b, float):
                raise Unsupported('nan/inf arithmetic in real mode')
            if isinstance(a, Fraction) and isinstance(b, Fraction):
                if op == 'fadd':
                    return a + b
                if op == 'fsub':
                    return a - b
                if op == 'fmul':
                    return a * b
                if op == 'fdiv':
                    if b == 0:
                        raise Unsupported('real division by zero')
                    return a / b
            if isinstance(b, Fraction):
                if b == 0 and op in ('fadd', 'fsub'):
                    return a
                if op == 'fmul' and b == 0:
                    return b
                if op in ('fmul', 'fdiv') and b == 1:
                    return a
                if op == 'fdiv':
                    op = 'fmul'
                    b = 1 / b
            if isinstance(a, Fraction):
                if a == 0 and op == 'fadd':
                    return b
                if op == 'fmul' and a == 0:
                    return a
                if op == 'fmul' and a == 1:
                    return b
            x, y = self.fz(a), self.fz(b)
            return {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y,
                    'fdiv': lambda: x / y}[op]()
        if isinstance(a, float) and isinstance(b, float):
            try:
                r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b,
                     'frem': lambda: math.fmod(a, b)}[op]()
            except ZeroDivisionError:
                if a == 0 or math.isnan(a):
                    r = math.nan
                else:
                    r = math.copysign(math.inf, a) * math.copysign(1, b)
            except (OverflowError, ValueError):
                raise Unsupported('fp concrete overflow')
            return f32(r) if kind == 'float' else r
        x, y = self.fz(a, kind), self.fz(b, kind)
        # commutative canonical order so that syntactically commuted code yields the same term
        if op in ('fadd', 'fmul') and x.get_id() > y.get_id():
            x, y = y, x
        if op == 'fadd':
            return z3.fpAdd(RNE, x, y)
        if op == 'fsub':
            return z3.fpSub(RNE, x, y)
        if op == 'fmul':
            return z3.fpMul(RNE, x, y)
        if op == 'fdiv':
            return z3.fpDiv(RNE, x, y)
        raise Unsupported('symbolic ' + op)

    def fneg(self, a):
        if isinstance(a, (float, Fraction)):
            return -a
        if self.fmode == 'real':
            return -a
        return z3.fpNeg(a)

    def fcmp(self, pred, a, b, kind):
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if self.fmode == 'real':
            if isinstance(a, float) or isinstance(b, float):
                # comparison against +-inf / nan constants
                fa = a if isinstance(a, float) else 0.0
                fb = b if isinstance(b, float) else 0.0
                if math.isnan(fa) or math.isnan(fb):
                    return int(pred[0] == 'u')
                x, y = fa, fb
            elif isinstance(a, Fraction) and isinstance(b, Fraction):
                x, y = a, b
            else:
                p = pred[1:]
                if pred == 'ord':
                    return 1
                if pred == 'uno':
                    return 0
                x, y = self.fz(a), self.fz(b)
                return simp({'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y,
                             'gt': lambda: x > y, 'ge': lambda: x >= y}[p]())
            if pred == 'ord':
                return 1
            if pred == 'uno':
                return 0
            return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]])
        if isinstance(a, float) and isinstance(b, float):
            un = math.isnan(a) or math.isnan(b)
            if pred == 'ord':
                return int(not un)
            if pred == 'uno':
                return int(un)
            if un:
                return int(pred[0] == 'u')
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]])
        x, y = self.fz(a, kind), self.fz(b, kind)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pred == 'ord':
            return simp(z3.Not(un))
        if pred == 'uno':
            return simp(un)
        p = pred[1:]
        if pred[0] == 'o':
            r = {'eq': lambda: z3.fpEQ(x, y), 'ne': lambda: z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y))),
                 'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y), 'gt': lambda: z3.fpLT(y, x),
                 'ge': lambda: z3.fpLEQ(y, x)}[p]()
        else:
            r = {'eq': lambda: z3.Or(un, z3.fpEQ(x, y)), 'ne': lambda: z3.Not(z3.fpEQ(x, y)),
                 'lt': lambda: z3.Not(z3.fpLEQ(y, x)), 'le': lambda: z3.Not(z3.fpLT(y, x)),
                 'gt': lambda: z3.Not(z3.fpLEQ(x, y)), 'ge': lambda: z3.Not(z3.fpLT(x, y))}[p]()
        return simp(r)

    def itof(self, op, v, n, kind):
        r = self.itof_(op, v, n, kind)
        if z3.is_expr(r) and not is_bool(v):
            self.i2f[r.get_id()] = (r, v, n, op, kind)
        return r

    def itof_(self, op, v, n, kind):
        if isinstance(v, int):
            s = sgn(v, n) if op == 'sitofp' else v
            if self.fmode == 'real':
                return Fraction(s)
            return f32(float(s)) if kind == 'float' else float(s)
        if self.fmode == 'real':
            if self.imode == 'int' or is_bool(v):
                e = (self.iv(v, n) if op == 'sitofp' else self.unsigned(v, n))[0]
                return z3.ToReal(e)
            b = z3.simplify(self.bv(v, n))
            if z3.is_bv_value(b):
                return Fraction(b.as_signed_long() if op == 'sitofp' else b.as_long())
            sg = op == 'sitofp'
            key = (b.get_id(), sg)
            if key not in self.cv:
                c = z3.Int('cv!%d' % len(self.cv))
                self.cv[key] = (c, b, sg)
                self.cvn[c.decl().name()] = (c, b, sg)
                e = z3.BV2Int(b, is_signed=sg)
                self.eng.axioms.append(c == e)
                self.eng.axioms.append(z3.And(c >= -(1 << (n - 1)), c < (1 << (n - 1))) if sg else z3.And(c >= 0, c < (1 << n)))
            return z3.ToReal(self.cv[key][0])
        s = F64 if kind == 'double' else F32
        if self.imode == 'int':
            e, lo, hi = self.iv(v, n) if op == 'sitofp' else self.unsigned(v, n)
            raise Unsupported('int->ieee conversion in int mode')
        v = self.bv(v, n)
        return z3.fpSignedToFP(RNE, v, s) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, v, s)

    def ftoi(self, st, op, v, n, kind):
        if isinstance(v, (float, Fraction)):
            if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
                self.eng.oblige(st, 'float-to-int-in-range', 0, 'ub')
                return 0
            i = math.trunc(v)
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op == 'fptosi' else (0, (1 << n) - 1)
            if not lo <= i <= hi:
                self.eng.oblige(st, 'float-to-int-in-range', 0, 'ub')
            return uns(i, n)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op == 'fptosi' else (0, (1 << n) - 1)
        src = self.i2f.get(v.get_id()) if z3.is_expr(v) else None
        if src is not None and src[0].eq(v) and (self.fmode == 'real' or src[2] <= (32 if src[4] == 'double' else 16)):
            # conversion back of a converted integer: exact
            _, w, m, iop, _ = src
            if self.imode == 'int':
                e, l, h = self.iv(w, m) if iop == 'sitofp' else self.unsigned(w, m)
                if l < lo or h > hi:
                    self.eng.oblige(st, 'float-to-int-in-range', simp(z3.And(e >= lo, e <= hi)), 'ub')
                if op == 'fptosi':
                    return IV(e, max(l, lo), min(h, hi))
                return self.wrap(e, max(l, 0), min(h, hi), n)
            b = self.bv(w, m)
            k = max(m, n) + 2
            x = z3.SignExt(k - m, b) if iop == 'sitofp' else z3.ZeroExt(k - m, b)
            ok = z3.And(x >= z3.BitVecVal(lo, k), x <= z3.BitVecVal(hi, k))
            if not (iop == 'uitofp' and m < n or iop == 'sitofp' and m <= n and op == 'fptosi'):
                self.eng.oblige(st, 'float-to-int-in-range', simp(ok), 'ub')
            return z3.simplify(z3.Extract(n - 1, 0, x))
        if self.fmode == 'real':
            t = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            self.eng.oblige(st, 'float-to-int-in-range', z3.And(v > lo - 1, v < hi + 1), 'ub')
            if self.imode == 'int':
                if n == 64 and st is not None and not self.eng.opt.get('notighten'):
                    # a smaller range, so that later machine arithmetic is known not to wrap
                    for b in (31, 47):
                        B = 1 << b
                        if not self.eng.feasible(st.pc, z3.Or(v >= B, v <= -B)):
                            lo, hi = max(lo, -B), B
                            break
                if op == 'fptosi':
                    return IV(t, lo, hi)
                return self.wrap(t, 0, hi, n)
            return z3.Int2BV(t, n)
        x = self.fz(v, kind)
        if self.eng.opt.get('ftoi_ub', True):
            s = F64 if kind == 'double' else F32
            r = z3.fpRoundToIntegral(RTZ, x)
            if op == 'fptosi':
                ok = z3.And(z3.fpGEQ(x, z3.FPVal(-2.0 ** (n - 1), s)) if n == 64 else
                            z3.fpGT(x, z3.FPVal(-2.0 ** (n - 1) - 1, s)), z3.fpLT(x, z3.FPVal(2.0 ** (n - 1), s)))
            else:
                ok = z3.And(z3.fpGT(x, z3.FPVal(-1.0, s)), z3.fpLT(x, z3.FPVal(2.0 ** n, s)))
            self.eng.oblige(st, 'float-to-int-in-range', ok, 'ub')
        if self.imode == 'int':
            raise Unsupported('ieee->int in int mode')
        return z3.fpToSBV(RTZ, x, z3.BitVecSort(n)) if op == 'fptosi' else z3.fpToUBV(RTZ, x, z3.BitVecSort(n))

    def uf(self, name, args):
        f = self.ufs.get((name, len(args)))
        s = REAL if self.fmode == 'real' else F64
        if f is None:
            f = self.ufs[(name, len(args))] = z3.Function('uf_' + name, *([s] * (len(args) + 1)))
        return f(*[self.fz(a) for a in args])

    # ------------------------------------------------------------ generic ite
    def ite(self, c, a, b, t):
        """c: z3 Bool; a,b values of type t (scalar). None if impossible"""
        if a is b:
            return a
        if t.k == 'int':
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            n = t.a
            if n == 1:
                if isinstance(a, int) and isinstance(b, int):
                    return c if a else bnot(c)
                return z3.simplify(z3.If(c, b2z(a), b2z(b)))
            if not scalar_int(a) or not scalar_int(b):
                return None
            if self.imode == 'int':
                x, l1, h1 = self.iv(a, n)
                y, l2, h2 = self.iv(b, n)
                if x.eq(y):
                    return a
                return IV(z3.If(c, x, y), min(l1, l2), max(h1, h2))
            x, y = self.bv(a, n), self.bv(b, n)
            if x.eq(y):
                return a
            return ite_cat(c, x, y, n)
        if t.k in ('double', 'float') or (t.k == 'x86_fp80' and self.fmode == 'real'):
            if isinstance(a, float) and isinstance(b, float) and (
                    struct.pack('d', a) == struct.pack('d', b)):
                return a
            if self.fmode == 'real' and (isinstance(a, float) or isinstance(b, float)):
                return None
            if isinstance(a, Fraction) and isinstance(b, Fraction) and a == b:
                return a
            x, y = self.fz(a, t.k), self.fz(b, t.k)
            if x.eq(y):
                return a
            return z3.If(c, x, y)
        return None


def scalar_int(v):
    return isinstance(v, (int, IV)) or isinstance(v, (z3.BitVecRef, z3.BoolRef))
