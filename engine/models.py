"""Contracts (assumed models) of the external world: the vp_* specification language, the C++ runtime, libc and libm,
and text formatting.  Everything modelled here is listed as trusted in the evidence when it is used."""
import math
import re
from fractions import Fraction
import z3
from ll import Unsupported, IntT, DOUBLE, PTR, T
from dom import *
import sym as S


def cstring(st, eng, p):
    """concrete NUL-terminated string at p"""
    out = bytearray()
    r = eng.region(st, p.r)
    o = p.o
    while True:
        b = eng.load_byte(st, r, o)
        if not isinstance(b, int):
            raise Unsupported('symbolic string')
        if b == 0:
            return out.decode('latin1')
        out.append(b)
        o += 1
        if len(out) > 100000:
            raise Unsupported('unterminated string')


def uniq(st, nm):
    k = st.cnt.get(nm, 0)
    st.cnt[nm] = k + 1
    return nm if k == 0 else '%s.%d' % (nm, k)


def any_int(signed, width=64):
    def f(e, st, args, rett, argt):
        nm = uniq(st, cstring(st, e, args[0]))
        lo, hi = args[1], args[2]
        n = rett.a
        key = ('i', nm)
        if not isinstance(lo, int) or not isinstance(hi, int):
            raise Unsupported('symbolic range')
        slo, shi = (sgn(lo, 64), sgn(hi, 64)) if signed else (lo, hi)
        if slo == shi:
            return uns(slo, n)
        if nm in e.anys:
            return e.anys[nm][1]
        if e.imode == 'int':
            c = z3.Int(nm)
            if not signed and shi >= (1 << 63):
                v = IV(c, -(1 << 63), (1 << 63) - 1)
                ax = z3.And(c >= -(1 << 63), c <= (1 << 63) - 1)
                if slo > 0 or shi < (1 << 64) - 1:
                    u = z3.If(c < 0, c + (1 << 64), c)
                    ax = z3.And(ax, u >= slo, u <= shi)
            else:
                v = IV(c, slo, shi)
                ax = z3.And(c >= slo, c <= shi)
        else:
            k = shi.bit_length()
            if 0 <= slo and 0 < k < n - 1 and not e.opt.get('nonarrow'):
                # a narrower variable, zero extended: sign extensions and truncations of it disappear
                c = z3.BitVec(nm, k)
                v = z3.Concat(z3.BitVecVal(0, n - k), c)
            else:
                k = n
                c = z3.BitVec(nm, n)
                v = c
            if k < n:
                ax = z3.And(z3.UGE(c, z3.BitVecVal(slo, k)), z3.ULE(c, z3.BitVecVal(shi, k)))
                if slo == 0 and shi == (1 << k) - 1:
                    ax = None
            elif signed:
                ax = z3.And(c >= z3.BitVecVal(slo, n), c <= z3.BitVecVal(shi, n))
            else:
                ax = z3.And(z3.UGE(c, z3.BitVecVal(slo, n)), z3.ULE(c, z3.BitVecVal(shi, n)))
            full = k == n and (slo == -(1 << (n - 1)) and shi == (1 << (n - 1)) - 1) if signed else (k == n and slo == 0 and shi == (1 << n) - 1)
            if full:
                ax = None
        if ax is not None:
            e.axioms.append(ax)
            e.solver.add(ax)
        e.anys[nm] = ('i', v, c, slo, shi)
        return v
    return f


def any_bool(e, st, args, rett, argt):
    nm = uniq(st, cstring(st, e, args[0]))
    if nm in e.anys:
        return e.anys[nm][1]
    c = z3.Bool(nm)
    e.anys[nm] = ('b', c, c, 0, 1)
    return c


def any_f64(e, st, args, rett, argt):
    nm = uniq(st, cstring(st, e, args[0]))
    if nm in e.anys:
        return e.anys[nm][1]
    lo, hi = args[1], args[2]
    c = z3.Real(nm) if e.fmode == 'real' else z3.FP(nm, F64)
    if e.fmode == 'real':
        ax = []
        if not isinstance(lo, float):
            ax.append(c >= e.dom.fz(lo))
        if not isinstance(hi, float):
            ax.append(c <= e.dom.fz(hi))
        ax = z3.And(*ax) if ax else None
    else:
        ax = z3.And(z3.fpLEQ(e.dom.fz(lo), c), z3.fpLEQ(c, e.dom.fz(hi)))
    if ax is not None:
        e.axioms.append(ax)
        e.solver.add(ax)
    e.anys[nm] = ('f', c, c, lo, hi)
    return c


def any_f64_any(e, st, args, rett, argt):
    nm = uniq(st, cstring(st, e, args[0]))
    if nm in e.anys:
        return e.anys[nm][1]
    c = z3.Real(nm) if e.fmode == 'real' else z3.FP(nm, F64)
    e.anys[nm] = ('f', c, c, -math.inf, math.inf)
    return c


def asbool(e, v, n):
    if isinstance(v, S.Undef):
        return e.fresh(IntT(1))
    if n == 1:
        return v
    return e.dom.icmp('ne', v, 0, n)


def vp_assume(e, st, args, rett, argt):
    c = asbool(e, args[0], argt[0].a)
    if isinstance(c, int):
        if not c:
            raise S.PathEnd()
        return None
    if not e.feasible(st.pc, c):
        raise S.PathEnd()
    st.pc.append(c)
    return None


def vp_ensure(e, st, args, rett, argt):
    c = asbool(e, args[0], argt[0].a)
    nm = cstring(st, e, args[1])
    kind = 'ensures'
    if any(s.startswith('vpstub__') for s in e.stack):
        kind = 'requires'
    e.oblige(st, nm, c, kind)
    return None


def vp_cover(e, st, args, rett, argt):
    nm = cstring(st, e, args[0])
    e.obls.append(S.Obl(nm, 'cover', list(st.pc), 1, e.where()))
    return None


def vp_uf(k):
    def f(e, st, args, rett, argt):
        nm = cstring(st, e, args[0])
        if nm in LIBM_NAMES and e.fmode == 'real':
            return libm(e, st, nm, args[1:])
        return e.dom.uf(nm, args[1:])
    return f


def vp_ufi(e, st, args, rett, argt):
    """uninterpreted int function (i64 x i64 -> i64)"""
    nm = cstring(st, e, args[0])
    if e.imode == 'int':
        s = z3.IntSort()
        f = z3.Function('ufi_' + nm, s, s, s)
        r = f(e.dom.iv(args[1], 64)[0], e.dom.iv(args[2], 64)[0])
        lo, hi = -(1 << 63), (1 << 63) - 1
        st.pc.append(z3.And(r >= lo, r <= hi))
        return IV(r, lo, hi)
    s = z3.BitVecSort(64)
    f = z3.Function('ufi_' + nm, s, s, s)
    return f(e.dom.bv(args[1], 64), e.dom.bv(args[2], 64))


def vp_array(kind):
    """vp_array_u8(name, len): symbolic contents, symbolic length (unbounded)"""
    def f(e, st, args, rett, argt):
        nm = uniq(st, cstring(st, e, args[0]))
        ln = args[1]
        p = e.alloc(st, None, 'array ' + nm)
        idx = z3.IntSort() if e.imode == 'int' else z3.BitVecSort(64)
        if kind == 'f64':
            el, es, et = (REAL if e.fmode == 'real' else F64), 8, DOUBLE
        else:
            w = int(kind[1:])
            el, es, et = (z3.IntSort() if e.imode == 'int' else z3.BitVecSort(w)), w // 8, IntT(w)
        A = z3.Array(nm, idx, el)
        st.wr(p.r).arr = (A, es, et, ln)
        e.anys[nm] = ('a', A, A, 0, 0)
        return p
    return f


# ------------------------------------------------------------------ runtime
def op_new(e, st, args, rett, argt):
    n = args[0]
    if not isinstance(n, int):
        if e.opt.get('symnew'):
            return e.alloc(st, None, 'heap', heap=True)
        # a symbolic size that is decided on this path
        k = e.concretise(st, n, 64)
        if k is None:
            raise Unsupported('symbolic-size allocation in ' + e.where())
        n = k
    return e.alloc(st, n, 'heap', heap=True)


def op_delete(e, st, args, rett, argt):
    p = args[0]
    if isinstance(p, S.Ptr):
        r = st.mem.get(p.r)
        if r is not None and not r.heap and not e.in_init:
            e.oblige(st, 'memory-safety: delete of non-heap object', 0, 'ub')
        if r is None and not e.in_init and p.r not in e.base.mem:
            e.oblige(st, 'memory-safety: double delete', 0, 'ub')
        st.mem.pop(p.r, None)
    return None


def nop(e, st, args, rett, argt):
    return None


def ret0(e, st, args, rett, argt):
    return 0


def retarg0(e, st, args, rett, argt):
    return args[0]


def cxa_alloc(e, st, args, rett, argt):
    return e.alloc(st, args[0], 'exception', heap=True)


def cxa_throw(e, st, args, rett, argt):
    ti = args[1]
    nm = None
    for n, i in e.gl.items():
        if isinstance(ti, S.Ptr) and i == ti.r:
            nm = n
    if nm is None:
        raise Unsupported('throw of unknown type')
    return [(st, 'throw', ('exc', nm, args[0]))]


def cxa_begin(e, st, args, rett, argt):
    x = args[0]
    st.caught.append(x)
    if isinstance(x, tuple):
        return x[2]
    return x


def cxa_end(e, st, args, rett, argt):
    if st.caught:
        st.caught.pop()
    return None


def cxa_rethrow(e, st, args, rett, argt):
    if not st.caught:
        e.oblige(st, 'rethrow without exception', 0, 'ub')
        raise S.PathEnd()
    return [(st, 'throw', st.caught.pop())]


def cxa_getptr(e, st, args, rett, argt):
    x = args[0]
    return x[2] if isinstance(x, tuple) else x


def guard_acquire(e, st, args, rett, argt):
    v = e.load(st, args[0], IntT(8))
    if isinstance(v, int) and v:
        return 0
    return 1


def guard_release(e, st, args, rett, argt):
    e.store(st, args[0], 1, IntT(8))
    return None


def terminate(e, st, args, rett, argt):
    e.oblige(st, 'program termination (std::terminate/abort) reached', 0, 'ub')
    raise S.PathEnd()


def std_throw(ti):
    def f(e, st, args, rett, argt):
        p = e.alloc(st, 16, 'exception', heap=True)
        return [(st, 'throw', ('exc', ti, p))]
    return f


def memcpy(e, st, args, rett, argt):
    e.memcpy(st, args[0], args[1], args[2])
    return args[0]


def memset(e, st, args, rett, argt):
    b = args[1]
    b = (b & 255) if isinstance(b, int) else e.dom.icast(st, 'trunc', b, 32, 8)
    e.memset(st, args[0], b, args[2])
    return args[0]


def memcmp(e, st, args, rett, argt):
    n = args[2]
    if not isinstance(n, int):
        raise Unsupported('memcmp symbolic size')
    res = 0
    a, b = args[0], args[1]
    for i in range(n - 1, -1, -1):
        x = e.load(st, e.padd(a, i), IntT(8))
        y = e.load(st, e.padd(b, i), IntT(8))
        eq = e.dom.icmp('eq', x, y, 8)
        lt = e.dom.icmp('ult', x, y, 8)
        if isinstance(eq, int):
            if eq:
                continue
            if isinstance(lt, int):
                res = uns(-1, 32) if lt else 1
                continue
        ne = (uns(-1, 32) if lt else 1) if isinstance(lt, int) else e.dom.ite(lt, uns(-1, 32), 1, IntT(32))
        res = e.dom.ite(b2z(eq), res, ne, IntT(32)) if not isinstance(eq, int) else (res if eq else ne)
    return res


def strlen(e, st, args, rett, argt):
    p = args[0]
    r = e.region(st, p.r)
    n = 0
    while True:
        b = e.load_byte(st, r, p.o + n)
        if not isinstance(b, int):
            z = e.dom.icmp('eq', b, 0, 8)
            if not isinstance(z, int):
                if e.feasible(st.pc, z):
                    raise Unsupported('strlen of symbolic data')
        elif b == 0:
            return n
        n += 1


def memchr(e, st, args, rett, argt):
    n = args[2]
    p = args[0]
    c = args[1]
    if not isinstance(n, int) or not isinstance(c, int):
        raise Unsupported('memchr symbolic')
    for i in range(n):
        x = e.load(st, e.padd(p, i), IntT(8))
        if not isinstance(x, int):
            raise Unsupported('memchr over symbolic data')
        if x == (c & 255):
            return e.padd(p, i)
    return 0


def ctype(pred):
    """isdigit & co on the C locale"""
    def f(e, st, args, rett, argt):
        x = args[0]
        if isinstance(x, int):
            return int(pred(sgn(x, 32)))
        v = 0
        rng = []
        k = 0
        while k < 256:
            if pred(k):
                j = k
                while j + 1 < 256 and pred(j + 1):
                    j += 1
                rng.append((k, j))
                k = j
            k += 1
        c = 0
        for a, b in rng:
            c = bor(c, band(e.dom.icmp('sge', x, a, 32), e.dom.icmp('sle', x, b, 32)))
        return c if isinstance(c, int) else e.dom.ite(c, 1, 0, IntT(32))
    return f


def tocase(lo, hi, d):
    def f(e, st, args, rett, argt):
        x = args[0]
        if isinstance(x, int):
            return uns(x + d, 32) if lo <= sgn(x, 32) <= hi else x
        c = band(e.dom.icmp('sge', x, lo, 32), e.dom.icmp('sle', x, hi, 32))
        y = e.dom.ibin(st, 'add', x, uns(d, 32), 32)
        return (y if c else x) if isinstance(c, int) else e.dom.ite(c, y, x, IntT(32))
    return f


# ------------------------------------------------------------------ text (abstracted)
def empty_string(e, st, p):
    """construct an empty std::string (libstdc++ SSO layout) at p"""
    e.store(st, p, e.padd(p, 16), PTR)
    e.store(st, e.padd(p, 8), 0, IntT(64))
    e.store(st, e.padd(p, 16), 0, IntT(8))


def ret_empty_string(e, st, args, rett, argt):
    empty_string(e, st, args[0])
    return None


# ------------------------------------------------------------------ libm
LIBM_NAMES = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'log10', 'pow', 'sqrt', 'sinh',
              'cosh', 'tanh', 'fabs', 'floor', 'ceil', 'trunc', 'fmod', 'hypot', 'exp2'}


def is_conc(v):
    return isinstance(v, (float, Fraction))


def libm(e, st, f, a):
    real = e.fmode == 'real'
    a = [e.fresh(DOUBLE, 'undef') if isinstance(x, S.Undef) else x for x in a]
    if f in ('rint', 'nearbyint') and real:
        raise Unsupported('rint in real mode')
    if not real:
        if all(is_conc(x) for x in a):
            try:
                if f == 'round':
                    return math.copysign(math.floor(abs(a[0]) + 0.5), a[0]) if abs(a[0]) < 2 ** 52 else a[0]
                if f in ('floor', 'ceil', 'trunc'):
                    return math.copysign(float(getattr(math, f)(a[0])), a[0]) if math.isfinite(a[0]) else a[0]
                if f in ('rint', 'nearbyint'):
                    return float(round(a[0]))
                if f == 'copysign':
                    return math.copysign(*a)
                if f in ('fmuladd',):
                    return a[0] * a[1] + a[2]
                if f == 'exp2':
                    return 2.0 ** a[0]
                return float(getattr(math, f)(*a))
            except (ValueError, OverflowError, AttributeError):
                raise Unsupported('libm %s(%r)' % (f, a))
        x = [e.dom.fz(v) for v in a]
        if f == 'fabs':
            return z3.fpAbs(x[0])
        if f == 'floor':
            return z3.fpRoundToIntegral(z3.RTN(), x[0])
        if f == 'ceil':
            return z3.fpRoundToIntegral(z3.RTP(), x[0])
        if f == 'trunc':
            return z3.fpRoundToIntegral(z3.RTZ(), x[0])
        if f in ('rint', 'nearbyint'):
            return z3.fpRoundToIntegral(z3.RNE(), x[0])
        if f == 'round':
            return z3.fpRoundToIntegral(z3.RNA(), x[0])
        if f == 'sqrt':
            return z3.fpSqrt(RNE, x[0])
        if f == 'fmuladd':
            return z3.fpAdd(RNE, z3.fpMul(RNE, x[0], x[1]), x[2])
        if f == 'copysign':
            m = z3.fpAbs(x[0])
            return z3.If(z3.fpIsNegative(x[1]), z3.fpNeg(m), m)
        if f == 'fmod' and is_conc(a[1]):
            return fmod_ieee(e, st, x[0], a[1])
        e.stats['opaque']['libm:' + f] = e.stats['opaque'].get('libm:' + f, 0) + 1
        return e.dom.uf(f, a)
    # ---- reals
    if all(isinstance(x, Fraction) for x in a):
        x = a[0]
        if f == 'fabs':
            return abs(x)
        if f == 'floor':
            return Fraction(math.floor(x))
        if f == 'ceil':
            return Fraction(math.ceil(x))
        if f == 'trunc':
            return Fraction(math.trunc(x))
        if f == 'round':
            return Fraction(math.floor(abs(x) + Fraction(1, 2))) * (1 if x >= 0 else -1)
        if f == 'sqrt' and x >= 0:
            n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
            if n * n == x.numerator and d * d == x.denominator:
                return Fraction(n, d)
        if f == 'pow' and a[1].denominator == 1 and abs(a[1]) < 2000 and x != 0:
            return x ** int(a[1])
        if f == 'fmod' and a[1] != 0:
            return x - a[1] * math.trunc(x / a[1])
        if f == 'sin' and x == 0 or f == 'atan' and x == 0 or f == 'tan' and x == 0:
            return Fraction(0)
        if f == 'cos' and x == 0 or f == 'exp' and x == 0:
            return Fraction(1)
        if f == 'exp2' and x.denominator == 1:
            return Fraction(2) ** int(x)
        # as the compiler folds it: the double nearest to the value
        if f in ('sqrt', 'sin', 'cos', 'tan', 'atan') and (f != 'sqrt' or x > 0) and Fraction(float(x)) == x:
            return Fraction(getattr(math, f)(float(x)))
    z = [e.dom.fz(v) for v in a]
    x = z[0]
    if f == 'fabs':
        return z3.If(x >= 0, x, -x)
    if f == 'floor':
        return z3.ToReal(z3.ToInt(x))
    if f == 'ceil':
        return -z3.ToReal(z3.ToInt(-x))
    if f == 'trunc':
        return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
    if f == 'round':
        return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.RealVal('1/2'))), -z3.ToReal(z3.ToInt(-x + z3.RealVal('1/2'))))
    if f == 'fmuladd' or f == 'fma':
        return z[0] * z[1] + z[2]
    if f == 'copysign':
        m = z3.If(x >= 0, x, -x)
        return z3.If(z[1] < 0, -m, m)
    if f == 'fmod' and isinstance(a[1], Fraction) and a[1] != 0:
        q = x / z[1]
        return x - z[1] * z3.If(q >= 0, z3.ToReal(z3.ToInt(q)), -z3.ToReal(z3.ToInt(-q)))
    if f == 'pow' and isinstance(a[1], Fraction) and a[1].denominator == 1 and 0 <= a[1] <= 8:
        r = z3.RealVal(1)
        n = int(a[1])
        if n == 0:
            return Fraction(1)
        r = x
        for _ in range(n - 1):
            r = r * x
        return r
    if f == 'pow' and isinstance(a[1], Fraction) and a[1].denominator == 1 and -8 <= a[1] < 0:
        r = x
        for _ in range(-int(a[1]) - 1):
            r = r * x
        return 1 / r
    if f == 'sqrt' or (f == 'pow' and isinstance(a[1], Fraction) and a[1] == Fraction(1, 2)):
        v = e.dom.uf('sqrt', [a[0]])
        e.axiom(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x)))
        return v
    e.stats['opaque']['libm:' + f] = e.stats['opaque'].get('libm:' + f, 0) + 1
    if f in ('sin', 'cos'):
        # odd / even symmetry on a syntactic negation, and the Pythagorean identity
        s, c = e.dom.uf('sin', [a[0]]), e.dom.uf('cos', [a[0]])
        e.axiom(s * s + c * c == 1)
        e.axiom(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
        return s if f == 'sin' else c
    v = e.dom.uf(f, a)
    if f in ('exp', 'exp2') or f == 'pow' and is_conc(a[0]) and a[0] > 0:
        e.axiom(v > 0)
    # ranges, with room for the rounding of pi
    pi = z3.RealVal('3.14159265358979324')
    if f == 'atan2':
        e.axiom(z3.And(v <= pi, v >= -pi))
    elif f in ('atan', 'asin'):
        e.axiom(z3.And(v <= pi / 2, v >= -pi / 2))
    elif f == 'acos':
        e.axiom(z3.And(v <= pi, v >= 0))
    return v


def fmod_ieee(e, st, x, y):
    raise Unsupported('fmod on symbolic ieee value')


def libm_model(f):
    def g(e, st, args, rett, argt):
        return libm(e, st, f, args)
    return g


def modf(e, st, args, rett, argt):
    t = libm(e, st, 'trunc', [args[0]])
    e.store(st, args[1], t, DOUBLE)
    if e.fmode == 'real':
        return e.dom.fbin('fsub', args[0], t, 'double')
    if isinstance(t, float):
        return math.modf(args[0])[0]
    x = args[0]
    r = z3.fpSub(RNE, x, t)
    # exact; the result carries the sign of x, and +-0 for infinities
    r = z3.If(z3.Or(z3.fpIsInf(x), z3.fpIsZero(r)), z3.If(z3.fpIsNegative(x), z3.fpMinusZero(F64), z3.fpPlusZero(F64)), r)
    return r


def ldexp(e, st, args, rett, argt):
    x, n = args
    if not isinstance(n, int):
        raise Unsupported('ldexp symbolic exponent')
    n = sgn(n, 32)
    if e.fmode == 'real':
        return e.dom.fbin('fmul', x, Fraction(2) ** n, 'double')
    if isinstance(x, float):
        return math.ldexp(x, n)
    if abs(n) < 1000:
        return e.dom.fbin('fmul', x, 2.0 ** n, 'double')
    raise Unsupported('ldexp')


def powm(e, st, args, rett, argt):
    a, b = args
    if e.fmode == 'ieee':
        if is_conc(a) and is_conc(b):
            return math.pow(a, b)
        if isinstance(a, float) and a == 2.0 and not is_conc(b):
            # pow(2, sitofp(n)) where n is a small integer: exact table
            n = None
            if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_FPA_TO_FP and b.num_args() == 2 and z3.is_bv(b.arg(1)):
                n = b.arg(1)
            if n is not None:
                w = n.size()
                lim = 64
                r = e.dom.uf('pow', args)
                for k in range(-lim, lim + 1):
                    r = z3.If(n == z3.BitVecVal(k, w), z3.FPVal(2.0 ** k, F64), r)
                return r
        if is_conc(b) and b == 2.0:
            return e.dom.fbin('fmul', a, a, 'double')
        e.stats['opaque']['libm:pow'] = e.stats['opaque'].get('libm:pow', 0) + 1
        return e.dom.uf('pow', args)
    return libm(e, st, 'pow', [x if not isinstance(x, float) else Fraction(x) for x in args])


def isnan(e, st, args, rett, argt):
    x = args[0]
    if is_conc(x):
        return int(isinstance(x, float) and math.isnan(x))
    if e.fmode == 'real':
        return 0
    return e.dom.ite(z3.fpIsNaN(x), 1, 0, IntT(rett.a)) if rett.a > 1 else z3.fpIsNaN(x)


EXACT = {
    'vp_i64': any_int(True), 'vp_u64': any_int(False), 'vp_bool': any_bool, 'vp_f64': any_f64,
    'vp_f64_any': any_f64_any, 'vp_assume': vp_assume, 'vp_ensure': vp_ensure, 'vp_cover': vp_cover,
    'vp_uf1': vp_uf(1), 'vp_uf2': vp_uf(2), 'vp_uf3': vp_uf(3), 'vp_ufi': vp_ufi,
    'vp_array_u8': vp_array('u8'), 'vp_array_u32': vp_array('u32'), 'vp_array_u64': vp_array('u64'), 'vp_array_f64': vp_array('f64'),
    '_Znwm': op_new, '_Znam': op_new, '_ZdlPv': op_delete, '_ZdaPv': op_delete, '_ZdlPvm': op_delete,
    '_ZdaPvm': op_delete, 'free': op_delete, 'malloc': op_new,
    '_ZnwmRKSt9nothrow_t': op_new, '_ZdlPvRKSt9nothrow_t': op_delete,
    '__cxa_allocate_exception': cxa_alloc, '__cxa_free_exception': nop, '__cxa_throw': cxa_throw,
    '__cxa_begin_catch': cxa_begin, '__cxa_end_catch': cxa_end, '__cxa_rethrow': cxa_rethrow,
    '__cxa_get_exception_ptr': cxa_getptr, '__cxa_guard_acquire': guard_acquire,
    '__cxa_guard_release': guard_release, '__cxa_guard_abort': nop, '__cxa_atexit': ret0,
    '_ZSt9terminatev': terminate, 'abort': terminate, '__clang_call_terminate': terminate,
    '__cxa_call_unexpected': terminate, '__cxa_pure_virtual': terminate, 'exit': terminate,
    '__assert_fail': terminate,
    '_ZSt20__throw_length_errorPKc': std_throw('_ZTISt12length_error'),
    '_ZSt20__throw_out_of_rangePKc': std_throw('_ZTISt12out_of_range'),
    '_ZSt24__throw_out_of_range_fmtPKcz': std_throw('_ZTISt12out_of_range'),
    '_ZSt19__throw_logic_errorPKc': std_throw('_ZTISt11logic_error'),
    '_ZSt24__throw_invalid_argumentPKc': std_throw('_ZTISt16invalid_argument'),
    '_ZSt17__throw_bad_allocv': std_throw('_ZTISt9bad_alloc'),
    '_ZSt28__throw_bad_array_new_lengthv': std_throw('_ZTISt9bad_alloc'),
    '_ZSt25__throw_bad_function_callv': std_throw('_ZTISt9exception'),
    'memcpy': memcpy, 'memmove': memcpy, 'memset': memset, 'memcmp': memcmp, 'strlen': strlen, 'memchr': memchr,
    'bcmp': memcmp, 'modf': modf, 'ldexp': ldexp, 'pow': powm, 'scalbn': ldexp,
    'isdigit': ctype(lambda c: 48 <= c <= 57), 'isspace': ctype(lambda c: c in (32, 9, 10, 11, 12, 13)),
    'isalpha': ctype(lambda c: 65 <= c <= 90 or 97 <= c <= 122),
    'isalnum': ctype(lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57),
    'isxdigit': ctype(lambda c: 65 <= c <= 70 or 97 <= c <= 102 or 48 <= c <= 57),
    'isupper': ctype(lambda c: 65 <= c <= 90), 'islower': ctype(lambda c: 97 <= c <= 122),
    'isprint': ctype(lambda c: 32 <= c <= 126),
    'toupper': tocase(97, 122, -32), 'tolower': tocase(65, 90, 32),
    '_ZNSt8ios_base4InitC1Ev': nop, '_ZNSt8ios_base4InitD1Ev': nop,
    '__isnan': isnan, 'isnan': isnan,
}
for _f in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'exp', 'log', 'log10', 'sqrt', 'sinh', 'cosh', 'tanh',
           'fabs', 'floor', 'ceil', 'trunc', 'fmod', 'hypot', 'rint', 'nearbyint', 'round', 'copysign', 'exp2'):
    EXACT[_f] = libm_model(_f)

# text: formatting streams are opaque; any text they yield is abstracted to the empty string.  Contracts never mention
# text produced this way.
TEXT = re.compile(r'^(_ZNSo|_ZNKSo|_ZStls|_ZNSi|_ZStrs|_ZNSolsE|_ZSt4endl|_ZSt5flush|_ZSt4ends|'
                  r'_ZNSt8ios_base|_ZNKSt8ios_base|_ZNSt9basic_ios|_ZNKSt9basic_ios|_ZNSt6locale|_ZNKSt6locale|'
                  r'_ZNSt15basic_streambuf|_ZSt16__ostream_insert|'
                  r'_ZNKSt7__cxx1119basic_ostringstream|_ZNSt7__cxx1119basic_ostringstream|'
                  r'_ZNKSt7__cxx1118basic_stringstream|_ZNSt7__cxx1118basic_stringstream|'
                  r'_ZNSt7__cxx1115basic_stringbuf|_ZNKSt7__cxx1115basic_stringbuf|'
                  r'_ZN5gpstk9ExceptionC|_ZN5gpstk9ExceptionD|_ZN5gpstk9Exception7addText|'
                  r'_ZN5gpstk9Exception11addLocation|_ZN5gpstk9ExceptionaS|_ZN5gpstk17ExceptionLocation)')
STR = re.compile(r'^_ZNKSt7__cxx111[589]basic_(o?stringstream|stringbuf)I.*E3strEv$')


def text(e, st, args, rett, argt):
    if rett.k == 'ptr':
        return args[0]
    if rett.k == 'void':
        return None
    if rett.k == 'int':
        return 0 if rett.a > 1 else 0
    return e.fresh(rett, 'text')


def lookup(e, name):
    m = EXACT.get(name)
    if m is not None:
        return m
    m = e.extra_models.get(name) if getattr(e, 'extra_models', None) else None
    if m is not None:
        return m
    if STR.match(name):
        e.stats['opaque']['text formatting'] = e.stats['opaque'].get('text formatting', 0) + 1
        return ret_empty_string
    if TEXT.match(name):
        e.stats['opaque']['text formatting'] = e.stats['opaque'].get('text formatting', 0) + 1
        return text
    for rx, f in e.opt.get('opaque', ()):
        if re.search(rx, name):
            e.stats['opaque'][name] = e.stats['opaque'].get(name, 0) + 1
            return {'nop': nop, 'emptystr': ret_empty_string, 'self': retarg0, 'text': text, 'zero': ret0}[f]
    return None
