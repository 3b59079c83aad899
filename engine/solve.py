"""Discharge of proof obligations by SMT back ends (z3 4.8 / z3 newer / cvc5), in parallel, with time limits."""
import os
import re
import subprocess
import tempfile
import ctypes
import time
import signal
import math
import struct
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
import z3
from dom import *


def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    return z3.And(*xs) if len(xs) > 1 else xs[0]


_libc = ctypes.CDLL(None)


def child():
    os.setsid()
    _libc.prctl(1, 9)          # a solver does not outlive the verifier process


class Query:
    def __init__(self, oid, fs, anys):
        self.oid = oid
        s = z3.Solver()
        for f in fs:
            s.add(f)
        self.text = s.to_smt2()
        self.anys = anys


FP_ABS_OPS = None


def relevant_axioms(fs, axioms):
    """axioms transitively sharing uninterpreted symbols with fs"""
    def syms(e, acc, seen):
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc.add(x.decl().name() if x.num_args() == 0 else ('app', x.get_id()))
                st.extend(x.children())
            elif z3.is_quantifier(x):
                st.append(x.body())
    have, seen = set(), set()
    for f in fs:
        syms(f, have, seen)
    pend = []
    for a in axioms:
        s = set()
        syms(a, s, set())
        pend.append((a, s))
    res = []
    ch = True
    while ch:
        ch = False
        np = []
        for a, s in pend:
            if s & have:
                res.append(a)
                if s - have:
                    have |= s
                    ch = True
            else:
                np.append((a, s))
        pend = np
    return res


def logic_of(text):
    return None


def run_one(text, solver, timeout, wd, want):
    """-> (result, model_text, secs)"""
    fd, path = tempfile.mkstemp(suffix='.smt2', dir=wd)
    body = text
    if solver == 'cvc5':
        body = '(set-logic ALL)\n' + body
        body = '(set-option :produce-models true)\n' + body
    if want:
        body = body + '\n(get-value (%s))\n' % ' '.join(want)
    os.write(fd, body.encode())
    os.close(fd)
    if solver == 'cvc5':
        cmd = ['cvc5', '--tlimit=%d' % int(timeout * 1000), path]
    elif solver == 'cvc5-nl':
        body = body
        cmd = ['cvc5', '--nl-cov', '--tlimit=%d' % int(timeout * 1000), path]
    else:
        cmd = [solver, '-T:%d' % max(1, int(math.ceil(timeout))), path]
    t0 = time.time()
    return cmd, path, t0


class Back:
    """runs a portfolio on one query"""

    def __init__(self, wd, solvers=('z3-new', 'cvc5', 'z3')):
        self.wd = wd
        self.solvers = solvers
        self.secs = {}

    def solve(self, text, timeout, want=(), solvers=None):
        procs = []
        t0 = time.time()
        for s in (solvers or self.solvers):
            cmd, path, _ = run_one(text, s, timeout, self.wd, list(want))
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=child)
            procs.append((s, p, path))
        res = ('unknown', None, '')
        import selectors
        sel = selectors.DefaultSelector()
        buf = {}
        for s, p, path in procs:
            os.set_blocking(p.stdout.fileno(), False)
            sel.register(p.stdout, selectors.EVENT_READ, (s, p))
            buf[s] = b''
        live = len(procs)
        done = None
        while live and done is None:
            left = timeout + 2 - (time.time() - t0)
            if left <= 0:
                break
            for key, _ in sel.select(left):
                s, p = key.data
                d = key.fileobj.read()
                if d:
                    buf[s] += d
                    continue
                if d is None:
                    continue
                sel.unregister(key.fileobj)
                live -= 1
                out = buf[s].decode('utf8', 'replace')
                first = out.strip().split('\n', 1)[0].strip()
                if first in ('sat', 'unsat'):
                    done = (first, out, s)
                    break
        for s, p, path in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            p.stdout.close()
            p.wait()
            try:
                os.unlink(path)
            except OSError:
                pass
        dt = time.time() - t0
        if done:
            return done[0], done[1].split('\n', 1)[1] if '\n' in done[1] else '', done[2], dt
        return 'unknown', '', '', dt


# ------------------------------------------------------------ model values
def parse_sexp(s):
    toks = re.findall(r'\(|\)|\|[^|]*\||[^\s()]+', s)
    pos = 0

    def rd():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '(':
            l = []
            while toks[pos] != ')':
                l.append(rd())
            pos += 1
            return l
        return t
    out = []
    while pos < len(toks):
        out.append(rd())
    return out


def num(x):
    if isinstance(x, str):
        if x.startswith('#x'):
            return int(x[2:], 16)
        if x.startswith('#b'):
            return int(x[2:], 2)
        if x == 'true':
            return 1
        if x == 'false':
            return 0
        try:
            return Fraction(x)
        except ValueError:
            return None
    if not x:
        return None
    if x[0] == '-':
        v = num(x[1])
        return None if v is None else -v
    if x[0] == '/':
        a, b = num(x[1]), num(x[2])
        return None if a is None or b is None else Fraction(a) / Fraction(b)
    if x[0] == '_':
        if x[1] == '+zero':
            return 0.0
        if x[1] == '-zero':
            return -0.0
        if x[1] == '+oo':
            return math.inf
        if x[1] == '-oo':
            return -math.inf
        if x[1] == 'NaN':
            return math.nan
        if x[1].startswith('bv'):
            return int(x[1][2:])
    if x[0] == 'fp':
        s, e, m = x[1:]

        def bits(b):
            return bin(int(b[2:], 16))[2:].zfill(4 * (len(b) - 2)) if b.startswith('#x') else b[2:]
        b = bits(s) + bits(e) + bits(m)
        return struct.unpack('>d', int(b, 2).to_bytes(8, 'big'))[0] if len(b) == 64 else None
    return None


def model_values(text, names):
    out = {}
    try:
        sx = parse_sexp(text)
    except IndexError:
        return out
    for grp in sx:
        if isinstance(grp, list):
            for it in grp:
                if isinstance(it, list) and len(it) == 2 and isinstance(it[0], str):
                    out[it[0].strip('|')] = num(it[1])
    return out


# ------------------------------------------------------------ FP abstraction
def abstract_fp(fs):
    """replace floating-point arithmetic by uninterpreted functions of the same sort (sound for unsat)"""
    cache = {}
    K = z3
    heavy = {z3.Z3_OP_FPA_MUL: 'mul', z3.Z3_OP_FPA_DIV: 'div', z3.Z3_OP_FPA_ADD: 'add', z3.Z3_OP_FPA_SUB: 'sub',
             z3.Z3_OP_FPA_SQRT: 'sqrt', z3.Z3_OP_FPA_ROUND_TO_INTEGRAL: 'rti', z3.Z3_OP_FPA_REM: 'rem',
             z3.Z3_OP_FPA_TO_SBV: 'tosbv', z3.Z3_OP_FPA_TO_UBV: 'toubv', z3.Z3_OP_FPA_TO_FP: 'tofp',
             z3.Z3_OP_FPA_TO_FP_UNSIGNED: 'tofpu', z3.Z3_OP_FPA_FMA: 'fma'}
    n = 0

    def rec(root):
        st = [root]
        while st:
            e = st[-1]
            i = e.get_id()
            if i in cache:
                st.pop()
                continue
            if not z3.is_app(e):
                cache[i] = (e, e)
                st.pop()
                continue
            ch = e.children()
            todo = [c for c in ch if c.get_id() not in cache]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            nc = [cache[c.get_id()][0] for c in ch]
            k = e.decl().kind()
            if k in heavy and not (k == z3.Z3_OP_FPA_TO_FP and len(ch) == 1):
                args = [c for c in nc if c.sort().kind() != z3.Z3_ROUNDING_MODE_SORT]
                rm = ''.join(str(c) for c in ch if c.sort().kind() == z3.Z3_ROUNDING_MODE_SORT)
                nm = 'abs_%s_%s_%s' % (heavy[k], re.sub(r'\W', '', rm), '_'.join(
                    re.sub(r'\W', '', str(a.sort())) for a in args) + '_' + re.sub(r'\W', '', str(e.sort())))
                f = z3.Function(nm, *([a.sort() for a in args] + [e.sort()]))
                r = f(*args)
            elif all(a.eq(b) for a, b in zip(nc, ch)):
                r = e
            else:
                r = z3.substitute(e, *[(a, b) for a, b in zip(ch, nc) if not a.eq(b)]) if k in (
                    z3.Z3_OP_DISTINCT,) else e.decl()(*nc)
            cache[i] = (r, e)
        return cache[root.get_id()][0]
    return [rec(f) for f in fs]


def purify_int(fs):
    """replace to_int, div and mod by constants by fresh integers with linear axioms (equisatisfiable); None if nothing to do"""
    cache = {}
    extra = []
    qr = {}
    n = [0]

    def fresh():
        n[0] += 1
        return z3.Int('pur!%d' % n[0])

    def divmod_(x, c):
        key = (x.get_id(), c)
        if key not in qr:
            q, r = fresh(), fresh()
            extra.append(z3.And(x == c * q + r, r >= 0, r < abs(c)))
            qr[key] = (q, r, x)
        return qr[key]

    def rec(root):
        st = [root]
        while st:
            e = st[-1]
            i = e.get_id()
            if i in cache:
                st.pop()
                continue
            if not z3.is_app(e):
                if z3.is_quantifier(e):
                    raise ValueError
                cache[i] = (e, e)
                st.pop()
                continue
            ch = e.children()
            todo = [c for c in ch if c.get_id() not in cache]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            nc = [cache[c.get_id()][0] for c in ch]
            k = e.decl().kind()
            r = None
            if k == z3.Z3_OP_TO_INT:
                r = fresh()
                x = nc[0]
                extra.append(z3.And(z3.ToReal(r) <= x, x < z3.ToReal(r) + 1))
            elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(nc[1]) and nc[1].as_long() != 0:
                q, m, _ = divmod_(nc[0], nc[1].as_long())
                r = q if k == z3.Z3_OP_IDIV else m
            elif all(a.eq(b) for a, b in zip(nc, ch)):
                r = e
            else:
                r = z3.substitute(e, *[(a, b) for a, b in zip(ch, nc) if not a.eq(b)]) if k in (
                    z3.Z3_OP_DISTINCT,) else e.decl()(*nc)
            cache[i] = (r, e)
        return cache[root.get_id()][0]
    out = [rec(f) for f in fs]
    return out + extra if n[0] else None


def has_fp(fs):
    seen = set()
    st = list(fs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(e):
            if z3.Z3_OP_FPA_NUM if False else (e.decl().kind() in (z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_ADD,
                                               z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_SQRT, z3.Z3_OP_FPA_FMA)):
                return True
            st.extend(e.children())
    return False


# ------------------------------------------------------------ SAT sweeping of bit vectors that enter arithmetic
def const_names(es):
    seen, out, st = set(), {}, list(es)
    pure = True
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if not z3.is_app(e):
            return {}, False
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if e.num_args() == 0:
                out[e.decl().name()] = e
            else:
                pure = False
        if not (z3.is_bv(e) or z3.is_bool(e)):
            pure = False
        st.extend(e.children())
    return out, pure


def bvsweep(fs, cvn, tmo=3000, maxnodes=80):
    """SAT sweeping: merge bit-vector terms that enter float/real arithmetic and are equal under the pure bit-vector
    part of the hypotheses (decided by the bit-vector solver).  cvn: name -> (int const, bv term, signed)"""
    import random
    conv = (z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_FP_UNSIGNED)
    names, _ = const_names(fs)
    items = []                       # (what is replaced, 72-bit value, pure bv term)
    for nm in names:
        if nm in cvn:
            c, b, sg = cvn[nm]
            items.append((c, z3.SignExt(72 - b.size(), b) if sg else z3.ZeroExt(72 - b.size(), b), 'i'))
    seen, st, ids = set(), list(fs), set()
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen or not z3.is_app(e):
            continue
        seen.add(i)
        if e.decl().kind() in conv and e.num_args() == 2 and z3.is_bv(e.arg(1)):
            a = e.arg(1)
            if not z3.is_bv_value(a) and a.num_args() > 0 and a.get_id() not in ids:
                ids.add(a.get_id())
                items.append((a, a, 'f%d' % a.size()))
        st.extend(e.children())
    if len(items) < 2 or len(items) > maxnodes:
        return fs
    vs, good = {}, []
    for it in items:
        c, pure = const_names([it[1]])
        if pure:
            good.append(it)
            vs.update(c)
    if len(good) < 2:
        return fs
    side = [f for f in fs[:-1] if const_names([f])[1]]
    rnd = random.Random(7)
    sig = [[] for _ in good]
    for t in range(8):
        s = z3.Solver()
        s.set('timeout', 500)
        for f in side:
            s.add(f)
        for nm, v in vs.items():
            if z3.is_bv(v):
                n = v.size()
                s.push()
                for lo in range(0, min(n, 32), 8):
                    hi = min(lo + 7, n - 1)
                    s.add(z3.Extract(hi, lo, v) == rnd.getrandbits(hi - lo + 1))
                if s.check() != z3.sat:
                    s.pop()
        if s.check() != z3.sat:
            break
        m = s.model()
        for k, it in enumerate(good):
            x = m.eval(it[1], model_completion=True)
            sig[k].append(x.as_long() if z3.is_bv_value(x) else None)
    cls = {}
    for k, it in enumerate(good):
        cls.setdefault((it[2], tuple(sig[k])), []).append(it)
    sub = []
    for c in cls.values():
        if len(c) < 2:
            continue
        rep = c[0]
        for it in c[1:]:
            s = z3.SolverFor('QF_BV')
            s.set('timeout', tmo)
            for f in side:
                s.add(f)
            s.add(it[1] != rep[1])
            if s.check() == z3.unsat:
                sub.append((it[0], rep[0]))
    if not sub:
        return fs
    return [z3.simplify(z3.substitute(f, *sub)) for f in fs]


# ------------------------------------------------------------ bits as polynomials over GF(2)
class _TooBig(Exception):
    pass


class GF2:
    """bits of Boolean and bit-vector terms as polynomials over GF(2) (algebraic normal form) of atoms.
    A bit is a frozenset of monomials; a monomial is an int (set of atoms); 0 is the empty product."""
    ZERO, ONE = frozenset(), frozenset([0])

    def __init__(self, cap=6000, maxnodes=200000, budget=20.0):
        self.memo = {}
        self.keep = []
        self.top = 1
        self.cap, self.maxnodes, self.budget = cap, maxnodes, budget
        self.terms = {}
        self.canon_cache = {}

    def atom(self, e=None, i=0):
        self.top <<= 1
        self.terms[self.top] = (e, i)
        return frozenset([self.top])

    def mul(self, a, b):
        if not a or not b:
            return self.ZERO
        if a == self.ONE or a == b:
            return b
        if b == self.ONE:
            return a
        if a == b ^ self.ONE:
            return self.ZERO
        if len(a) * len(b) > self.cap * 4:
            return self.atom()
        r = set()
        for x in a:
            for y in b:
                r ^= {x | y}
        return frozenset(r) if len(r) <= self.cap else self.atom()

    def ite(self, q, x, y):
        if x == y:
            return x
        d = x ^ y
        if d == self.ONE:
            return y ^ q
        return y ^ self.mul(q, d)

    def bev(self, e):
        ZERO, ONE, mul = self.ZERO, self.ONE, self.mul
        k = e.decl().kind()
        if k == z3.Z3_OP_TRUE:
            return [ONE]
        if k == z3.Z3_OP_FALSE:
            return [ZERO]
        c = [self.memo.get(x.get_id()) for x in e.children()]
        if k == z3.Z3_OP_NOT:
            return [c[0][0] ^ ONE]
        if k == z3.Z3_OP_XOR:
            r = ZERO
            for x in c:
                r = r ^ x[0]
            return [r]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF, z3.Z3_OP_DISTINCT) and len(c) == 2 and c[0] is not None and c[1] is not None:
            d = {x ^ y for x, y in zip(c[0], c[1]) if x != y}
            r = ONE
            if ONE in d:
                r = ZERO
            else:
                for x in d:
                    r = mul(r, x ^ ONE)
            return [r ^ ONE if k == z3.Z3_OP_DISTINCT else r]
        if k == z3.Z3_OP_AND:
            r = ONE
            for x in sorted((x[0] for x in c), key=len):
                r = mul(r, x)
            return [r]
        if k == z3.Z3_OP_OR:
            r = ONE
            for x in sorted((x[0] for x in c), key=len):
                r = mul(r, x ^ ONE)
            return [r ^ ONE]
        if k == z3.Z3_OP_ITE:
            return [self.ite(c[0][0], c[1][0], c[2][0])]
        return [self.atom(e)]

    def ev(self, e):
        ZERO, ONE, mul = self.ZERO, self.ONE, self.mul
        k = e.decl().kind()
        n = e.size()
        c = [self.memo.get(x.get_id()) for x in e.children()]
        if k == z3.Z3_OP_BNUM:
            v = e.as_long()
            return [ONE if (v >> i) & 1 else ZERO for i in range(n)]
        if k == z3.Z3_OP_BXOR:
            r = list(c[0])
            for o in c[1:]:
                r = [x ^ y for x, y in zip(r, o)]
            return r
        if k == z3.Z3_OP_BNOT:
            return [x ^ ONE for x in c[0]]
        if k == z3.Z3_OP_CONCAT:
            r = []
            for o in reversed(c):
                r += o
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            return c[0][lo:hi + 1]
        if k == z3.Z3_OP_ZERO_EXT:
            return c[0] + [ZERO] * (n - len(c[0]))
        if k == z3.Z3_OP_SIGN_EXT:
            return c[0] + [c[0][-1]] * (n - len(c[0]))
        if k == z3.Z3_OP_BAND:
            r = list(c[0])
            for o in c[1:]:
                r = [mul(x, y) for x, y in zip(r, o)]
            return r
        if k == z3.Z3_OP_BOR:
            r = list(c[0])
            for o in c[1:]:
                r = [mul(x ^ ONE, y ^ ONE) ^ ONE for x, y in zip(r, o)]
            return r
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and all(x in (ZERO, ONE) for x in c[1]):
            sft = sum(len(x) << i for i, x in enumerate(c[1]))
            if sft >= n:
                return [ZERO] * n
            return ([ZERO] * sft + c[0][:n - sft]) if k == z3.Z3_OP_BSHL else (c[0][sft:] + [ZERO] * sft)
        if k == z3.Z3_OP_ITE:
            return [self.ite(c[0][0], x, y) for x, y in zip(c[1], c[2])]
        return [self.atom(e, i) for i in range(n)]

    def bits(self, g):
        import time
        t0 = time.time()
        memo = self.memo
        st = [g]
        cnt = 0
        while st:
            e = st[-1]
            i = e.get_id()
            if i in memo:
                st.pop()
                continue
            todo = [x for x in e.children() if (z3.is_bv(x) or z3.is_bool(x)) and x.get_id() not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            cnt += 1
            if cnt > self.maxnodes or time.time() - t0 > self.budget:
                return None
            self.keep.append(e)
            memo[i] = self.bev(e) if z3.is_bool(e) else self.ev(e)
        return memo[g.get_id()]

    def bit1(self, p):
        """an affine bit as a one-bit vector, None if it is not affine"""
        r = self.canon_cache.get(p)
        if r is None:
            xs = []
            c = 0
            for m in sorted(p):
                if m == 0:
                    c = 1
                    continue
                if m & (m - 1):
                    return None
                e, i = self.terms[m]
                if e is None:
                    return None
                xs.append(z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if z3.is_bool(e) else z3.Extract(i, i, e) if e.size() > 1 else e)
            r = z3.BitVecVal(c, 1)
            for x in xs:
                r = x if z3.is_bv_value(r) and r.as_long() == 0 else r ^ x
            self.canon_cache[p] = r
            self.keep.append(r)
            self.memo[r.get_id()] = [p]
        return r

    def canon(self, e):
        """an equal term in canonical form if all its bits are affine, e itself otherwise"""
        if not (z3.is_bv(e) or z3.is_bool(e)) or e.num_args() == 0:
            return e
        b = self.bits(e)
        if b is None:
            return e
        ps = [self.bit1(p) for p in b]
        if any(p is None for p in ps):
            return e
        if z3.is_bool(e):
            r = ps[0] == 1 if not z3.is_bv_value(ps[0]) else z3.BoolVal(ps[0].as_long() == 1)
        elif all(z3.is_bv_value(p) for p in ps):
            r = z3.BitVecVal(sum(p.as_long() << i for i, p in enumerate(ps)), len(ps))
        elif all(len(p) == 1 for p in b) and len(ps) > 1 and len({self.terms[max(p)][0].get_id() if max(p) else 0 for p in b}) == 1 \
                and [self.terms[max(p)][1] for p in b] == list(range(len(b))) and self.terms[max(b[0])][0].size() == len(b):
            r = self.terms[max(b[0])][0]
        else:
            r = z3.Concat(*ps[::-1]) if len(ps) > 1 else ps[0]
        self.keep.append(r)
        self.memo[r.get_id()] = b
        return r


def gf2_valid(g):
    """True if the Boolean goal is the constant 1 as a polynomial over GF(2) of its input bits"""
    return GF2().bits(g) == [GF2.ONE]
