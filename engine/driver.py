#!/usr/bin/env python3
"""check <ID> [--tier quick|thorough] : decide property ID on /repo's current tree (see DESIGN.md)"""
import sys
import os
import re
import glob
import json
import time
import shutil
import struct
import hashlib
import tempfile
import subprocess
import traceback

import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
CON = os.path.join(VERIF, 'contracts')

CLANG = 'clang++'
OPT = 'opt'
LINK = 'llvm-link'
for c in ('opt', 'opt-18'):
    if shutil.which(c):
        OPT = c
        break
for c in ('llvm-link', 'llvm-link-18'):
    if shutil.which(c):
        LINK = c
        break


def includes():
    inc = []
    for top in ('core/lib', 'ext/lib'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            if any(f.endswith(('.hpp', '.h')) for f in fs):
                inc.append('-I' + d)
    return ['-I' + CON, '-I' + os.path.join(CON, 'gen'), '-I' + REPO] + inc


class Contract:
    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        self.prop = self.d('property', os.path.basename(path)[:3])
        self.sources = self.d('sources', '').split()
        self.native = self.d('native', '').split()
        self.noinline = self.d('noinline', '').split()
        self.opts = {}
        for o in self.d('opt', '').split():
            k, _, v = o.partition('=')
            self.opts[k] = int(v) if re.fullmatch(r'-?\d+', v) else (v or True)
        self.bounded = self.d('bounded', '').split()
        self.opaque = []
        for m in re.finditer(r'^//\s*opaque:\s*(\S+)\s+(\S+)', self.text, re.M):
            self.opaque.append((m.group(2), m.group(1)))
        self.popts = {}
        for m in re.finditer(r'^//\s*proofopt:\s*(\S+)\s+(.*)$', self.text, re.M):
            d = self.popts.setdefault(m.group(1), {})
            for o in m.group(2).split():
                k, _, v = o.partition('=')
                d[k] = int(v) if re.fullmatch(r'-?\d+', v) else (v or True)
        self.rt = 'rt' in self.d('link', '').split()

    def d(self, key, default):
        v = re.findall(r'^//\s*%s:\s*(.*)$' % key, self.text, re.M)
        return ' '.join(v) if v else default


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


class BuildError(Exception):
    pass


def build_ir(con, wd):
    """compile the harness and the repository sources it names to one LLVM module"""
    inc = includes()
    flags = ['-std=c++11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-ffp-contract=off',
             '-fPIC', '-include', os.path.join(HERE, 'noextern.h'), '-fno-access-control', '-w', '-fno-builtin-memset', '-DVP_PROOF',
             '-fno-vectorize', '-fno-slp-vectorize', '-fno-delete-null-pointer-checks', '-emit-llvm', '-c']
    srcs = [con.path] + [os.path.join(REPO, s) for s in con.sources]
    if con.rt:
        srcs.append(os.path.join(HERE, 'rt.cpp'))

    def comp(k):
        o = os.path.join(wd, 'm%d.bc' % k)
        r = sh([CLANG] + flags + inc + [srcs[k], '-o', o])
        if r.returncode:
            raise BuildError('%s does not compile:\n%s' % (srcs[k], r.stderr.decode('utf8', 'replace')[:3000]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, range(len(srcs))))
    linked = os.path.join(wd, 'linked.bc')
    r = sh([LINK] + objs + ['-o', linked])
    if r.returncode:
        raise BuildError('llvm-link: ' + r.stderr.decode('utf8', 'replace')[:2000])
    attrs = []
    # functions replaced by their contract at call sites stay out of line
    ll0 = sh(['llvm-nm' if shutil.which('llvm-nm') else 'llvm-nm-18', '--defined-only', linked]).stdout.decode()
    names = [l.split()[-1] for l in ll0.splitlines() if l.split()]
    keep = {n[len('vpstub__'):] for n in names if n.startswith('vpstub__')} | {n for n in names if n.startswith('vpstub__')}
    for n in sorted(keep):
        attrs.append('-force-attribute=%s:noinline' % n)
    import models
    for n in names:
        if models.TEXT.match(n) or models.STR.match(n) or any(re.search(rx, n) for rx, _ in con.opaque):
            if n not in keep:
                attrs.append('-force-attribute=%s:noinline' % n)
    for pat in con.noinline:
        for n in names:
            if re.fullmatch(pat, n):
                attrs.append('-force-attribute=%s:noinline' % n)
    out = os.path.join(wd, 'final.ll')
    r = sh([OPT, '-S', '-passes=forceattrs,cgscc(inline),function(sroa,early-cse,simplifycfg)'] + attrs + [linked, '-o', out])
    if r.returncode:
        raise BuildError('opt: ' + r.stderr.decode('utf8', 'replace')[:2000])
    return out


def build_native(con, wd):
    inc = includes()
    exe = os.path.join(wd, 'native_' + os.path.basename(con.path)[:-4])
    if os.path.exists(exe):
        return exe
    lib = list(con.sources)
    for x in con.native + ['core/lib/Utilities/Exception.cpp', 'core/lib/Utilities/StringUtils.cpp',
                           'core/lib/Utilities/BinUtils.cpp']:
        if x not in lib:
            lib.append(x)
    srcs = [con.path, os.path.join(HERE, 'vp_native.cpp')] + [os.path.join(REPO, s) for s in lib]
    flags = ['-std=c++11', '-O1', '-fPIC', '-ffp-contract=off', '-fno-access-control', '-w', '-fsanitize=bounds,address',
             '-fno-sanitize-recover=all', '-fsanitize-undefined-trap-on-error', '-D_GLIBCXX_ASSERTIONS']

    def comp(k):
        o = os.path.join(wd, 'n_%s_%d.o' % (os.path.basename(con.path)[:-4], k))
        r = sh(['g++'] + flags + inc + ['-c', srcs[k], '-o', o])
        if r.returncode:
            raise BuildError('%s does not compile:\n%s' % (srcs[k], r.stderr.decode('utf8', 'replace')[:2000]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, range(len(srcs))))
    # symbols of library files that are not linked in get a stand-in that reports the call (exit 5: no verdict)
    und, de = set(), set()
    for l in sh(['nm'] + objs).stdout.decode().splitlines():
        f = l.split()
        if len(f) == 2 and f[0] == 'U' and 'gpstk' in f[1]:
            und.add(f[1])
        elif len(f) == 3:
            de.add(f[2])
    und -= de
    if und:
        dm = demangle(sorted(und))
        asm = ['.text', 'vp_missing_fn: jmp vp_missing']
        data = ['.data', '.align 16']
        for n in sorted(und):
            if '(' in dm.get(n, n):
                asm += ['.globl ' + n, n + ': jmp vp_missing_fn']
            else:
                data += ['.globl ' + n, n + ': .zero 1024']
        sp = os.path.join(wd, 'dummy_%s.s' % os.path.basename(con.path)[:-4])
        with open(sp, 'w') as f:
            f.write('\n'.join(asm + data + ['.section .note.GNU-stack,"",@progbits']) + '\n')
        objs.append(sp)
    r = sh(['g++', '-rdynamic', '-no-pie', '-fsanitize=address'] + objs + ['-Wl,--unresolved-symbols=ignore-all', '-ldl', '-o', exe])
    if r.returncode:
        raise BuildError('native link: ' + r.stderr.decode('utf8', 'replace')[:2000])
    return exe


def hexval(kind, v):
    if kind == 'f':
        return '0x%016x' % struct.unpack('<Q', struct.pack('<d', float(v)))[0]
    return '0x%016x' % (int(v) & ((1 << 64) - 1))


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
        return dict(zip(names, r.stdout.decode().split('\n')))
    except Exception:
        return {n: n for n in names}


def prove(con, irtext_mod, proof, tier, sem, pair, wd, conn):
    """runs in a forked process: generate and discharge all obligations of one proof"""
    import z3
    import sym
    import solve
    import ll
    t0 = time.time()
    if os.environ.get('VP_FH'):
        import faulthandler, signal
        signal.signal(signal.SIGALRM, lambda s, f: (__import__('traceback').print_stack(f), signal.alarm(int(os.environ['VP_FH']))))
        signal.alarm(int(os.environ['VP_FH']))
    res = {'proof': proof, 'status': 'error', 'obls': [], 'failed': [], 'unknown': [], 'error': None, 'cover': []}
    try:
        m = re.match(r'vpproof__[A-Z0-9]+__(.*)__(bv|int)_(ieee|real)$', proof)
        name, im, fm = m.groups()
        opt = dict(con.opts)
        opt.update(con.popts.get(name, {}))
        opt['opaque'] = con.opaque
        eng = sym.Engine(irtext_mod, im, fm, opt)
        for n in irtext_mod.fns:
            if n.startswith('vpstub__') and irtext_mod.fns[n][1] is not None:
                eng.stubs[n[len('vpstub__'):]] = n
        if 'nostub' in opt:
            for n in list(eng.stubs):
                if re.search(str(opt['nostub']), n):
                    del eng.stubs[n]
        res['mode'] = '%s/%s' % (im, fm)
        fn = irtext_mod.fn(proof)
        st = sym.State()
        eng.opt.setdefault('tmax', 400 if tier == 'quick' else 1500)
        eng.deadline = time.time() + eng.opt['tmax']
        if opt.get('ctors'):
            eng.run_ctors(st, str(opt['ctors']))
        outs = eng.exec_fn(st, fn, [])
        for s, kind, v in outs:
            if kind == 'throw':
                eng.oblige(s, 'no exception %s escapes' % demangle([v[1][4:]]).get(v[1][4:], v[1]), 0, 'ensures')
        res['gen_s'] = time.time() - t0
        res['inlined'] = sorted(eng.fn_seen)
        res['stubs'] = dict(eng.stats['stubs'])
        res['opaque'] = dict(eng.stats['opaque'])
        res['ins'] = eng.stats['ins']
        anys = eng.anys
        back = solve.Back(wd)
        tmo = opt.get('timeout', 20) * (1 if tier == 'quick' else 4)
        seen = {}
        todo = []
        covers = {}
        trivial = 0
        for o in eng.obls:
            if o.kind == 'cover':
                covers.setdefault(o.name, []).append(o)
                continue
            if o.kind in ('ensures', 'requires') and not o.name.startswith('no exception'):
                covers.setdefault(o.name, []).append(o)
            if isinstance(o.goal, int) and o.goal:
                trivial += 1
                continue
            g = z3.BoolVal(False) if isinstance(o.goal, int) else o.goal
            key = (tuple(sorted(c.get_id() for c in o.pc)), g.get_id())
            if key in seen:
                continue
            seen[key] = o
            todo.append((o, g))
        # split conjunctive goals
        work = []
        for o, g in todo:
            if z3.is_and(g) and o.kind == 'ensures':
                for c in g.children():
                    work.append((o, c))
            else:
                work.append((o, g))
        pri = [0]
        solver_s = {}
        stats = {}
        lock = mp.Lock()
        names = {}
        for nm, a in anys.items():
            if a[0] in 'ibf' and not isinstance(a[1], int):
                names[nm] = a
        # serialise all queries in this thread (z3 is not thread safe)
        qs = []
        for k, (o, g) in enumerate(work):
            if im == 'bv' and solve.gf2_valid(g):
                qs.append((o, None, None, [], 'affine over GF(2)'))
                continue
            ng = z3.simplify(z3.Not(g))
            if z3.is_false(ng):
                qs.append((o, None, None, [], None))
                continue
            fs = list(o.pc) + [ng]
            if im == 'bv' and not opt.get('nosweep'):
                fs = solve.bvsweep(fs, eng.dom.cvn)
                if any(z3.is_false(f) for f in fs):
                    qs.append((o, None, None, [], None))
                    continue
            ax = solve.relevant_axioms(fs, eng.axioms)
            s = z3.Solver()
            for f in ax + fs:
                s.add(f)
            full = s.to_smt2()
            ab = None
            pre = opt.get('prepass')
            if solve.has_fp(ax + fs) and not opt.get('noabs'):
                s2 = z3.Solver()
                try:
                    for f in solve.abstract_fp(ax + fs):
                        s2.add(f)
                    ab = s2.to_smt2()
                except z3.Z3Exception:
                    ab = None
            pu = None
            if im == 'int':
                try:
                    pf = solve.purify_int(ax + fs)
                    if pf is not None:
                        s2 = z3.Solver()
                        for f in pf:
                            s2.add(f)
                        pu = s2.to_smt2()
                except (z3.Z3Exception, ValueError):
                    pu = None
            occ = set(re.findall(r'[^\s()|]+', full))
            want = ['|%s|' % n if re.search(r'[^\w.]', n) else n for n in names if n in occ or re.search(r'[^\w.]', n) and ('|%s|' % n) in full]
            qs.append((o, full, ab, want, pu))
        def real_poly(full):
            return None

        def decide(q):
            o, full, ab, want, pu = q
            if full is None:
                return ('unsat', '', pu or 'simplifier', 0.0)
            tot = 0.0
            if ab is not None:
                with sem:
                    r, mt, s, dt = back.solve(ab, min(5, tmo), (), ('z3-new',))
                tot += dt
                if r == 'unsat':
                    return (r, '', s + '+fp-abstraction', tot)
            with sem:
                r, mt, s, dt = back.solve(full, min(2, tmo), want, ('z3-new',))
            tot += dt
            if r == 'unknown' and pu is not None:
                with sem:
                    r, mt, s, dt = back.solve(pu, min(8, tmo), (), ('z3-new', 'cvc5'))
                tot += dt
                if r == 'unsat':
                    return (r, '', s + '+purified', tot)
                r = 'unknown'
            if r == 'unknown' and tmo > 2:
                sol = tuple(str(opt.get('solvers', 'z3-new,cvc5,z3')).split(','))
                with pair:                      # two permits at once, one claimant at a time
                    sem.acquire()
                    sem.acquire()
                try:
                    r, mt, s, dt = back.solve(full, tmo, want, sol)
                finally:
                    sem.release()
                    sem.release()
                tot += dt
            return (r, mt, s, tot)
        nviol = 0
        with ThreadPoolExecutor(12) as ex:
            for q, (r, mt, s, dt) in zip(qs, ex.map(decide, qs)):
                o = q[0]
                solver_s[s or 'none'] = solver_s.get(s or 'none', 0) + dt
                stats[s or 'undecided'] = stats.get(s or 'undecided', 0) + 1
                if r == 'unsat':
                    continue
                ent = {'name': o.name, 'kind': o.kind, 'where': o.where, 'result': r}
                if r == 'sat':
                    mv = solve.model_values(mt, names)
                    ent['model'] = {n: hexval(names[n][0], mv[n]) for n in mv if n in names and mv[n] is not None}
                    ent['modeltext'] = mt[:20000]
                    res['failed'].append(ent)
                else:
                    if os.environ.get('VP_DUMP'):
                        open('/tmp/vp_unknown_%s_%d.smt2' % (name, len(res['unknown'])), 'w').write(q[1])
                    res['unknown'].append(ent)
        # vacuity: each postcondition must be reachable
        nocover = []
        for nm, os_ in covers.items():
            ok = False
            for o in sorted(os_, key=lambda o: len(o.pc))[:3]:
                fs = list(o.pc)
                ax = solve.relevant_axioms(fs, eng.axioms)
                s = z3.Solver()
                s.set('timeout', 1500)
                for f in ax + fs:
                    s.add(f)
                r = s.check()
                if r == z3.sat:
                    ok = True
                    break
                if r == z3.unknown:
                    ok = 'unknown'
                    break
            if not ok:
                nocover.append(nm)
            res['cover'].append((nm, ok))
        trivial += eng.stats['inline_ub']
        if eng.stats['inline']:
            stats['z3 (path solver)'] = eng.stats['inline']
        if eng.stats['gf2']:
            stats['affine over GF(2)'] = eng.stats['gf2']
            trivial += eng.stats['gf2']
        res['nobl'] = len(work) + trivial
        res['trivial'] = trivial
        res['ndis'] = res['nobl'] - len(res['failed']) - len(res['unknown'])
        res['by'] = stats
        res['solver_s'] = solver_s
        res['exact'] = fm == 'ieee' and not any(k.startswith('libm') for k in res['opaque']) and not eng.dom.ufs
        res['kinds'] = {}
        for o, g in work:
            res['kinds'][o.kind] = res['kinds'].get(o.kind, 0) + 1
        nens = sum(1 for o in eng.obls if o.kind in ('ensures',))
        if nens == 0 or nocover:
            res['status'] = 'vacuous'
            res['error'] = 'vacuous: ' + (', '.join(nocover) or 'no postcondition reached')
        else:
            res['status'] = 'failed' if res['failed'] else 'unknown' if res['unknown'] else 'proved'
    except (ll.Unsupported, sym.Loop, sym.TooLong) as e:
        res['status'] = 'unsupported'
        res['error'] = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VP_TB'):
            traceback.print_exc()
    except Exception as e:
        res['status'] = 'unsupported'
        res['error'] = 'engine error: %s: %s' % (type(e).__name__, e)
        if os.environ.get('VP_TB'):
            traceback.print_exc()
    res['wall'] = time.time() - t0
    conn.send(res)
    conn.close()


def run_native(exe, proof, mode, arg, secs=10, out='', timeout=None):
    cmd = [exe, proof, mode] + ([arg] if mode == 'replay' else [str(arg), str(secs), out])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout or secs + 60,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:'
                                    'handle_sigill=0:handle_sigbus=0:abort_on_error=1:alloc_dealloc_mismatch=0:'
                                    'new_delete_type_mismatch=0:detect_odr_violation=0:allocator_may_return_null=1:'
                                    'detect_stack_use_after_return=0:use_sigaltstack=0'),
                           cwd=os.path.dirname(exe))
        return r.returncode, r.stdout.decode('utf8', 'replace').strip()
    except subprocess.TimeoutExpired:
        return 4, 'timeout'


def load_known():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) proof=(\S+) obligation="([^"]*)"\s*(.*)', l)
            if m:
                out.append(m.groups())
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--native', action='store_true', help='always run the native search too')
    ap.add_argument('--keep')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    cons = [Contract(p) for p in sorted(glob.glob(os.path.join(CON, '*.cpp')))]
    cons = [c for c in cons if a.id in c.prop.split()]
    if not cons:
        print('no contracts for', a.id)
        sys.exit(2)
    wd = a.keep or tempfile.mkdtemp(prefix='vp_%s_' % a.id)
    os.makedirs(wd, exist_ok=True)
    code = 2
    try:
        code = check(a, cons, wd, seed, t0)
    finally:
        if not a.keep:
            shutil.rmtree(wd, ignore_errors=True)
    sys.exit(code)


def check(a, cons, wd, seed, t0):
    import ll
    sem = mp.Semaphore(10)
    pair = mp.Lock()
    budget = 560 if a.tier == 'quick' else 6000
    results = []
    builds = {}

    def bld(k):
        d = os.path.join(wd, 'c%d' % k)
        os.makedirs(d, exist_ok=True)
        try:
            return build_ir(cons[k], d)
        except BuildError as e:
            return e
    with ThreadPoolExecutor(4) as ex:
        irs = list(ex.map(bld, range(len(cons))))
    tb = time.time() - t0
    jobs = []
    builderr = []
    for k, con in enumerate(cons):
        if isinstance(irs[k], Exception):
            builderr.append(str(irs[k]))
            # the bounded stand-in is all that can still be run
            for m in re.finditer(r'void\s+(vpproof__%s__\w+)\s*\(' % a.id, con.text):
                results.append((con, {'proof': m.group(1), 'status': 'unsupported', 'error': str(irs[k]), 'failed': [],
                                      'unknown': []}))
            continue
        try:
            mod = ll.Module(open(irs[k]).read())
        except Exception as e:
            for m in re.finditer(r'void\s+(vpproof__%s__\w+)\s*\(' % a.id, con.text):
                results.append((con, {'proof': m.group(1), 'status': 'unsupported', 'error': 'IR not understood: %r' % e, 'failed': [],
                                      'unknown': []}))
            continue
        for n in mod.fns:
            if n.startswith('vpproof__%s__' % a.id) and mod.fns[n][1] is not None:
                if a.only and not re.search(a.only, n):
                    continue
                if any('__%s__' % b in n for b in con.bounded):
                    results.append((con, {'proof': n, 'status': 'unsupported', 'error': 'bounded by design, beyond the verifier', 'failed': [],
                                          'unknown': []}))
                    continue
                jobs.append((con, mod, n))
    ctx = mp.get_context('fork')
    pend = list(jobs)
    run = []
    maxp = 6
    while pend or run:
        while pend and len(run) < maxp:
            con, mod, n = pend.pop(0)
            rc, wc = ctx.Pipe(False)
            p = ctx.Process(target=prove, args=(con, mod, n, a.tier, sem, pair, wd, wc))
            p.start()
            wc.close()
            run.append((p, rc, con, n))
        still = []
        for p, rc, con, n in run:
            if rc.poll(0.05):
                try:
                    r = rc.recv()
                except EOFError:
                    r = {'proof': n, 'status': 'unsupported', 'error': 'verifier process died', 'failed': [], 'unknown': []}
                p.join()
                results.append((con, r))
                if a.v:
                    print('  %-60s %-11s obl=%s dis=%s %s %.1fs %s' % (
                        n, r['status'], r.get('nobl'), r.get('ndis'), r.get('by'), r.get('wall', 0), r.get('error') or ''))
                    for f in r['failed'][:10]:
                        print('      FAILED ', f['kind'], f['name'], 'in', f['where'], f.get('model'))
                    for f in r['unknown'][:10]:
                        print('      UNKNOWN', f['kind'], f['name'], 'in', f['where'])
                    sys.stdout.flush()
            elif time.time() - t0 > budget:
                p.kill()
                p.join()
                results.append((con, {'proof': n, 'status': 'unknown', 'error': 'time budget of the check used up',
                                      'failed': [], 'unknown': []}))
            else:
                still.append((p, rc, con, n))
        run = still
        if time.time() - t0 > budget:
            for con, mod, n in pend:
                results.append((con, {'proof': n, 'status': 'unknown', 'error': 'time budget of the check used up',
                                      'failed': [], 'unknown': []}))
            pend = []
    return report(a, cons, results, wd, seed, t0, tb)


def report(a, cons, results, wd, seed, t0, tb):
    known = load_known()
    viol = []
    bounded = []
    knownhit = []
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    native_err = []
    nat_runs = []
    nbad = sum(1 for _, r in results if r['status'] != 'proved' and not str(r['error']).startswith('bounded by design')) or 1
    bsecs = max(4, min(25, 200 // nbad)) if a.tier == 'quick' else 120
    for con, r in results:
        if r['status'] == 'proved' and not (a.native or a.tier == 'thorough'):
            continue
        try:
            exe = build_native(con, wd)
        except (BuildError, subprocess.TimeoutExpired) as e:
            exe = None
            native_err.append(str(e))
            print('native build failed: ' + str(e)[:600], file=sys.stderr)
        proof = r['proof']
        found = None
        short = re.sub(r'^vpproof__%s__|__(bv|int)_(ieee|real)$' % a.id, '', proof)

        def is_known(nm):
            return [k for k in known if k[0] == a.id and k[1] in (proof, short) and k[2] == nm]
        suspects = sorted(r['failed'], key=lambda f: bool(is_known(f['name'])))
        if exe:
            for f in suspects:
                rp = os.path.join(rdir, '%s_%s.txt' % (a.id, re.sub(r'\W', '_', proof)[:80]))
                with open(rp, 'w') as fh:
                    fh.write('# property %s\n# proof %s\n# obligation %s (%s) in %s\n' % (
                        a.id, proof, f['name'], f['kind'], f['where']))
                    for k, v in f.get('model', {}).items():
                        fh.write('%s %s\n' % (k, v))
                    fh.write('# verifier model:\n' + ''.join('# ' + l + '\n' for l in f.get('modeltext', '').split('\n')))
                rc, out = run_native(exe, proof, 'replay', rp, timeout=30)
                if rc == 3:
                    found = (rp, f, out)
                    break
            if not found:
                secs = bsecs if r['status'] != 'proved' else 10 if a.tier == 'quick' else 20
                if a.tier == 'quick' and str(r.get('error')).startswith('bounded by design'):
                    secs = min(secs, 8)
                rp = os.path.join(rdir, '%s_%s_random.txt' % (a.id, re.sub(r'\W', '_', proof)[:80]))
                outs = []
                with ThreadPoolExecutor(4) as ex:
                    fs = [ex.submit(run_native, exe, proof, 'random', seed * 1000 + j, secs, rp + '.%d' % j) for j in range(4)]
                    outs = [f.result() for f in fs]
                for j, (rc, out) in enumerate(outs):
                    if rc == 3 and os.path.exists(rp + '.%d' % j):
                        os.replace(rp + '.%d' % j, rp)
                        nm = out.replace('VIOLATED ', '').split('\n')[0]
                        found = (rp, {'name': nm, 'kind': 'native', 'where': proof}, out)
                        break
                for j in range(4):
                    if os.path.exists(rp + '.%d' % j):
                        os.unlink(rp + '.%d' % j)
                nat_runs.append({'proof': proof, 'results': [o for _, o in outs]})
        if found:
            nm = found[1]['name']
            onm = found[2].replace('VIOLATED ', '').split('\n')[0]
            if is_known(onm):
                knownhit.append((onm, is_known(onm)[0][3]))
                # any other failed obligation is still reported
                others = [f for f in r['failed'] if not is_known(f['name']) and f['name'] != onm]
                if others and r.get('exact'):
                    viol.append((proof, others[0], write_nofail(rdir, a.id, proof, others[0]), True))
                continue
            viol.append((proof, found[1], found[0], False, found[2]))
        elif r['status'] == 'failed':
            fl = [f for f in r['failed'] if not is_known(f['name'])]
            for f in r['failed']:
                for k in is_known(f['name']):
                    knownhit.append((f['name'], k[3]))
            if not fl:
                continue
            # the compiler may speculate these operations: a failure that does not reproduce is not evidence
            hard = [f for f in fl if f['name'] not in ('no-signed-overflow', 'float-to-int-in-range')]
            if hard and r.get('exact'):
                fl = hard
                viol.append((proof, fl[0], write_nofail(rdir, a.id, proof, fl[0]), True))
            else:
                bounded.append((proof, 'obligation not discharged (counterexample uses uninterpreted or real arithmetic '
                                'and does not reproduce): ' + fl[0]['name']))
        elif r['status'] != 'proved':
            bounded.append((proof, r['error'] or 'undecided within the time limit: ' + ', '.join(
                sorted({u['name'] for u in r['unknown']}))[:300]))
    for nm, txt in dict.fromkeys(knownhit):
        print('KNOWN-FINDING: property=%s %s: %s' % (a.id, nm, txt))
    seen = set()
    for v in viol:
        proof, f, path, nof = v[:4]
        print('  failed obligation: %s [%s] in %s' % (f['name'], f['kind'], f['where']))
        if not nof:
            print('  replayed on the real code: %s' % v[4].split('\n')[0])
        rel = os.path.relpath(path, VERIF)
        print('VIOLATION property=%s replay=%s%s' % (a.id, rel, ' no-failing-input-found' if nof else ''))
    for proof, why in bounded:
        print('BOUNDED property=%s proof=%s not discharged; only a bounded native search ran (%s)' % (a.id, proof, why.split('\n')[0][:300]))
    evidence(a, cons, results, viol, bounded, nat_runs, seed, t0, tb, list(dict.fromkeys(knownhit)))
    nob = sum(r.get('nobl', 0) for _, r in results)
    nd = sum(r.get('ndis', 0) for _, r in results)
    if not viol:
        print('%s: %d proofs, %d obligations, %d discharged, %.1f s' % (a.id, len(results), nob, nd, time.time() - t0))
    return 1 if viol else 0


def write_nofail(rdir, pid, proof, f):
    p = os.path.join(rdir, '%s_%s_obligation.txt' % (pid, re.sub(r'\W', '_', proof)[:80]))
    with open(p, 'w') as fh:
        fh.write('property %s\nproof %s\nfailed obligation %s (%s)\nat %s\nverifier result: %s\n\n%s\n' % (
            pid, proof, f['name'], f['kind'], f['where'], f.get('result'), f.get('modeltext', '')))
    return p


TRUST = ['clang 18 front end and the LLVM passes inline/sroa/early-cse/simplifycfg used to obtain the verified IR from '
         '/repo sources', 'the VC generator /verif/engine (ll.py, sym.py, dom.py, models.py)',
         'SMT solvers z3 4.8.12 / z3 5 / cvc5 1.1.2', 'contracts of the C++ runtime, libc and libm in engine/models.py',
         'g++ compiles the sources to the same semantics clang gives them (replay is compiled with g++)']


def evidence(a, cons, results, viol, bounded, nat_runs, seed, t0, tb, knownhit=()):
    fns, stubs, opq, secs, by = set(), {}, {}, {}, {}
    for _, r in results:
        fns |= set(r.get('inlined', []))
        for k, v in r.get('stubs', {}).items():
            stubs[k] = stubs.get(k, 0) + v
        for k, v in r.get('opaque', {}).items():
            opq[k] = opq.get(k, 0) + v
        for k, v in r.get('solver_s', {}).items():
            secs[k] = round(secs.get(k, 0) + v, 2)
        for k, v in r.get('by', {}).items():
            by[k] = by.get(k, 0) + v
    dm = demangle(sorted(fns | set(stubs)))
    real = sorted(dm[f] for f in fns if not f.startswith(('vpproof__', 'vpstub__')) and 'gpstk' in dm[f])
    nob = sum(r.get('nobl', 0) for _, r in results)
    nd = sum(r.get('ndis', 0) for _, r in results)
    modes = {r.get('mode') for _, r in results if r.get('mode')}
    asm = []
    if any(m and m.endswith('real') for m in modes):
        asm.append('proofs in mode */real treat double arithmetic as mathematical real arithmetic (no rounding, no '
                   'overflow, no NaN) and libm functions as uninterpreted functions')
    if any(k.startswith('libm') for k in opq):
        asm.append('libm functions used: ' + ', '.join(sorted(k for k in opq if k.startswith('libm'))))
    if 'text formatting' in opq:
        asm.append('text built by iostreams and gpstk::Exception messages is abstracted (never part of a contract); '
                   'formatting is assumed not to throw and not to touch other state')
    for c in cons:
        for m in re.finditer(r'^//\s*assumption:\s*(.*)$', c.text, re.M):
            asm.append(m.group(1))
    for rx, in [(k,) for k in opq if not k.startswith('libm') and k != 'text formatting']:
        asm.append('opaque external function: ' + dm.get(rx, rx))
    lvl = 'proof'
    ev = {'property': a.id, 'tier': a.tier, 'seed': seed, 'level': lvl,
          'coverage': {
              'obligations': nob, 'discharged': nd,
              'checker_cmd': './check %s --tier %s' % (a.id, a.tier),
              'trusted_base': TRUST,
              'proofs': [{'name': r['proof'], 'status': r['status'], 'mode': r.get('mode'),
                          'obligations': r.get('nobl', 0), 'discharged': r.get('ndis', 0),
                          'by_kind': r.get('kinds'), 'reached_postconditions': len(r.get('cover', [])),
                          'reachability': {n: str(ok) for n, ok in r.get('cover', [])},
                          'ir_instructions': r.get('ins'), 'wall_s': round(r.get('wall', 0), 2),
                          'error': r.get('error')} for _, r in results],
              'functions_under_contract_checked_in_body': real,
              'callee_contracts_used': {dm.get(k, k): v for k, v in stubs.items()},
              'obligations_by_back_end': by, 'solver_seconds': secs,
              'opaque': {dm.get(k, k): v for k, v in opq.items()},
              'bounded_not_proved': [{'proof': p, 'why': w} for p, w in bounded],
              'native_runs': nat_runs, 'known_findings': [{'obligation': n, 'what': t} for n, t in knownhit], 'build_s': round(tb, 2)},
          'assumptions': asm, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
