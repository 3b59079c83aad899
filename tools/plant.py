#!/usr/bin/env python3
"""plant.py FILE [bid...]: FILE calls plant(bid, prop, [[file, old, new], ...], needs, breaks, demo_cpp).
Makes /verif/seeded/<bid> and confirms in a scratch copy bind-mounted over /repo (own mount namespace): the demo passes
without the change, the change builds, passes the stable tests, fails the demo; then runs the property's check on it."""
import sys, os, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
JOBS = []
def plant(bid, prop, edits, needs, breaks, demo):
    JOBS.append((bid, prop, edits, needs, breaks, demo))
SCRIPT = r'''
mount --bind "$1" /repo || exit 99
cd /repo
bash "$2/demo.sh" >"$3/demo0.log" 2>&1; echo "demo0=$?"
git apply "$2/patch.diff" || { echo applyfail; exit 0; }
bash /opt/vp/test.sh "$3/t.json" >"$3/t.log" 2>&1; echo "test=$?"
cd /repo; bash "$2/demo.sh" >"$3/demo1.log" 2>&1; echo "demo1=$?"
cd /verif; ./check "$4" > "$3/check.log" 2>&1; echo "check=$?"
'''
def one(j):
    bid, prop, edits, needs, breaks, demo = j
    d = os.path.join(V, 'seeded', bid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='plant_')
    try:
        w = os.path.join(tmp, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', w])
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p, encoding='latin-1').read()
            assert s.count(old) == 1, (bid, f, old, s.count(old))
            open(p, 'w', encoding='latin-1').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w, 'diff'])
        subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
        shutil.copy(os.path.join(V, 'tools', 'demo.sh'), os.path.join(d, 'demo.sh'))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', SCRIPT, 'x', w, d, tmp, prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode()
        res = dict(l.split('=') for l in out.split() if '=' in l)
        base = json.load(open('/opt/vp/BASELINE.json'))
        want = set(base['stable'] if 'stable' in base else base['passed'])
        miss = ['no result']
        try:
            t = json.load(open(os.path.join(tmp, 't.json')))
            miss = sorted(want - set(t['passed']))
        except Exception as e:
            pass
        chk = ''
        try:
            chk = open(os.path.join(tmp, 'check.log')).read().strip().split('\n')
        except Exception:
            pass
        counts = res.get('demo0') == '0' and res.get('demo1') not in ('0', None) and not miss
        msg = '%s %s counts=%s caught=%s %s%s\n' % (bid, prop, counts, res.get('check') == '1', res, (' TESTS CATCH: ' + ', '.join(miss[:4])) if miss else '')
        if res.get('demo0') != '0':
            msg += open(os.path.join(tmp, 'demo0.log')).read()[-1500:] + '\n'
        msg += '\n'.join('    ' + l for l in chk[-5:]) if chk else out[-500:]
        print(msg, flush=True)
        if not counts:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__':
    src = open(sys.argv[1]).read()
    exec(compile(src, sys.argv[1], 'exec'), {'plant': plant})
    sel = sys.argv[2:]
    jobs = [j for j in JOBS if not sel or j[0] in sel]
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, jobs))
