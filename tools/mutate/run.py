#!/usr/bin/env python3
"""Mutation analysis of the checks (a development tool, not a check).

run.py MUTANTS.ndjson REPO OUT.ndjson [-n COUNT] [-j JOBS] [-s SEED]

Every mutant of REPO (a scratch copy) is executed by all suites with the seed of the quick tier.
Histories that differ from those of the unchanged library are validated by TLC: the mutant is
killed if one of them has a mismatch that the suite's property keeps.
"""
import sys, os, json, subprocess, random, shutil, tempfile, argparse, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
import plan, check

ap = argparse.ArgumentParser()
ap.add_argument('mutants'); ap.add_argument('repo'); ap.add_argument('out')
ap.add_argument('-n', type=int, default=100); ap.add_argument('-j', type=int, default=6)
ap.add_argument('-s', type=int, default=1); ap.add_argument('-f', default='')
A = ap.parse_args()

class Rec:
    def __init__(self): self.st = []
    def traces_stage(self, name, n, keep, **kw): self.st.append((name, n, keep))
    def law_stage(self, *a): pass
    def walk_stage(self, *a): pass
    def model_stage(self, *a): pass
suites = []      # (property, suite, n, keep)
for p in sorted(plan.PLAN):
    if p == 'P19': continue
    r = Rec(); plan.PLAN[p](r, False)
    for s in r.st: suites.append((p,) + s)
W = tempfile.mkdtemp(prefix='mut', dir='/tmp')
check.REPO = A.repo
ck = check.Check('P01', 'quick'); ck.dir = os.path.join(W, 'ck'); os.makedirs(ck.dir)
ck.known = []
exe = ck.build()
ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOMAXPROCS='2', GOMEMLIMIT='2GiB')

def drive(exe, suite, n, out):
    try:
        p = subprocess.run([exe, '-suite', suite, '-seed', '1', '-traces', str(n), '-hang', '6', '-out', out],
                           env=ENV, timeout=200, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.returncode
    except subprocess.TimeoutExpired:
        return None

base = {}
def mkbase(s):
    p, name, n, k = s
    f = os.path.join(W, 'base-%s-%s' % (p, name)); assert drive(exe, name, n, f) == 0
    return (p, name), [hash(l) for l in open(f)]
with ThreadPoolExecutor(A.j) as ex:
    for k, v in ex.map(mkbase, suites): base[k] = v
print('baseline recorded', flush=True)

ORDER = {'misc/misc.go': ['P29', 'P27', 'P09', 'P17'], 'math/math.go': ['P29', 'P22'], 'sql/postgres/decimal.go': ['P24'],
         'scan.go': ['P11', 'P10'], 'format.go': ['P12', 'P10'], 'decomposer.go': ['P14'], 'binary_spliting.go': ['P22', 'P20'],
         'continued_frac.go': ['P22'], 'context.go': ['P07', 'P26']}
def one(i, m):
    d = os.path.join(W, 'm%d' % i); os.makedirs(d)
    try:
        src = open(os.path.join(A.repo, m['File']), 'rb').read()
        mf = os.path.join(d, 'x.go'); open(mf, 'wb').write(src[:m['From']] + m['New'].encode() + src[m['To']:])
        ov = os.path.join(d, 'ov.json')
        json.dump({'Replace': {os.path.join(A.repo, m['File']): mf}}, open(ov, 'w'))
        e = os.path.join(d, 'driver')
        p = subprocess.run(['go', 'build', '-overlay', ov, '-o', e, '.'], cwd=os.path.join(ck.dir, 'src'), env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: return dict(m, res='nobuild')
        first = ORDER.get(m['File'], [])
        rest = [s for s in suites if s[0] not in first]
        random.Random(i).shuffle(rest)
        todo = sorted([s for s in suites if s[0] in first], key=lambda s: first.index(s[0])) + rest
        differs = []
        for p, name, n, keep in todo:
            f = os.path.join(d, 'out')
            rc = drive(e, name, n, f)
            if rc is None: return dict(m, res='killed', by=p, how='timeout')
            if rc != 0: return dict(m, res='killed', by=p, how='crash')
            b = base[p, name]
            diff, cnt = [], 0
            with open(f) as fh:
                for j, l in enumerate(fh):
                    if j >= len(b) or hash(l) != b[j]:
                        cnt += 1
                        if len(diff) < 25: diff.append(l)
            if not cnt: continue
            g = os.path.join(d, 'diff.ndjson'); open(g, 'w').writelines(diff)
            bad, _, _ = ck.validate(g, 300, 2)
            kept = [x for x in bad if keep(x)]
            if kept: return dict(m, res='killed', by=p, how='%s %s' % (kept[0]['op'], sorted(kept[0]['asp'])), ndiff=cnt)
            differs.append((p, name, cnt, [(x['op'], sorted(x['asp'])) for x in bad[:2]]))
        return dict(m, res='differs' if differs else 'survived', differs=differs)
    except Exception as ex:
        return dict(m, res='error', how=repr(ex)[:500])
    finally:
        shutil.rmtree(d, ignore_errors=True)

ms = [json.loads(l) for l in open(A.mutants)]
if A.f: ms = [m for m in ms if m['File'] in A.f.split(',')]
random.Random(A.s).shuffle(ms)
ms = ms[:A.n]
lock = threading.Lock(); cnt = {}
with open(A.out, 'a') as out, ThreadPoolExecutor(A.j) as ex:
    def go(im):
        r = one(*im)
        with lock:
            cnt[r['res']] = cnt.get(r['res'], 0) + 1
            out.write(json.dumps(r) + '\n'); out.flush()
            if r['res'] not in ('killed', 'nobuild'):
                print(r['res'], r['File'], r['Line'], r['What'][:100], r.get('how', r.get('differs')), flush=True)
    list(ex.map(go, enumerate(ms)))
print(cnt)
shutil.rmtree(W, ignore_errors=True)
