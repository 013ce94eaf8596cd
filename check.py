#!/usr/bin/env python3
"""check.py PROPERTY TIER: decides one property of /repo with the specification in spec/.

Builds the driver (harness/) against /repo's working tree, has it execute and record
histories of operations, and has TLC check them against the state machine of
spec/Machine.tla (see DESIGN.md).  Exit 0: the property held on everything explored;
exit 1 with a VIOLATION line: it did not; anything else: the check itself failed.
"""
import sys, os, json, subprocess, time, re, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import plan

SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
T0 = time.time()
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    pass


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def run(cmd, timeout, env=None, cwd=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, timeout=timeout, env=e, cwd=cwd, stdout=out or subprocess.PIPE,
                           stderr=subprocess.STDOUT if out is None else subprocess.PIPE)
    except subprocess.TimeoutExpired:
        return None, ''
    return p.returncode, (p.stdout or b'').decode('utf-8', 'replace')


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.dir = os.path.join(VERIF, 'build', '%s-%d' % (pid, os.getpid()))
        os.makedirs(self.dir)
        self.known = self.load_known()
        self.violations, self.knownHits = [], {}
        self.states = self.transitions = self.traces = self.events = 0
        self.mstates = self.mtransitions = 0      # of design-level models
        self.samples, self.ops, self.tags = [], {}, {}
        self.distinct = 0
        self.notes = []
        self.drivers = {}
        self.args = None      # of the driver, if it can be run again

    # -- building ---------------------------------------------------------
    def build(self, race=False):
        """driver against /repo's working tree, and the Java override"""
        if race in self.drivers:
            return self.drivers[race]
        cls = os.path.join(self.dir, 'classes')
        if not os.path.isdir(cls):
            os.makedirs(cls)
            rc, o = run(['javac', '-cp', CP, '-d', cls, os.path.join(VERIF, 'java', 'BigInt.java')], 120)
            if rc != 0:
                raise CheckError('javac: ' + o)
        src = os.path.join(self.dir, 'src')
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, 'harness'), src)
            if REPO != '/repo':
                p = os.path.join(src, 'go.mod')
                t = open(p).read().replace('=> /repo', '=> ' + REPO)
                open(p, 'w').write(t)
        exe = os.path.join(self.dir, 'driver-race' if race else 'driver')
        env = {'GOFLAGS': '-mod=mod', 'GOPROXY': 'off', 'GOTOOLCHAIN': 'local', 'GOWORK': 'off'}
        if race:
            env['CGO_ENABLED'] = '1'
        rc, o = run(['go', 'build'] + (['-race'] if race else []) + ['-o', exe, '.'], 600, env, src)
        if rc != 0:
            raise CheckError('go build: ' + o)
        self.drivers[race] = exe
        return exe

    # -- known findings ---------------------------------------------------
    def load_known(self):
        ks = []
        p = os.path.join(VERIF, 'known-findings.txt')
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                d = json.loads(line[len('finding:'):])
                if d['property'] == self.pid:
                    ks.append(d)
        return ks

    # -- running ------------------------------------------------------------
    def drive(self, args, name, race=False, timeout=600, env=None):
        exe = self.build(race)
        outf = os.path.join(self.dir, name + '.ndjson')
        pend = os.path.join(self.dir, name + '.pending')
        e = {'GOMEMLIMIT': '6GiB', 'GORACE': 'halt_on_error=0 exitcode=66'}
        e.update(env or {})
        rc, o = run([exe] + args + ['-out', outf], timeout, e)
        return rc, o, outf

    def tlc(self, spec, cfg, env, workers, timeout, extra=(), heap=None):
        meta = tempfile.mkdtemp(dir=self.dir)
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx%s' % (heap or '6g'),
               '-cp', os.path.join(self.dir, 'classes') + ':' + CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-config', cfg] + list(extra) + [spec]
        rc, o = run(cmd, timeout, env, SPEC)
        shutil.rmtree(meta, ignore_errors=True)
        if rc is None:
            raise CheckError('TLC timed out on %s' % spec)
        return rc, o

    BAD = re.compile(r'<<"BAD", (\d+), (\d+), "([^"]*)", "([^"]*)", \{([^}]*)\}, \{([^}]*)\}>>')

    def validate(self, tracefile, timeout=700, workers=2):
        """Trace validation of one file: the list of bad events."""
        rc, o = self.tlc('Trace.tla', 'Trace.cfg', {'TRACE': tracefile}, workers, timeout)
        m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', o)
        if rc != 0 or not m:
            i = o.find('Error:')
            raise CheckError('TLC failed on %s:\n%s' % (tracefile, o[i:i + 3000] if i >= 0 else o[-3000:]))
        bad = []
        flat = re.sub(r'\s+', ' ', o)
        for t, l, op, via, asp, tags in self.BAD.findall(flat):
            bad.append(dict(tr=int(t), l=int(l), op=op, via=via,
                            asp=set(re.findall(r'"([^"]*)"', asp)), tags=set(re.findall(r'"([^"]*)"', tags))))
        if flat.count('<<"BAD"') != len(bad):
            raise CheckError('unparsed BAD lines')
        return bad, int(m.group(1)), int(m.group(2))

    def validate_all(self, tracefile, keep, label, shards=None, timeout=700, confirm=None, record=True):
        lines = open(tracefile).read().splitlines()
        if not lines:
            raise CheckError('no traces: ' + label)
        n = shards or max(1, min(4, len(lines) // 40))
        parts = [lines[i::n] for i in range(n)]
        files = []
        for i, p in enumerate(parts):
            f = '%s.%d' % (tracefile, i)
            open(f, 'w').write('\n'.join(p) + '\n')
            files.append(f)
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda f: self.validate(f, timeout, max(1, NCPU // n)), files))
        nbad = 0
        seen = set()
        for p, (bad, nt, nd) in zip(parts, res):
            self.traces += nt
            self.states += nd
            self.transitions += nd - nt
            for b in bad:
                b['trace'] = p[b['tr'] - 1]
                b['line'] = parts.index(p) + n * (b['tr'] - 1)
        for line in lines:
            for ev in json.loads(line):
                self.events += 1
                self.ops[ev['o']] = self.ops.get(ev['o'], 0) + 1
                seen.add(hash((ev['o'], ev['v'], str(ev['a']), str(ev['b']), str(ev['cx']), str(ev['d']), str(ev['r']))))
        self.distinct += len(seen)
        if len(self.samples) < 3:
            tr = json.loads(lines[len(lines) // 2])
            self.samples.append(dict(suite=label, events=[{k: v for k, v in e.items() if v not in ([], 0, '')} for e in tr[-3:]]))
        kept = []
        for bad, _, _ in res:
            for b in sorted(bad, key=lambda b: len(b['trace'])):
                if not keep(b):
                    nbad += 1
                    continue
                kept.append(b)
                if record:
                    self.report(b, keep, label, confirm)
        if nbad:
            self.notes.append('%s: %d mismatches that concern other properties' % (label, nbad))
        return kept

    def report(self, b, keep, label, confirm=None):
        """a mismatch: confirm it by executing the history again"""
        if len(self.violations) >= 5:
            return
        tr = json.loads(b['trace'])[:b['l']]
        ev = tr[-1]
        sig = dict(op=b['op'], asp=sorted(b['asp']))
        for k in self.known:
            if k['op'] == b['op'] and set(k['aspects']) >= (b['asp'] & set(k['aspects'])) and b['asp'] <= set(k['aspects']) \
                    and all(ev.get(f) == v for f, v in k.get('event', {}).items()) \
                    and ('loads' not in k or any(e['o'] == 'Load' and e['b'] == k['loads'] for e in tr)):
                self.knownHits[k['id']] = k['what']
                return
        rdir = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rfile = os.path.join(rdir, '%s-%d.ndjson' % (self.pid, len(self.violations) + 1))
        open(rfile, 'w').write(json.dumps(tr) + '\n')
        ok = confirm(rfile, b) if confirm else self.confirm(rfile, b, keep)
        if not ok:
            raise CheckError('mismatch not reproduced: %s %s (%s)' % (b['op'], sorted(b['asp']), rfile))
        self.violations.append((rfile, '%s via %s: %s %s in suite %s' % (b['op'], b['via'] or '-', sorted(b['asp']), sorted(b['tags']), label)))

    def confirm(self, rfile, b, keep):
        if self.again(rfile, b, keep, 'confirm%d' % len(self.violations)):
            return True
        # It may depend on what the process did before: do all of it again.
        if not self.args:
            return False
        rc, o, outf = self.drive(self.args, 'again')
        if rc != 0:
            return False
        line = open(outf).read().splitlines()[b['line']]
        one = os.path.join(self.dir, 'again1.ndjson')
        open(one, 'w').write(line + '\n')
        bad, _, _ = self.validate(one)
        if any(c['l'] == b['l'] and keep(c) for c in bad):
            with open(rfile + '.args', 'w') as f:
                json.dump(dict(driver=self.args, history=b['line'], event=b['l']), f)
            return True
        return False

    def again(self, rfile, b, keep, name):
        """executes a history in a new process: does the mismatch happen?"""
        rc, o, outf = self.drive(['-replay', rfile, '-hang', '15'], name)
        if rc != 0:
            return False
        bad, _, _ = self.validate(outf)
        return any(c['l'] == b['l'] and keep(c) for c in bad)

    # -- stages -------------------------------------------------------------
    def traces_stage(self, suite, n, keep, secs=None, args=(), seeds=1, env=None):
        for k in range(seeds):
            name = '%s-%d' % (suite, k)
            pend = os.path.join(self.dir, name + '.pending')
            a = ['-suite', suite, '-seed', str(self.seed + 1000 * k), '-traces', str(n)] + list(args)
            if secs:
                a += ['-secs', str(secs)]
            rc, o, outf = self.drive(a, name, env=env)
            if rc != 0:
                self.crashed(a, name, rc, o, keep, suite)
                continue
            log('suite %s: recorded %d MB' % (suite, os.path.getsize(outf) >> 20))
            self.args = a
            self.validate_all(outf, keep, suite)
            self.args = None
            log('suite %s: validated; %d events so far' % (suite, self.events))

    def crashed(self, a, name, rc, o, keep, suite):
        """the process died (stack overflow, concurrent map access, ...): find the operation"""
        pend = os.path.join(self.dir, name + '.pending')
        rc2, o2, _ = self.drive(a + ['-pending', pend], name + 'p', timeout=800)
        if rc2 == 0 or not os.path.exists(pend):
            raise CheckError('driver failed (%s): %s' % (rc, o[-2000:]))
        rdir = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rfile = os.path.join(rdir, '%s-crash.ndjson' % self.pid)
        shutil.copy(pend, rfile)
        rc3, o3, _ = self.drive(['-replay', rfile], name + 'q', timeout=300)
        if rc3 == 0 or rc3 is None:
            raise CheckError('crash not reproduced: ' + o[-2000:])
        ev = json.loads(open(rfile).read())[-1]
        b = dict(op=ev['o'], via=ev['v'], asp={'panic', 'crash'}, tags=set())
        if keep(b):
            self.violations.append((rfile, '%s crashes the process: %s' % (ev['o'], o3.strip().split('\n')[0])))
        else:
            self.notes.append('%s: crash in %s concerns other properties' % (suite, ev['o']))

    def concurrent_stage(self, suite, n, keep, rounds):
        """Histories of goroutines that run at the same time: an event that differs is a violation if
        the same history agrees when it is executed alone."""
        for k in range(rounds):
            name = '%s-%d' % (suite, k)
            rc, o, outf = self.drive(['-suite', suite, '-seed', str(self.seed + 1000 * k), '-traces', str(n), '-hang', '100'], name)
            if rc != 0:
                # the process died: is that because of concurrency?
                rc2, o2, _ = self.drive(['-suite', suite, '-seed', str(self.seed + 1000 * k), '-traces', str(n),
                                         '-workers', '1', '-hang', '100'], name + 's')
                if rc2 == 0:
                    self.concurrent_violation(name, o, 'the process dies: ' + o.strip().split('\n')[0])
                else:
                    self.notes.append('%s: crash, but not because of concurrency' % suite)
                continue
            log('suite %s: recorded %d MB' % (suite, os.path.getsize(outf) >> 20))
            self.alone(outf, keep, suite, name)

    def alone(self, outf, keep, suite, name):
        """an event that differs is a violation if the same history agrees when it is executed alone"""
        kept = self.validate_all(outf, keep, suite, record=False)
        log('suite %s: validated; %d events so far' % (suite, self.events))
        seq = 0
        for b in kept[:20]:
            rfile = os.path.join(self.dir, 'conc.ndjson')
            open(rfile, 'w').write(json.dumps(json.loads(b['trace'])[:b['l']]) + '\n')
            if self.again(rfile, b, keep, 'conc'):
                seq += 1
                continue
            self.concurrent_violation(name, b['trace'], '%s: %s, but not when executed alone' % (b['op'], sorted(b['asp'])))
            break
        if seq:
            self.notes.append('%s: %d mismatches that have nothing to do with concurrency' % (suite, seq))

    def concurrent_violation(self, name, text, what):
        rdir = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rfile = os.path.join(rdir, '%s-%s.txt' % (self.pid, name))
        open(rfile, 'w').write(text + '\n')
        self.violations.append((rfile, what))

    def race_stage(self, suite, n, rounds):
        """the same under the race detector, in many new processes, whose first operations race"""
        self.build(True)
        done = 0

        def one(k):
            return self.drive(['-suite', suite, '-seed', str(self.seed + 500000 + k), '-traces', str(n), '-hang', '300'],
                              'race%d' % k, race=True, timeout=400)
        with ThreadPoolExecutor(4) as ex:
            for k, (rc, o, outf) in enumerate(ex.map(one, range(rounds))):
                if rc == 0:
                    done += 1
                    self.events += sum(len(json.loads(l)) for l in open(outf))
                elif 'DATA RACE' in o or 'concurrent map' in o:
                    if not self.violations:
                        i = o.find('WARNING: DATA RACE')
                        self.concurrent_violation('race%d' % k, o, 'data race: ' + ' '.join(o[max(i, 0):].split('\n')[:3]))
                elif rc is None:
                    raise CheckError('driver timed out under the race detector')
                elif 'fatal error' in o or 'panic' in o:
                    self.notes.append('crash under the race detector: ' + o[:300])
                else:
                    raise CheckError('driver failed (%s): %s' % (rc, o[-2000:]))
        self.notes.append('%d processes of %d histories of 8 goroutines ran under the race detector' % (done, n))
        log(self.notes[-1])

    def design_stage(self, threads, ops, every):
        """Concurrency.tla: the design of what goroutines share, all interleavings; the library executes the programs,
        each in a process of its own, under the race detector"""
        self.build()
        hist = os.path.join(self.dir, 'programs-%d-%d' % (threads, ops))
        env = dict(THREADS=str(threads), OPS=str(ops), BUG='none', EVERY=str(every), SEED=str(self.seed), HIST=hist)
        self.model_stage('Concurrency.tla', 'Concurrency.cfg', 1500, env)
        progs = sorted(json.loads(l) for l in open(hist))
        self.build(True)

        def one(k):
            f = '%s.%d' % (hist, k)
            open(f, 'w').write(progs[k] + '\n')
            return self.drive(['-together', f, '-hang', '100'], 'together%d-%d-%d' % (threads, ops, k), race=True, timeout=300)
        allf = hist + '.out'
        with ThreadPoolExecutor(NCPU) as ex, open(allf, 'w') as out:
            for k, (rc, o, outf) in enumerate(ex.map(one, range(len(progs)))):
                if rc == 0:
                    out.write(open(outf).read())
                elif rc is not None and ('DATA RACE' in o or 'concurrent map' in o or 'fatal error' in o):
                    if not self.violations:
                        i = o.find('WARNING: DATA RACE')
                        self.concurrent_violation('together%d' % k, progs[k] + '\n' + o,
                                                  'program of goroutines: ' + ' '.join(o[max(i, 0):].split('\n')[:3]))
                else:
                    raise CheckError('driver failed (%s): %s' % (rc, o[-2000:]))
                if os.path.exists(outf):
                    os.remove(outf)
        if os.path.getsize(allf):
            self.alone(allf, plan.keep(plan.ANY - {'hang'}), 'programs', 'p%d%d' % (threads, ops))
        self.notes.append('%d programs of %d goroutines ran in new processes under the race detector' % (len(progs), threads))
        log(self.notes[-1])

    def broken_design_stage(self, bugs):
        """the model finds each of these mistakes in the design"""
        for b in bugs:
            env = dict(THREADS='2', OPS='1', BUG=b, EVERY='1', SEED='1', HIST='')
            rc, o = self.tlc('Concurrency.tla', 'Concurrency.cfg', env, NCPU, 300)
            if 'is violated' not in o:
                raise CheckError('Concurrency.tla does not notice the mistake ' + b)
        self.notes.append('Concurrency.tla notices the mistakes ' + ' '.join(bugs))

    def model_stage(self, module, cfg, timeout, env=None, workers=NCPU, extra=()):
        """design-level model: TLC must find no error (it says nothing of the code)"""
        self.build()
        rc, o = self.tlc(module, cfg, env or {}, workers, timeout, extra)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', o)
        if rc != 0 or 'No error has been found' not in o or not m:
            i = o.find('Error:')
            raise CheckError('specification %s is wrong:\n%s' % (module, o[i:i + 3000] if i >= 0 else o[-3000:]))
        g, d = m[-1]
        self.mtransitions += int(g)
        self.mstates += int(d)
        log('model %s%s: %s distinct states' % (module, ' ' + env['LAW'] if env and 'LAW' in env else '', d))
        return o

    def law_stage(self, law, keep, deep, every):
        """Laws.tla: the law holds of the specification for all operands of its domain, and the library agrees
        with the specification on the histories that TLC writes for them."""
        self.build()
        hist = os.path.join(self.dir, 'law-' + law + '.hist')
        self.model_stage('Laws.tla', 'Laws.cfg', 1500, dict(LAW=law, DEEP='1' if deep else '0', SEED=str(self.seed),
                                                            EVERY=str(every), HIST=hist))
        if not os.path.exists(hist):
            raise CheckError('law %s: no histories' % law)
        self.execute([json.loads(l) for l in open(hist)], 'law-' + law, keep)

    def execute(self, lines, name, keep):
        """the library executes the histories that TLC wrote; they are judged like all others"""
        lines.sort()
        inf = os.path.join(self.dir, name + '.in')
        open(inf, 'w').write('\n'.join(lines) + '\n')
        rc, o, outf = self.drive(['-replay', inf, '-hang', '15'], name)
        if rc != 0:
            self.law_crash(lines, name, keep, o)
            return
        self.validate_all(outf, keep, name)
        log('%s: %d histories executed' % (name, len(lines)))
        self.notes.append('%s: %d histories written by TLC were executed' % (name, len(lines)))

    def walk_stage(self, keep, sim, depth, num):
        """Walk.tla: the specification runs on its own, at random (num behaviours) or exhaustively (every num-th
        history is executed)."""
        self.build()
        name = 'walk-%s-%d' % ('sim' if sim else 'all', depth)
        hist = os.path.join(self.dir, name + '.hist')
        env = dict(SIM='1' if sim else '0', DEPTH=str(depth), SEED=str(self.seed), HIST=hist)
        if sim:
            seed = self.seed * 1000 + int(self.pid[1:])
            rc, o = self.tlc('Walk.tla', 'Walk.cfg', env, 4, 1500,
                             ['-simulate', 'num=%d' % (num // 4), '-depth', str(depth + 1), '-seed', str(seed)])
            m = re.search(r'number of states generated: (\d+)', o)
            if rc != 0 or 'Error:' in o or not m:
                i = o.find('Error:')
                raise CheckError('specification Walk is wrong:\n%s' % (o[i:i + 3000] if i >= 0 else o[-3000:]))
            self.mtransitions += int(m.group(1))
            log('model Walk.tla: %s states generated' % m.group(1))
        else:
            self.model_stage('Walk.tla', 'Walk.cfg', 1500, env)
        if not os.path.exists(hist):
            raise CheckError('Walk: no histories')
        lines = [json.loads(l) for l in open(hist)]
        if sim:         # siblings differ in the last operation only: two of each
            seen, keepers = {}, []
            for l in sorted(lines):
                k = l[:l.rindex('{')]
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= 2:
                    keepers.append(l)
            lines = keepers
        else:
            lines = sorted(lines)[self.seed % num::num]
        self.execute(lines, name, keep)

    def law_crash(self, lines, law, keep, o):
        """one of the histories ends the process: find it, and its event, by bisection"""
        rdir = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rfile = os.path.join(rdir, '%s-crash.ndjson' % self.pid)

        def dies(ls):
            open(rfile, 'w').write('\n'.join(ls) + '\n')
            rc, _, _ = self.drive(['-replay', rfile, '-hang', '15'], 'lawcrash')
            return rc not in (0, None)
        while len(lines) > 1:
            h = lines[:len(lines) // 2]
            lines = h if dies(h) else lines[len(lines) // 2:]
        tr = json.loads(lines[0])
        n = next((k for k in range(1, len(tr) + 1) if dies([json.dumps(tr[:k])])), None)
        if n is None:
            raise CheckError('driver failed on the histories of %s: %s' % (law, o[-2000:]))
        b = dict(op=tr[n - 1]['o'], via=tr[n - 1]['v'], asp={'panic', 'crash'}, tags=set())
        if keep(b):
            self.violations.append((rfile, '%s crashes the process: %s' % (b['op'], o.strip().split('\n')[0])))
        else:
            self.notes.append('%s: crash in %s concerns other properties' % (law, b['op']))

    # -- result -------------------------------------------------------------
    def finish(self):
        cov = dict(states=self.states + self.mstates, transitions=self.transitions + self.mtransitions,
                   traces_validated_against_impl=self.traces, samples=self.samples,
                   events_validated=self.events, distinct_events=self.distinct, events_by_operation=self.ops,
                   design_model_states=self.mstates)
        if self.notes:
            cov['notes'] = self.notes
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=plan.ASSUMPTIONS, wall_s=round(time.time() - T0, 1), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for n in self.notes:
            log('note:', n)
        for i, w in self.knownHits.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        for r, w in self.violations:
            log(w)
            print('VIOLATION property=%s replay=%s' % (self.pid, r), flush=True)
        return 1 if self.violations else 0


def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if pid not in plan.PLAN or tier not in ('quick', 'thorough'):
        print('usage: check.py PROPERTY quick|thorough')
        return 2
    ck = Check(pid, tier)
    try:
        plan.PLAN[pid](ck, tier == 'thorough')
        rc = ck.finish()
    except CheckError as e:
        if ck.violations:      # something else failed, but what was confirmed stands
            log('check error: %s' % e)
            rc = ck.finish()
        else:
            print('CHECK-ERROR', e)
            rc = 3
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(ck.dir, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
