#!/usr/bin/env python3
"""corrupt.py [SUITE ...]: does trace validation notice falsified observations?

Records histories of the real library, changes one thing that the library is recorded to have
done in an event of each (a digit, an exponent, a sign, a class, a condition, a field of the
Context, a returned number or text, a panic, a changed register that wasn't reported), and
counts how often TLC rejects that event.  Those that it accepts are printed: they have to be
things that the specification leaves open."""
import sys, os, json, random, collections, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
import check

BIG1 = [1, 1]


def inc(c):                      # a big integer, plus one (or one)
    s, m = c[0], c[1:]
    v = s * sum(l * 10000 ** i for i, l in enumerate(m)) + 1
    s, v = (v > 0) - (v < 0), abs(v)
    m = []
    while v:
        m.append(v % 10000)
        v //= 10000
    return [s] + m


def corrupt(ev, regs, rnd):
    """changes ev; says how, or nothing"""
    how = []
    for j, r in ev['d']:
        how += [('c', r), ('e', r), ('s', r), ('k', r), ('q', r), ('P', r), ('R', r), ('lo', r), ('pr', r), ('drop', j)]
    if ev['r']:
        how += [('r', None)] * 2
    if ev['rb']:
        how.append(('rb', None))
    if ev['rs']:
        how += [('rs', None)] * 2
    how += [('pn', None), ('other', None), ('ar', None)]
    h, r = rnd.choice(how)
    if h == 'c':
        if r['k'] != 0:
            return None
        r['c'] = inc(r['c'])
    elif h == 'e':
        r['e'] += 1
    elif h == 's':
        r['s'] ^= 1
    elif h == 'k':
        r['k'] = (r['k'] + 1) % 4
    elif h == 'q':
        r['q'] ^= 1 << rnd.choice([0, 3, 4, 5, 10, 11, 12])
    elif h in ('P', 'R', 'lo', 'pr'):
        r[h] += 1
    elif h == 'drop':
        ev['d'] = [x for x in ev['d'] if x[0] != r]
    elif h == 'r':
        ev['r'][rnd.randrange(len(ev['r']))] += 1
    elif h == 'rb':
        i = rnd.randrange(len(ev['rb']))
        ev['rb'][i] = inc(ev['rb'][i])
    elif h == 'rs':
        i = rnd.randrange(len(ev['rs']))
        s = ev['rs'][i]
        ev['rs'][i] = s[:-1] if s else [48]
    elif h == 'pn':
        ev['pn'] = 1 - min(1, ev.get('pn') or 0)
    elif h == 'ar':
        ev['ar'] = 1
    else:
        j = rnd.choice([i for i in regs if i not in (ev['z'], ev['u'])] or [0])
        if not j:
            return None
        r = json.loads(json.dumps(regs[j]))
        r['e'] += 1
        r['q'] ^= 1
        ev['d'] = [x for x in ev['d'] if x[0] != j] + [[j, r]]
        ev['d'].sort()
    return h


def main():
    ck = check.Check('P01', 'quick')
    ck.build()
    tot, acc, ex = collections.Counter(), collections.Counter(), {}
    for suite in sys.argv[1:] or ['P01', 'P05', 'P07', 'P11', 'P13', 'P14', 'P20', 'P24', 'P27']:
        rnd = random.Random(suite)
        rc, o, f = ck.drive(['-suite', suite, '-seed', '77', '-traces', '400'], 'co')
        lines, want = [], []
        for l in open(f):
            tr, regs = json.loads(l), {}
            cand = [i for i, e in enumerate(tr) if e['o'] not in ('Load', 'SetCtx')]
            if not cand:
                continue
            n = rnd.choice(cand)
            tr = tr[:n + 1]
            for e in tr[:n]:
                for j, r in e['d']:
                    regs[j] = r
            h = corrupt(tr[n], regs, rnd)
            if h:
                lines.append(json.dumps(tr))
                want.append((n + 1, tr[n]['o'], h))
        g = f + '.bad'
        open(g, 'w').write('\n'.join(lines) + '\n')
        bad, nt, _ = ck.validate(g)
        got = {(b['tr'], b['l']) for b in bad}
        for i, (n, op, h) in enumerate(want):
            tot[h] += 1
            if (i + 1, n) not in got:
                acc[h, op] += 1
                ex[h, op] = json.loads(lines[i])[-1]
    print('falsified', sum(tot.values()), dict(tot), 'accepted', sum(acc.values()))
    for k, n in acc.most_common():
        print(n, k, json.dumps({a: b for a, b in ex[k].items() if b not in ([], 0, '')})[:300])
    shutil.rmtree(ck.dir)


main()
