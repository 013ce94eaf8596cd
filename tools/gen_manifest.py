#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import plan

NOTE = ('Histories of real calls, generated towards the corners of this property, are recorded and TLC checks every '
        'event against the transition relation of spec/Machine.tla (an executable definition of the exact result); '
        'mismatches are confirmed by executing the history again. %sBounded by what is generated and by the laws\' '
        'domains: nothing is proved for all inputs. ')
TRUST = 'Trusts TLC, the big-integer override (checked against its TLA+ definition) and the driver\'s recording.'
SPECIAL = {
    'P19': ('TLA+ model of the shared state, all interleavings (TLC); its programs and random ones run on the real code '
            'under the race detector; trace validation of the histories of the goroutines',
            'spec/Concurrency.tla models the table of powers, the lazy constants and the pool; TLC explores all '
            'interleavings of all programs of 2 and 3 goroutines. Each of these programs is run in a new process under '
            'the race detector (the schedules are the operating system\'s), and histories of 8 goroutines are '
            'validated as sequential behaviours of the machine. '),
}


def describe(p):
    if p in SPECIAL:
        return SPECIAL[p]
    t, n = ['TLA+ state machine; TLC trace validation of recorded histories'], ''
    if p in plan.LAWS:
        t.append('declarative laws model-checked on the specification, whose states are replayed into the code')
        n += ('The law %s of spec/Laws.tla is checked by TLC for all operands of a small domain, and the library '
              'executes a part of these states. ' % ', '.join(plan.LAWS[p]))
    if p in plan.WALKS:
        t.append('behaviours that TLC generates from the specification, replayed into the code')
        n += 'Action properties are checked on behaviours of spec/Walk.tla, which the library executes. '
    return '; '.join(t), NOTE % n


checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p not in plan.PLAN:
        na.append(dict(property=p, reason='its check is still being built'))
        continue
    t, n = describe(p)
    checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=t, level='model_checking', level_note=n + TRUST))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the specification is bound to the public API. See DESIGN.md.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
