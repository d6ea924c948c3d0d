#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/checks', V + '/tools']
from props import PROPS
from registry import CHECKS
NOT = {}
try:
    from registry import NOT_APPLICABLE as NOT
except ImportError:
    pass
TECH = dict(sched='stateless model checking of the real code: controlled scheduler, preemption-bounded exhaustive search with happens-before state caching and race detection',
            enum='bounded exhaustive enumeration of operation sequences and inputs on the real code against a reference model',
            plain='exhaustive enumeration of fault and behaviour combinations in real processes')
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        for a in p['anchors']['files']:
            if not os.path.exists('/repo/' + a):
                print('no such file: ' + a, file=sys.stderr)
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='BALAU_VERIF', enable='none needed: the checks build the unmodified sources and interpose at the C library and compiler instrumentation level', source_commits=[]),
         checks=[], not_applicable=[], notes='Every check builds its own harness from /repo\'s working tree (run.py); see DESIGN.md.')
for p in PROPS:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                                technique=c.get('technique', TECH[c.get('engine', 'enum')]), level=c['level'],
                                level_note='Exhaustive within bounds, and nothing beyond them: ' + c['bounds'] + '. ' + c.get('trust', 'Trusts the reference model in the harness, the compiler and the sanitisers.')))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOT.get(i, 'no check built yet')))
# The list of properties in DESIGN.md.
ENGINE = dict(sched='A, controlled scheduler', enum='B, enumeration', plain='C, enumeration of process behaviours')
t = ''
for p in PROPS:
    if p['id'] in CHECKS:
        c = CHECKS[p['id']]
        e = 'B with C, tests run in real processes' if c['level'] == 'fault_enumeration' and p['id'] == 'P24' else ENGINE[c.get('engine', 'enum')]
        t += '**%s. %s.** %s. Bounds: %s.\n\n' % (p['id'], p['title'], e, c['bounds'])
d = open(V + '/DESIGN.md').read()
a, b = '<!-- generated by tools/gen.py -->\n', '<!-- end -->\n'
if a in d:
    d = d[:d.index(a) + len(a)] + '\n' + t + d[d.index(b):]
    open(V + '/DESIGN.md', 'w').write(d)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
