#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py and plan.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from props import P
from plan import PLAN
assert all(len(p['title']) <= 80 for p in P)
with open(V + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in P:
    i = p['id']
    if i not in PLAN: na.append(dict(property=i, reason='its check is not built yet')); continue
    e = PLAN[i]; tsan = any(x.get('variant') == 'tsan' for x in e['run'])
    checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i, thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
        technique=e.get('technique', 'ThreadSanitizer on concurrent instances plus result monitors' if tsan else 'runtime monitoring: generated workloads on the ASan/UBSan build, judged by an independent online/offline oracle'),
        level=e.get('level', 'exploration'),
        level_note=e.get('note', 'No violation in the executions observed (seeded, counted in the evidence file); not exhaustive. Trusts the harness oracle, the scripted device or loopback peers, Qt and the sanitizer runtimes.')))
m = dict(version=1, setup_cmd='python3 tools/check.py --build', checks=checks, not_applicable=na,
         notes='All harnesses live in /verif/harness and compile /repo/pillowcore from the working tree with clang sanitizers (tools/build.py); /repo carries no hooks, only fix: commits.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'unclaimed')
