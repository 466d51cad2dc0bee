#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids]: builds /verif/seeded/<id>/ from a spec (list SEEDS of dicts id, property, file, old, new, demo, needs, breaks)
and validates it against /repo: demo 0 on the clean tree, stable tests pass and demo != 0 with the patch; then runs the check."""
import sys, os, subprocess, json, runpy
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
spec = runpy.run_path(sys.argv[1]); only = set(sys.argv[2:])
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
for s in spec['SEEDS']:
    if only and s['id'] not in only: continue
    assert not sh('git -C /repo status --porcelain').stdout
    d = os.path.join(HERE, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    try:
        edits = s.get('edits') or [(s['file'], s['old'], s['new'])]
        for fn, old, new in edits:
            f = '/repo/' + fn; t = open(f).read()
            assert t.count(old) == 1, ('occurrences', t.count(old), old)
            open(f, 'w').write(t.replace(old, new))
        diff = sh('git -C /repo diff').stdout; open(d + '/patch.diff', 'w').write(diff)
        clean()
        open(d + '/demo.py', 'w').write('import os, sys\nsys.path[:0] = [os.getcwd(), os.path.join(os.getcwd(), "irreptables")]\nimport numpy as np\n' + s['demo'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        assert sh('git -C /repo apply %s/patch.diff' % d).returncode == 0
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
        t = sh('bash /opt/vp/test.sh /tmp/seed_t.json'); p = json.load(open('/tmp/seed_t.json'))['passed']
        c = sh('python3-vt check.py %s' % s['property'], cwd=HERE, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
        v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
        print(s['id'], 'demo', r0.returncode, r1.returncode, 'tests', 'ok' if set(stable) <= set(p) else 'FAIL %s' % (set(stable) - set(p)), 'check', c.returncode, v[:1], flush=True)
        if r0.returncode: print('   clean demo:', (r0.stdout + r0.stderr)[-400:])
        if c.returncode not in (0, 1): print((c.stdout + c.stderr)[-500:])
    except AssertionError as e: print(s['id'], 'ASSERT', e, flush=True)
    finally: clean()
