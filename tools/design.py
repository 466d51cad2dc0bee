"""fills tools/design.tmpl -> DESIGN.md from notes, contracts, known findings and seeds"""
import sys, os, json, glob, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [H, H + '/tools']; sys.dont_write_bytecode = True
from notes import NOTES, BASE
REM = {}
rows = []
for p in sorted(NOTES):
    lvl, tech, note = NOTES[p]; note = note.replace(BASE, '')
    fs = []
    if os.path.exists('%s/contracts/%s.py' % (H, p)):
        m = importlib.import_module('contracts.' + p)
        fs = sorted({f.replace('irrep.', '') for k in m.contracts() for f in k.funcs})
    rows.append('| %s | %s | %s | %s |' % (p, 'deductive' + (' (with a bounded part)' if 'bounded' in note else '') if lvl == 'proof' else 'bounded', ', '.join('`%s`' % f for f in fs) or '-', note))
fx = []
for f in json.load(open(H + '/known_findings.json'))['fixed']:
    p = f.split(' ', 3); fx.append('* %s `%s`: %s' % (p[1].split('=')[1], p[2], p[3]))
sd = ['| planted change | caught by | needs |', '|---|---|---|']
import re
how = json.load(open(H + '/tools/caught.json')) if os.path.exists(H + '/tools/caught.json') else {}
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[-2]
    sd.append('| %s | %s | %s |' % (n, 'check %s (%s)' % (m['property'], how.get(n, 'input')), m['needs']))
t = open(H + '/tools/design.tmpl').read()
t = t.replace('@@TABLE@@', '\n'.join(rows)).replace('@@FIXES@@', '\n'.join(fx)).replace('@@SEEDS@@', '\n'.join(sd))
open(H + '/DESIGN.md', 'w').write(t)
