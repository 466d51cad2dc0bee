"""POSCAR"""
from files import *
@case(300)
def poscar(rng):
    P = target('irrep.readfiles', 'ParserVasp')
    L = rand_lattice(rng); scale = float(rng.choice([1.0, 1.0, round(float(rng.uniform(.3, 6)), 5)]))
    ns = int(rng.integers(1, 5)); counts = [int(c) for c in rng.integers(1, 5, ns)]; n = sum(counts)
    D = rng.uniform(-1, 2, (n, 3)); elem, sel = rng.random() < .6, rng.random() < .4; mode = str(rng.choice(['Direct', 'direct', 'D', 'Cartesian', 'cart', 'c', 'C']))
    C = D if mode[0] in 'dD' else D @ L
    junk = rng.random() < .3; few = rng.random() < .15; bad = rng.random() < .1
    if bad: mode = str(rng.choice(['kartesisch', 'xyz', 'fractional', 'K']))
    rows = ['%.15f %.15f %.15f' % tuple(c) + str(rng.choice(['', ' T T F', ' Bi', ' ! comment'])) for c in C]
    if few: rows = rows[:-int(rng.integers(1, n + 1))]
    if junk: rows.insert(int(rng.integers(0, len(rows) + 1)), str(rng.choice(['', '! a comment line here', 'atoms of bismuth now'])))
    tail = [['', '0.0 0.0 0.0', '0.1 0.2 0.3'], []][int(rng.integers(0, 2))] if not few else []
    txt = ['comment 1 2 3', ('  %.12f' % scale)] + [' %.15f %.15f %.15f' % tuple(v) for v in L]
    if elem: txt.append(' '.join(['Bi', 'Se', 'O', 'H'][:ns]))
    txt.append('  '.join(map(str, counts)))
    if sel: txt.append(str(rng.choice(['Selective dynamics', 's', 'S'])))
    txt += [mode] + rows + tail
    given(text=txt)
    with scratch():
        open('POSCAR', 'w').write('\n'.join(txt) + '\n')
        p = P('POSCAR', None, onlysym=True)
        if few or bad:
            ok(raises(p.parse_poscar) is not None, 'too few positions accepted' if few else 'unknown mode accepted'); return (few, bad)
        lat, pos, typ = p.parse_poscar()
    close(lat, scale * L, 'lattice', 1e-9); close(pos, D, 'positions', 1e-8)
    ok(list(typ) == [i + 1 for i in range(ns) for j in range(counts[i])], 'species %s', typ)
    return (mode[0], elem, sel, junk, tuple(counts))
