"""write and read .sym files"""
from gen import *
from h_C09 import fake_sg
CASES.clear()
def frac(d): return np.abs(d - np.round(d)).max() if d.size else 0
@case(150)
def functions(rng):
    rd, cv = target('irrep.spacegroup', 'read_sym_file'), target('irrep.spacegroup', 'cart_to_crystal')
    SG = target('irrep.spacegroup', 'SpaceGroup'); SO = target('irrep.spacegroup', 'SymmetryOperation')
    ops = group(rand_sg(rng)); L = latt_for(rng, ops)
    n = int(rng.integers(1, len(ops) + 1)); ops = [ops[i] for i in rng.permutation(len(ops))[:n]]
    if rng.random() < .5: ops = [(R, rng.uniform(0, 1, 3)) for R, t in ops]
    syms = [SO(R, t, L, ind=i + 1) for i, (R, t) in enumerate(ops)]
    g = SG.__new__(SG); g.symmetries = syms; g.Lattice = L; g.alat = None
    alat = float(rng.choice([1., rng.uniform(1, 12)]))
    given(L=L, alat=alat, ops=[(o.rotation, o.translation) for o in syms][:10])
    with scratch():
        if rng.random() < .3: g.alat = alat; g.write_sym_file('a.sym')
        else: g.write_sym_file('a.sym', alat)
        rc, tc = rd('a.sym'); R, t = cv(rc, tc, L, alat)
    ok(len(R) == n and len(t) == n, '%d operations instead of %d', len(R), n)
    for i in range(n):
        ok(np.array_equal(R[i], syms[i].rotation), 'rotation %d', i)
        d = t[i] - syms[i].translation
        ok(frac(d) < 1e-7, 'operation %d: translation %s instead of %s', i, t[i], syms[i].translation)
    return (n, tuple(np.round(L.ravel(), 3)))
@case(12, 80, limit=120)
def spacegroup_from_file(rng):
    SG = target('irrep.spacegroup', 'SpaceGroup'); SO = target('irrep.spacegroup', 'SymmetryOperation')
    ops = group(int(rng.choice([1, 2, 4, 14, 19, 62, 76, 92, 136, 169, 194, 198])))
    L = latt_for(rng, ops); p = rng.uniform(0, 1, (2, 3))
    pos = [(R @ x + t) % 1 for x in p for R, t in ops]; typ = [a + 1 for a in range(2) for _ in ops]
    cell = (L, np.array(pos), typ)
    alat = float(rng.uniform(1, 9))
    g = SG(cell, spinor=False, alat=alat)
    sh = rng.uniform(0, 1, 3)
    given(L=L, alat=alat)
    with scratch():
        g.write_sym_file('b.sym', alat)
        h = SG(cell, spinor=False, from_sym_file='b.sym', alat=alat)
    ok(len(h.symmetries) == len(g.symmetries), 'number of operations')
    for a, b in zip(g.symmetries, h.symmetries):
        ok(np.array_equal(a.rotation, b.rotation), 'rotation'); d = a.translation - b.translation
        ok(frac(d) < 1e-7, 'translation %s read back as %s', a.translation, b.translation)
    return (len(ops), tuple(np.round(L.ravel(), 2)))
