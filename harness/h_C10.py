"""irreps from traces"""
from gen import *
@case(250)
def multiplicities(rng):
    x = kp_inputs(rng, npw=8)
    k = make_kp(x)
    n = len(k.little_group)
    inds = [s.ind for s in k.little_group]
    nl = k.char.shape[0]
    names = ['A%d' % i for i in range(rng.integers(1, 6))]
    if rng.random() < 0.3:
        k.char = (k.char * 0).astype(complex)
        k.char += (rng.integers(-2, 3, k.char.shape)) * rng.choice([1, 1e-3, 1j, 5e-4])
    tab = {nm: {i: complex(c) for i, c in zip(inds, cplx(rng, n))} for nm in names}
    for nm in names[:1]:            # tiny multiplicities, on either side of the threshold
        if rng.random() < 0.5:
            f = rng.choice([1e-4, 9e-4, 1.2e-3, 1e-2])
            m = np.array([tab[nm][i] for i in inds])
            v = np.dot(m, k.char[0].conj()) / n
            if abs(v) > 0: tab[nm] = {i: c * f / abs(v) for i, c in tab[nm].items()}
    for nm in names:                 # unused operations may be present in the table
        tab[nm][max(inds) + 1] = 7.0
    given(char=k.char, table=tab, inds=inds)
    k.identify_irreps(tab)
    ok(len(k.irreps) == nl, '%d levels instead of %d', len(k.irreps), nl)
    for l in range(nl):
        want = {}
        for nm in names:
            m = sum(tab[nm][i] * np.conj(k.char[l, j]) for j, i in enumerate(inds)) / n
            if abs(abs(m) - 1e-3) < 1e-9: continue
            if abs(m) > 1e-3: want[nm] = m
        got = {a: b for a, b in k.irreps[l].items() if abs(abs(b) - 1e-3) > 2e-9}
        ok(set(got) == set(want), 'level %d: irreps %s instead of %s', l, got, want)
        for nm in want: close(got[nm], want[nm], 'multiplicity of %s' % nm, 1e-8)
    j = k.json()
    ok(j['irreps'] is not None and len(j['irreps']) == nl, 'JSON irreps')
    for l in range(nl):
        for nm, v in k.irreps[l].items(): close(complex(*j['irreps'][l][nm]), v, 'JSON multiplicity', 1e-12)
    return (n, nl, len(names))
@case(30)
def no_table(rng):
    x = kp_inputs(rng, npw=8)
    k = make_kp(x)
    k.identify_irreps(None)
    ok(k.onlytraces, 'onlytraces')
    ok(k.json()['irreps'] is None, 'irreps without a table')
    return (x.nb, x.spinor)
@case(60)
def real_tables(rng):
    """characters of a real table: a level that carries an irrep is identified with multiplicity one"""
    sp = bool(rng.integers(0, 2)); T = table(rand_sg(rng), sp)
    x = kp_inputs(rng, npw=8, nb=1)
    k = make_kp(x)
    names = sorted({i.kpname for i in T.irreps}); kn = names[rng.integers(0, len(names))]
    irr = [i for i in T.irreps if i.kpname == kn]
    inds = sorted(irr[0].characters)
    k.little_group = [FakeSym(i, None, None) for i in inds]
    mult = rng.integers(0, 3, len(irr))
    if not mult.any(): mult[0] = 1
    k.char = np.array([[sum(m * i.characters[s] for m, i in zip(mult, irr)) for s in inds]]).astype(complex)
    given(table=T.number, spinor=sp, kpoint=kn, multiplicities=mult)
    k.identify_irreps({i.name: i.characters for i in irr})
    want = {i.name: int(m) for m, i in zip(mult, irr) if m}
    ok(set(k.irreps[0]) == set(want), 'irreps %s instead of %s', k.irreps[0], want)
    for n in want: close(k.irreps[0][n], want[n], n, 1e-3)
    return (T.number, sp, kn)
