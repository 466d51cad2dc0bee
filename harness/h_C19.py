"""gaps and inversion parities"""
from gen import *
def bs():
    BS = target('irrep.bandstructure', 'BandStructure')
    return BS.__new__(BS)
class KK: pass
@case(200)
def gaps(rng):
    b = bs(); n = int(rng.integers(1, 7)); ks = []
    for i in range(n):
        k = KK(); nb = int(rng.integers(1, 6)); k.num_bands = nb
        k.Energy_raw = np.sort(rng.uniform(-5, 5, nb)); lv = levels(k.Energy_raw, 0.5)
        k.Energy_mean = np.array([k.Energy_raw[a:c].mean() for a, c in lv]); k.degeneracies = np.array([c - a for a, c in lv])
        k.upper = np.nan if rng.random() < 0.3 else k.Energy_raw[-1] + rng.uniform(0, 3)
        k.k = rng.uniform(-.5, .5, 3); ks.append(k)
    if rng.random() < 0.1:
        for k in ks: k.upper = np.nan
    b.kpoints = ks
    given(upper=[k.upper for k in ks], tops=[k.Energy_mean[-1] for k in ks])
    d = [k.upper - k.Energy_mean[-1] for k in ks if not np.isnan(k.upper)]
    gd, gi = b.gap_direct, b.gap_indirect
    if d:
        close(gd, min(d), 'direct gap', 1e-12)
        close(gi, min(k.upper for k in ks if not np.isnan(k.upper)) - max(k.Energy_mean[-1] for k in ks), 'indirect gap', 1e-12)
    else:
        ok(gd is None or np.isnan(gd) or gd == np.inf, 'direct gap without upper bands: %s', gd); ok(gi is None or np.isnan(gi) or gi == np.inf, 'indirect gap without upper bands: %s', gi)
    return (n, len(d))
@case(200)
def parities(rng):
    sg = int(rng.choice([2, 10, 11, 12, 13, 14, 47, 62, 64, 87, 129, 136, 148, 166, 167, 191, 194, 200, 221, 225, 227])) if rng.random() < 0.8 else rand_sg(rng)
    kk = np.array([rng.choice([0, .5, -.5, 1]) for _ in range(3)]) if rng.random() < 0.7 else rand_k(rng)
    x = kp_inputs(rng, sg=sg, kk=kk, npw=10, nb=int(rng.integers(1, 7)))
    if rng.random() < 0.3:
        t0 = rng.choice([0.25, 0.5, 0.125, 1e-3], 3)
        SO = target('irrep.spacegroup', 'SymmetryOperation')
        x.syms = [SO(s.rotation, s.translation + t0 - s.rotation @ t0, x.L, ind=s.ind, spinor=x.spinor) for s in x.syms]
    k = make_kp(x)
    lg = little(x)
    inv = [j for j, s in enumerate(lg) if np.array_equal(s.rotation, -np.eye(3)) and np.all(np.abs(s.translation) < 1e-7)]
    if any(np.array_equal(s.rotation, -np.eye(3)) and 1e-7 < np.sum(np.abs(s.translation)) < 1e-5 for s in lg): raise Skip('')
    if not inv: ok(k.num_bandinvs is None, 'inversion-odd states at a k-point without inversion: %s', k.num_bandinvs); return ('none', sg)
    # value: half of the sum over levels of degeneracy - real trace
    v = sum((d - c.real) / 2 for d, c in zip(k.degeneracies, k.char[:, inv[0]]))
    if abs(v - np.floor(v) - 0.5) < 1e-3: raise Skip('')
    ok(k.num_bandinvs == int(np.round(v)), 'inversion-odd states %s instead of %g', k.num_bandinvs, v)
    return ('inv', sg, k.num_bandinvs)
@case(100)
def total(rng):
    b = bs(); ks = []
    for i in range(int(rng.integers(1, 8))):
        k = KK(); k.num_bandinvs = None if rng.random() < 0.4 else int(rng.integers(0, 9)); ks.append(k)
    b.kpoints = ks; given(values=[k.num_bandinvs for k in ks])
    ok(b.num_bandinvs == sum(k.num_bandinvs or 0 for k in ks), 'total %s', b.num_bandinvs)
    return tuple(k.num_bandinvs for k in ks)
