"""calc_gvectors: completeness, uniqueness, cutoffs"""
from gen import *
def setup(rng):
    c = target('irrep.gvectors', 'twomhbar2')
    m = rng.integers(0, 4)
    L = np.eye(3) * rng.uniform(1.5, 4.5) if m == 0 else rand_lattice(rng, 1.5, 4)
    if m == 1: L = np.diag([rng.uniform(1, 1.5), rng.uniform(2, 3), rng.uniform(6, 9)])
    if rng.random() < 0.3:      # strongly sheared description of the same lattice: shells may be empty before full ones
        L = L.copy(); i, j = rng.permutation(3)[:2]; L[i] += rng.integers(-2, 3) * L[j]
    if rng.random() < 0.15:     # nearly parallel reciprocal vectors
        b = np.diag(rng.uniform(.5, 2, 3)); i, j = rng.permutation(3)[:2]; b[i] = rng.choice([-1, 1]) * b[j]; b[i, i] = rng.uniform(.08, .3); L = 2 * np.pi * np.linalg.inv(b).T
    B = rec(L); k = rand_k(rng)
    if rng.random() < 0.3: k = np.zeros(3)
    if rng.random() < 0.2: k = k + rng.integers(-2, 3, 3)
    Ecut = rng.uniform(5, 120) if rng.random() < .7 else rng.uniform(.5, 15)
    return c, L, B, k, Ecut
def expect(k, B, Ecut, c, nmax):
    r = np.arange(-nmax + 1, nmax)
    G = np.array(np.meshgrid(r, r, r, indexing='ij')).reshape(3, -1).T
    G = G[np.sum(np.abs(G), axis=1) < nmax]
    e = np.sum(((G + k) @ B) ** 2, axis=1) / c
    if np.min(np.abs(e - Ecut)) < 1e-9 * Ecut: raise Skip('')
    G, e = G[e < Ecut], e[e < Ecut]
    return G, e
def key(g): return tuple(int(x) for x in g)
@case(120, 1500)
def complete(rng):
    f = target('irrep.gvectors', 'calc_gvectors')
    c, L, B, k, Ecut = setup(rng)
    nmax = int(rng.choice([3, 6, 10, 14]))
    Ecut1 = float(rng.choice([-1, 0, Ecut, Ecut * 0.7, Ecut * 0.3, Ecut * 1.5]))
    G, e = expect(k, B, Ecut, c, nmax)
    lim = Ecut1 if Ecut1 > 0 else Ecut
    if len(G) == 0 or np.min(np.abs(e - lim)) < 1e-9 * lim: raise Skip('')
    given(k=k, B=B, Ecut=Ecut, Ecut1=Ecut1, nplanemax=nmax)
    ig = f(k.copy(), B.copy(), Ecut, Ecut1=Ecut1, nplanemax=nmax)
    got = [key(g) for g in ig[:3].T]
    ok(len(set(got)) == len(got), 'a plane wave is generated twice')
    want = {key(g): x for g, x in zip(G, e) if x <= lim}
    ok(set(got) == set(want), 'missing %s, too many %s', sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4])
    en = [want[g] for g in got]
    ok(all(b >= a - 1e-9 for a, b in zip(en, en[1:])), 'energies not ascending')
    return (nmax, len(got), len(G))
@case(60, 600)
def prescribed(rng):
    f = target('irrep.gvectors', 'calc_gvectors')
    c, L, B, k, Ecut = setup(rng)
    spinor = bool(rng.integers(0, 2))
    G, e = expect(k, B, Ecut, c, 16)
    if len(G) < 2 or len(G) > 1500 or np.max(np.sum(np.abs(G), axis=1)) > 12: raise Skip('')
    d = int(rng.choice([0, 0, 0, -2, -1, 1, 2, -4, 4]))
    n = len(G) * (2 if spinor else 1) + d
    Ecut1 = float(rng.choice([-1, Ecut, Ecut * 0.5]))
    lim = Ecut1 if Ecut1 > 0 else Ecut
    if n <= 0: raise Skip('')
    given(k=k, B=B, Ecut=Ecut, Ecut1=Ecut1, nplane=n, spinor=spinor, existing=len(G))
    try: ig = f(k.copy(), B.copy(), Ecut, n, Ecut1=Ecut1, spinor=spinor, nplanemax=40)
    except Exception as x:
        ok(d != 0, 'error although the count is right: %s', x); return ('error', d, spinor)
    if d != 0:                 # fewer than existing: the search may stop as soon as the count is reached
        ok(n % 2 == 0 or not spinor, 'odd count accepted for spinors')
        ok(d < 0, 'no error although only %d plane waves exist and %d were prescribed', len(G), n)
        got = [key(g) for g in ig[:3].T]
        ok(len(set(got)) == len(got), 'a plane wave is generated twice')
        ok(len(got) <= n / (2 if spinor else 1), 'more plane waves than prescribed')
        if lim >= Ecut: ok(len(got) * (2 if spinor else 1) == n, '%d plane waves instead of the prescribed count %d', len(got), n)
        ok(set(got) <= {key(g) for g, x in zip(G, e) if x <= lim}, 'plane wave above the cutoff')
        return (len(got), d, spinor)
    got = [key(g) for g in ig[:3].T]
    ok(len(set(got)) == len(got), 'a plane wave is generated twice')
    want = {key(g): x for g, x in zip(G, e) if x <= lim}
    ok(set(got) == set(want), 'missing %s, too many %s', sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4])
    return (len(got), spinor, lim == Ecut)
