"""sortIG"""
from gen import *
def setup(rng):
    npw = int(rng.integers(1, 60)); nb = int(rng.integers(1, 5)); spinor = bool(rng.integers(0, 2))
    B = rec(rand_lattice(rng)); mode = rng.integers(0, 4)
    if mode == 0: B = np.eye(3) * rng.uniform(0.3, 2)          # many ties
    k = rand_k(rng)
    if mode == 1: k = np.zeros(3)
    G = set()
    while len(G) < npw: G.add(tuple(int(x) for x in rng.integers(-4, 5, 3)))
    kg = np.array(list(G)); kg = kg[rng.permutation(npw)]
    CG = cplx(rng, nb, npw * (2 if spinor else 1))
    H = target('irrep.gvectors', 'Hartree_eV')
    e = H * np.sum(((kg + k) @ B) ** 2, axis=1) / 2
    E0 = e.max() * (1 + 0.1 * rng.random()) + 1e-9
    c = rng.integers(0, 4)
    s = np.sort(e)
    if c == 0: E = E0
    elif c == 1: E = s[rng.integers(0, npw)] + 1e-6
    elif c == 2: E = s[rng.integers(0, npw)] * 0.999
    else: E = s[rng.integers(0, npw)] + 1e-3
    if not np.any(e < E): raise Skip('empty')
    if np.min(np.abs(e - E)) < 1e-9 * E: raise Skip('plane wave at the cutoff')
    given(kg=kg, k=k, B=B, E0=E0, E=E, spinor=spinor)
    return kg, k, CG, B, E0, E, spinor, e
@case(400)
def sort_and_cut(rng):
    f = target('irrep.gvectors', 'sortIG')
    kg, k, CG, B, E0, E, spinor, e = setup(rng)
    a, b = kg.copy(), CG.copy()
    CG1, ig = f(0, kg, k, CG, B, E0, E, spinor)
    npw = len(kg); pos = {tuple(g): i for i, g in enumerate(a)}
    n = ig.shape[1]
    ok(n == int(np.sum(e < E)), 'number of plane waves %d instead of %d', n, int(np.sum(e < E)))
    src = []
    for j in range(n):
        g = tuple(int(x) for x in ig[:3, j]); ok(g in pos, 'unknown plane wave %s', g); src.append(pos[g])
    ok(len(set(src)) == n, 'a plane wave occurs twice')
    ok(all(e[i] < E for i in src), 'plane wave above the cutoff')
    es = e[src]
    ok(np.all(es[1:] - es[:-1] >= -1e-9 * (1 + es[1:])), 'energies not ascending: %s', es)
    ok(CG1.shape == (CG.shape[0], n * (2 if spinor else 1)), 'shape of coefficients %s', CG1.shape)
    close(CG1[:, :n], b[:, src], 'coefficients', 0)
    if spinor: close(CG1[:, n:], b[:, [npw + i for i in src]], 'coefficients of the second spin', 0)
    return (npw, n, spinor) if n < npw else None
