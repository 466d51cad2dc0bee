"""equal-energy blocks"""
from gen import *
import h_C03
CASES.clear()
def blocks(ig, e, thr, tag):
    n = ig.shape[1]
    for j in range(n):
        f, l = ig[4, j], ig[5, j]
        ok(0 <= f <= j < l <= n, '%s: column %d not inside its block [%d,%d)', tag, j, f, l)
        for i in range(f, l): ok(ig[4, i] == f and ig[5, i] == l, '%s: columns %d and %d share a block but not its bounds', tag, j, i)
        if l < n: ok(ig[4, l] == l, '%s: blocks not contiguous at column %d', tag, l)
    for j in range(n - 1):
        d = e[j + 1] - e[j]
        if abs(d - thr) < 1e-9: continue
        ok((ig[4, j] == ig[4, j + 1]) == (d <= thr), '%s: columns %d,%d with energy step %g: blocks %s', tag, j, j + 1, d, ig[4:6, j:j + 2].tolist())
@case(300)
def blocks_sortIG(rng):
    f = target('irrep.gvectors', 'sortIG')
    kg, k, CG, B, E0, E, spinor, e = h_C03.setup(rng)
    H = target('irrep.gvectors', 'Hartree_eV')
    CG1, ig = f(0, kg, k, CG, B, E0, E, spinor)
    blocks(ig, H * np.sum(((ig[:3].T + k) @ B) ** 2, axis=1) / 2, 1e-4, 'sortIG')
    return (ig.shape[1], int(ig[4, -1]))
@case(200)
def near_ties(rng):
    """tiny cells: energy steps around the tolerance"""
    f = target('irrep.gvectors', 'sortIG'); H = target('irrep.gvectors', 'Hartree_eV')
    npw = int(rng.integers(1, 30)); B = np.eye(3)
    steps = rng.choice([0, 0.5e-4, 0.99e-4, 1.01e-4, 5e-4, 1e-2], npw)
    x = np.sqrt(2 * (0.1 + np.cumsum(steps)) / H)                  # |k+G| along one direction
    kg = np.zeros((npw, 3)); kg[:, 0] = x; kg = kg[rng.permutation(npw)]
    # energies are what matters; integer plane waves with a k-point per plane wave are not possible, so use a fine lattice
    q = 1e-7; G = np.zeros((npw, 3), int); G[:, 0] = np.round(kg[:, 0] / q).astype(int)
    B = np.diag([q, 1.0, 1.0])
    e = H * (G[:, 0] * q) ** 2 / 2
    given(G=G, B=B)
    CG1, ig = f(0, G, np.zeros(3), cplx(rng, 1, npw), B, e.max() * 1.1 + 1, e.max() + 1, False)
    blocks(ig, H * np.sum((ig[:3].T @ B) ** 2, axis=1) / 2, 1e-4, 'sortIG')
    return (npw, len(set(ig[4])))
@case(60)
def blocks_calc_gvectors(rng):
    f = target('irrep.gvectors', 'calc_gvectors'); c = target('irrep.gvectors', 'twomhbar2')
    L = rand_lattice(rng, 2, 4)
    if rng.random() < 0.4: L = np.eye(3) * rng.uniform(2, 4)
    B = rec(L); k = rand_k(rng)
    if rng.random() < 0.3: k = np.zeros(3)
    Ecut = rng.uniform(30, 150); Ecut1 = rng.choice([Ecut, Ecut * 0.6]); thr = rng.choice([1e-3, 1e-1, 1e-6])
    given(k=k, B=B, Ecut=Ecut, Ecut1=Ecut1, thresh=thr)
    ig = f(k, B, Ecut, Ecut1=Ecut1, thresh=thr, nplanemax=12)
    if ig.shape[1] == 0: raise Skip('')
    e = np.sum(((ig[:3].T + k) @ B) ** 2, axis=1) / c
    blocks(ig, e, thr, 'calc_gvectors')
    return (ig.shape[1], int(ig[4, -1]))
