"""overlap, zakphase, wcc"""
from gen import *
def kset(rng, n, nb=None, spinor=None, npw=None, kk=None):
    L = rand_lattice(rng); B = rec(L); spinor = bool(rng.integers(0, 2)) if spinor is None else spinor
    nb = nb or int(rng.integers(1, 4)); out = []
    k0 = rng.uniform(-.5, .5, 3); d = rng.uniform(-.2, .2, 3)
    for i in range(n):
        x = KP(); x.k = k0 + i * d + (rng.integers(-1, 2, 3) if rng.random() < .4 else 0)
        if kk is not None: x.k = np.array(kk[i], float)
        x.L, x.B, x.spinor = L, B, spinor
        x.ig = pw_set(rng, x.k, B, int(rng.integers(8, 26)) if npw is None else npw)
        m = x.ig.shape[1] * (2 if spinor else 1); x.nb = min(nb, m); x.WF = orthonormal(rng, x.nb, m)
        x.E = np.sort(rng.uniform(-3, 3, x.nb)); x.thr, x.upper, x.syms, x.ik = 1e-8, x.E[-1] + rng.uniform(.1, 2), [], i
        out.append((x, make_kp(x, calculate_traces=False)))
    given(ks=[x.k for x, _ in out], spinor=spinor, nb=nb, ig=[x.ig[:3] for x, _ in out][:2])
    return out
def olap(x, y):
    g = np.round(x.k - y.k).astype(int); r = np.zeros((x.nb, y.nb), complex); n1, n2 = x.ig.shape[1], y.ig.shape[1]
    p = {tuple(y.ig[:3, j] - g): j for j in range(n2)}
    for i in range(n1):
        j = p.get(tuple(x.ig[:3, i]))
        if j is None: continue
        for s in range(2 if x.spinor else 1): r += np.outer(x.WF[:, i + s * n1].conj(), y.WF[:, j + s * n2])
    return r
@case(120)
def overlap(rng):
    (x, a), (y, b) = kset(rng, 2)
    if rng.random() < .3:
        m = int(rng.integers(1, b.num_bands + 1)); 
        y.nb = m; y.WF = y.WF[:m]; y.E = y.E[:m]; b = make_kp(y, calculate_traces=False)
    if np.min(np.abs(np.abs(x.k - y.k) % 1 - .5)) < 1e-6: raise Skip('')
    close(a.overlap(b), olap(x, y), 'overlap', 1e-8)
    return (x.spinor, x.nb, y.nb, x.ig.shape[1], y.ig.shape[1])
def bs(ks):
    BS = target('irrep.bandstructure', 'BandStructure'); b = BS.__new__(BS); b.kpoints = [k for _, k in ks]; b.spinor = ks[0][0].spinor
    return b
def path(rng):
    n = int(rng.integers(2, 6)); ks = kset(rng, n, npw=16)
    nb = min(x.nb for x, _ in ks)
    if any(x.nb != nb for x, _ in ks): raise Skip('')
    # the code takes the overlaps k_i, k_i+1 and closes the path with the image of the first point
    b = bs(ks)
    for i in range(n):
        if np.min(np.abs(np.abs(ks[i][0].k - ks[(i + 1) % n][0].k) % 1 - .5)) < 1e-6: raise Skip('')
    return ks, b, n, nb
@case(80)
def zak(rng):
    ks, b, n, nb = path(rng)
    O = [olap(ks[i][0], ks[(i + 1) % n][0]) for i in range(n)]
    r = b.zakphase()
    z = np.array([sum(np.angle(np.linalg.det(o[:m, :m])) for o in O) for m in range(1, nb + 1)])
    d = (np.asarray(r[0]) - z) / (2 * np.pi)
    ok(len(r[0]) == nb, 'number of phases')
    ok(np.abs(d - np.round(d)).max() < 1e-6, 'Zak phases %s instead of %s', r[0], z % (2 * np.pi))
    E = np.array([x.E for x, _ in ks])
    emin = np.append(E[:, 1:].min(axis=0), np.inf); emax = E.max(axis=0)
    close(np.asarray(r[1])[:-1], (emin - emax)[:-1], 'gaps between bands', 1e-9)
    close(np.asarray(r[2])[:-1], ((emin + emax) / 2)[:-1], 'mean energies between bands', 1e-9)
    close(np.asarray(r[3])[:-1], (E[:, 1:] - E[:, :-1]).min(axis=0), 'local gaps', 1e-9)
    return (n, nb, ks[0][0].spinor)
@case(80)
def wannier(rng):
    ks, b, n, nb = path(rng)
    W = np.eye(nb)
    for i in range(n):
        u, s, v = np.linalg.svd(olap(ks[i][0], ks[(i + 1) % n][0]))
        if s.min() < 1e-6: raise Skip('')
        W = W @ u @ v
    w = np.sort(np.angle(np.linalg.eigvals(W)) / (2 * np.pi) % 1)
    r = np.asarray(b.wcc())
    ok(r.shape == (nb,), 'number of centres')
    ok(np.all(r >= 0) and np.all(r < 1 + 1e-12), 'centres not in [0,1): %s', r)
    ok(np.all(np.diff(r) >= -1e-12), 'centres not sorted: %s', r)
    # compare modulo 1
    z1, z2 = np.exp(2j * np.pi * r), np.exp(2j * np.pi * w)
    used = []
    for v in z1:
        i = min((i for i in range(nb) if i not in used), key=lambda i: abs(z2[i] - v)); used.append(i)
        ok(abs(z2[i] - v) < 1e-6, 'centres %s instead of %s', r, w)
    return (n, nb, ks[0][0].spinor)
