"""unfold"""
from gen import *
SIG = np.array([[[1, 0], [0, 1]], [[0, 1], [1, 0]], [[0, -1j], [1j, 0]], [[1, 0], [0, -1]]])
def supercell(rng):
    while True:
        M = rng.integers(-2, 3, (3, 3))
        if rng.random() < .4: M = np.diag(rng.integers(1, 4, 3))
        if 0.5 < abs(np.linalg.det(M)) < 6.5: return M
def setup(rng):
    x = KP(); x.M = supercell(rng); x.spinor = bool(rng.integers(0, 2))
    x.L = rand_lattice(rng); x.B = rec(x.L)
    x.kp = rng.choice([0, .5, .25, 1/3, .1, -.3], 3)           # primitive k-point
    x.k = x.kp @ x.M.T
    if rng.random() < .7: x.k = x.k - np.round(x.k)
    x.ig = pw_set(rng, x.k, x.B, int(rng.integers(8, 60)))
    n = x.ig.shape[1] * (2 if x.spinor else 1)
    x.nb = min(int(rng.integers(1, 6)), n); x.WF = orthonormal(rng, x.nb, n)
    x.thr = 1e-4; x.E = safe_energies(rng, x.nb, x.thr); x.upper = np.nan; x.syms = []; x.ik = 0
    given(supercell=x.M, k=x.k, kptPBZ=x.kp, spinor=x.spinor, E=x.E, ig=x.ig[:3])
    return x
def classes(M):
    """representatives of the primitive k-points that fold on the same supercell k-point"""
    Mi = np.linalg.inv(M.T); out = {}
    for g in np.ndindex(7, 7, 7):
        q = np.array(g) @ Mi; c = tuple(np.round(q % 1, 6) % 1)
        out.setdefault(c, q)
    return list(out.values())
def weights(x, kp):
    Mi = np.linalg.inv(x.M.T)
    q = (x.ig[:3].T + x.k) @ Mi - kp
    sel = np.where(np.all(np.abs(q - np.round(q)) < 1e-4, axis=1))[0]
    n = x.ig.shape[1]
    return sel, n
@case(200)
def weight(rng):
    x = setup(rng); K = make_kp(x, calculate_traces=False)
    kp = x.kp + rng.integers(-1, 2, 3)
    r = np.asarray(K.unfold(x.M, kp, degen_thresh=x.thr))
    sel, n = weights(x, kp)
    lv = levels(x.E, x.thr)
    ok(r.shape == (len(lv), 5 if x.spinor else 2), 'shape %s', r.shape)
    for l, (a, b) in enumerate(lv):
        close(r[l, 0], x.E[a:b].mean(), 'energy', 1e-9)
        cols = np.hstack((sel, sel + n)) if x.spinor else sel
        close(r[l, 1], np.sum(np.abs(x.WF[a:b][:, cols]) ** 2), 'weight of bands %d..%d' % (a, b - 1), 1e-7)
    return (len(lv), len(sel), x.spinor, abs(round(np.linalg.det(x.M)))) if 0 < len(sel) < n else None
@case(60)
def sum_rule(rng):
    x = setup(rng); K = make_kp(x, calculate_traces=False)
    cs = classes(x.M); d = abs(round(np.linalg.det(x.M)))
    if len(cs) != d: raise Skip('')
    tot = sum(np.asarray(K.unfold(x.M, x.kp + q, degen_thresh=x.thr))[:, 1] for q in cs)
    close(tot, [b - a for a, b in levels(x.E, x.thr)], 'sum of the weights over all primitive k-points', 1e-6)
    return (d, x.spinor, len(tot))
@case(100)
def not_folding(rng):
    x = setup(rng); K = make_kp(x, calculate_traces=False)
    kp = x.kp.copy(); kp = kp + np.linalg.inv(x.M.T).T[rng.integers(0, 3)] * rng.choice([.5, .1, .25, 1e-3]) if rng.random() < .7 else rng.uniform(-1, 1, 3)
    f = kp @ x.M.T - x.k; d = np.abs(f - np.round(f)).max()
    if 1e-6 < d < 1e-4: raise Skip('')
    e = raises(K.unfold, x.M, kp)
    if d > 1e-4: ok(e is not None, 'no error although %s does not fold on %s', kp, x.k)
    else: ok(e is None, 'error %r although the k-point folds', e)
    return ('bad' if d > 1e-4 else 'good', tuple(np.round(kp, 3)))
