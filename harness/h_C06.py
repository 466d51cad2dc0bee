"""symm_eigenvalues, symm_matrix"""
from gen import *
def element(WF1, WF2, S, k, ig, R, t, spinor):
    """<psi_m|{R|t}|psi_n> from the definition, plane wave by plane wave"""
    n = ig.shape[1]; iR = np.linalg.inv(R).T
    pos = {tuple(ig[:3, j]): j for j in range(n)}
    M = np.zeros((WF1.shape[0], WF2.shape[0]), complex)
    for g in range(n):
        q = iR @ (ig[:3, g] + k)
        j = pos[tuple(np.round(q - k).astype(int))]
        ph = np.exp(-2j * np.pi * np.dot(t, q))
        if spinor:
            for s in range(2):
                for u in range(2): M += ph * S[s, u] * np.outer(WF1[:, j + s * n].conj(), WF2[:, g + u * n])
        else: M += ph * np.outer(WF1[:, j].conj(), WF2[:, g])
    return M
def setup(rng):
    ops = group(rand_sg(rng)); L = latt_for(rng, ops); B = rec(L)
    k = rand_k(rng)
    lg = [o for o in ops if is_little(o[0], k)]
    R, t = lg[rng.integers(0, len(lg))]
    t = t + rng.integers(-1, 2, 3) + (rng.uniform(-1, 1, 3) if rng.random() < 0.3 else 0)
    ig = pw_set(rng, k, B, int(rng.integers(1, 40)))
    spinor = bool(rng.integers(0, 2)); nb = int(rng.integers(1, 5))
    S = np.array([[1, 0], [0, 1]]) if not spinor else np.linalg.qr(cplx(rng, 2, 2))[0]
    WF = cplx(rng, nb, ig.shape[1] * (2 if spinor else 1))
    given(k=k, R=R, t=t, ig=ig, spinor=spinor, S=S)
    return k, B, WF, ig, R, S, t, spinor
def key(ig, R, t, spinor): return (ig.shape[1], spinor, tuple(R.ravel()), tuple(np.round(t, 3)))
@case(250)
def traces(rng):
    f = target('irrep.gvectors', 'symm_eigenvalues')
    k, B, WF, ig, R, S, t, spinor = setup(rng)
    M = element(WF, WF, S, k, ig, R, t, spinor)
    close(f(k, B, WF.copy(), ig, R, S, t, spinor), np.diag(M), 'traces', 1e-8)
    return key(ig, R, t, spinor)
@case(250)
def matrix(rng):
    f = target('irrep.gvectors', 'symm_matrix')
    k, B, WF, ig, R, S, t, spinor = setup(rng)
    M = element(WF, WF, S, k, ig, R, t, spinor)
    close(f(k, B, WF.copy(), ig, R, S, t, spinor), M, 'symmetry matrix', 1e-8)
    return key(ig, R, t, spinor)
