"""Separate by a symmetry"""
from gen import *
def setup(rng, mode):
    """states that carry a representation of one operation: degenerate levels, eigenvalues on the unit circle"""
    for _ in range(200):
        ops = group(rand_sg(rng)); L = latt_for(rng, ops); B = rec(L); k = rand_k(rng)
        R, t = ops[rng.integers(0, len(ops))]
        if is_little(R, k): break
    else: raise Skip('')
    spinor = bool(rng.integers(0, 2))
    SO = target('irrep.spacegroup', 'SymmetryOperation'); o = SO(R, t, L, ind=5, spinor=spinor)
    ig = pw_set(rng, k, B, int(rng.integers(6, 20))); n = ig.shape[1]
    # matrix of the operation on the plane waves, eigenvectors grouped by eigenvalue
    pos = {tuple(ig[:3, j]): j for j in range(n)}
    S = o.spinor_rotation if spinor else np.eye(1); ns = len(S)
    U = np.zeros((ns * n, ns * n), complex)
    for g in range(n):
        q = np.linalg.inv(R).T @ (ig[:3, g] + k); j = pos[tuple(np.round(q - k).astype(int))]
        ph = np.exp(-2j * np.pi * np.dot(o.translation, q))
        for s in range(ns):
            for u in range(ns): U[j + s * n, g + u * n] = S[s, u] * ph
    T, Z = __import__('scipy.linalg').linalg.schur(U, output='complex')
    w = np.diag(T)
    # levels: random sets of eigenvectors mixed by a random unitary
    nb = min(int(rng.integers(1, 8)), ns * n)
    ids = rng.permutation(ns * n)[:nb]
    E = safe_energies(rng, nb, 1e-3); lv = levels(E, 1e-3)
    WF = np.zeros((nb, ns * n), complex)
    for a, b in lv:
        if mode: Q = np.linalg.qr(cplx(rng, b - a, b - a))[0]
        else: Q = np.eye(b - a)
        WF[a:b] = (Z[:, ids[a:b]] @ Q).T
    x = KP(); x.L, x.B, x.k, x.spinor, x.ig, x.nb, x.WF, x.E, x.thr, x.upper, x.syms, x.ik = L, B, k, spinor, ig, nb, WF, E, 1e-3, np.nan, [o], 0
    x.w, x.lv, x.o = w[ids], lv, o
    given(R=R, t=t, k=k, spinor=spinor, E=E, eigenvalues=x.w)
    return x
def run(rng, groupKramers, table):
    x = setup(rng, rng.random() < .7)
    K = make_kp(x)
    K.identify_irreps({'A': {5: 1.0 + 0j}, 'B': {5: -1.0 + 0j}} if table else None)
    WF0, E0, char0, deg0, nb0, irr0 = K.WF.copy(), K.Energy_mean.copy(), K.char.copy(), list(K.degeneracies), K.num_bands, list(K.irreps)
    sub = K.Separate(x.o, 1e-3, groupKramers=groupKramers)
    ok(np.array_equal(K.WF, WF0) and np.array_equal(K.Energy_mean, E0) and np.array_equal(K.char, char0) and list(K.degeneracies) == deg0 and K.num_bands == nb0 and K.irreps == irr0, 'the original k-point was changed')
    ok(sum(s.num_bands for s in sub.values()) == x.nb, 'subspaces have %s bands in total instead of %d', [s.num_bands for s in sub.values()], x.nb)
    WFs = []; Es = []
    for ev, s in sub.items():
        n = s.num_bands
        ok(n > 0, 'empty subspace')
        ok(len(s.Energy_mean) == n and len(s.WF) == n and len(s.char) == n and len(s.char_refUC) == n and len(s.irreps) == n and len(s.degeneracies) == n and sum(s.degeneracies) == n,
           'lengths in a subspace of %d bands: energies %d states %d traces %d irreps %d', n, len(s.Energy_mean), len(s.WF), len(s.char), len(s.irreps))
        ok(np.all(np.diff(s.Energy_mean) >= -1e-12), 'energies %s not ascending', s.Energy_mean)
        for i in range(n):
            l = int(np.argmin(np.abs(E0 - s.Energy_mean[i]))); close(s.Energy_mean[i], E0[l], 'energy of a state', 1e-10)
            # the state belongs to the level it is listed with
            a, b = x.lv[l]
            P = WF0[a:b]; c = P.conj() @ s.WF[i]
            close(np.linalg.norm(c), np.linalg.norm(s.WF[i]), 'state not in the level of its energy', 1e-6)
            close(s.char[i], char0[l], 'traces listed with a state are not those of its level', 1e-9)
            if table: ok(s.irreps[i] == irr0[l], 'irreps of another level')
        WFs.append(s.WF); Es += list(s.Energy_mean)
        # eigenvalues of the states of a subspace
        for i in range(n):
            e = np.vdot(s.WF[i], apply(x, s.WF[i])) / np.vdot(s.WF[i], s.WF[i])
            tgt = abs(e - ev) if not groupKramers else abs(e.real - np.real(ev))
            ok(tgt < 0.2, 'state with eigenvalue %s in the subspace of %s', e, ev)
    ok(np.linalg.matrix_rank(np.vstack(WFs), tol=1e-6) == x.nb, 'the states of the subspaces do not span all bands')
    close(sorted(Es), sorted(np.repeat(E0, deg0)), 'energies of all subspaces', 1e-9)
    return (x.nb, len(sub), x.spinor, tuple(sorted(s.num_bands for s in sub.values()))) 
def apply(x, v):
    n = x.ig.shape[1]; pos = {tuple(x.ig[:3, j]): j for j in range(n)}
    S = x.o.spinor_rotation if x.spinor else np.eye(1); ns = len(S); r = np.zeros_like(v)
    for g in range(n):
        q = np.linalg.inv(x.o.rotation).T @ (x.ig[:3, g] + x.k); j = pos[tuple(np.round(q - x.k).astype(int))]
        ph = np.exp(-2j * np.pi * np.dot(x.o.translation, q))
        for s in range(ns):
            for u in range(ns): r[j + s * n] += ph * S[s, u] * v[g + u * n]
    return r
@case(120)
def kramers(rng): return run(rng, True, rng.random() < .7)
@case(120)
def no_kramers(rng): return run(rng, False, rng.random() < .7)
