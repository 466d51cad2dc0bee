"""reference-cell traces and adapted tables"""
from gen import *
class T: pass
def rand_cell(rng):
    """(refUC, shiftUC)"""
    m = rng.integers(0, 5)
    if m == 0: P = np.eye(3)
    elif m == 1: P = np.array([[1, 0, 0], [0, 1, 1], [0, -1, 1.]])
    elif m == 2: P = np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.]])
    elif m == 3: P = np.linalg.inv(np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]))
    else:
        while True:
            P = rng.integers(-1, 2, (3, 3)).astype(float)
            if abs(np.linalg.det(P)) > .5: break
    s = np.zeros(3) if rng.random() < 0.3 else rng.choice([0, .25, .5, 1/3, .125], 3)
    return P, s
@case(200)
def char_refUC(rng):
    x = kp_inputs(rng, npw=8, nb=3)
    P, s = rand_cell(rng)
    tabs = []
    for i in range(len(x.syms)):
        t = T(); t.t = rng.choice([0, .5, .25, 1/3, 1, -1, .75], 3); t.R = np.eye(3, dtype=int); t.S = np.eye(2); tabs.append(t)
    for sm in x.syms: sm.sign = int(rng.choice([1, -1]))
    same = np.array_equal(P, np.eye(3)) and not s.any()
    if same:
        for sm in x.syms: sm.sign = 1
    k = make_kp(x, refUC=P, shiftUC=s, symmetries_tables=tabs)
    given(k=x.k, refUC=P, shiftUC=s, ops=[(q.ind, q.rotation, q.translation, q.sign, tabs[q.ind - 1].t) for q in k.little_group][:6])
    kr = P.T @ x.k
    close(k.k_refUC, kr, 'k in the reference cell', 1e-10)
    for j, q in enumerate(k.little_group):
        if same: w = k.char[:, j]
        else:
            tr = np.linalg.inv(P) @ (q.translation + q.rotation @ s - s)
            w = k.char[:, j] * q.sign * np.exp(-2j * np.pi * np.dot(tabs[q.ind - 1].t - tr, kr))
        close(k.char_refUC[:, j], w, 'trace of operation %d in the reference cell' % q.ind, 1e-7)
    return (len(k.little_group), tuple(P.ravel()), tuple(s))
PRIM = {'P': np.eye(3), 'I': np.array([[-.5, .5, .5], [.5, -.5, .5], [.5, .5, -.5]]), 'F': np.array([[0, .5, .5], [.5, 0, .5], [.5, .5, 0]]),
        'C': np.array([[.5, .5, 0], [-.5, .5, 0], [0, 0, 1]]), 'A': np.array([[1, 0, 0], [0, .5, -.5], [0, .5, .5]]), 'R': np.array([[2/3, 1/3, 1/3], [-1/3, 1/3, 1/3], [-1/3, -2/3, 1/3]])}
def centering(T): return T.name.strip()[0]
def prim_cell(rng, T):
    """refUC (columns: reference cell in the calculation cell) for a primitive calculation cell"""
    c = centering(T); A = PRIM.get(c, np.eye(3))          # rows: primitive vectors in the conventional basis
    P = np.linalg.inv(A.T)
    U = np.eye(3)
    for _ in range(rng.integers(0, 3)):
        i, j = rng.choice(3, 2, replace=False); E = np.eye(3); E[i, j] = rng.choice([-1, 1]); U = U @ E
    return U @ P
def crystal_ops(rng, T, P, s, lat=True):
    """operations of the calculation cell whose images in the reference cell are those of the table"""
    out = []
    for o in T.symmetries:
        R = P @ o.R @ np.linalg.inv(P)
        if np.abs(R - np.round(R)).max() > 1e-6: raise Skip('not a cell of this group')
        R = np.round(R).astype(int)
        t = P @ o.t + s - R @ s
        if lat: t = t + rng.integers(-2, 3, 3)
        out.append((R, t))
    return out
def fake_sg(T, P, s, syms, spinor):
    SG = target('irrep.spacegroup', 'SpaceGroup'); g = SG.__new__(SG)
    g.number, g.spinor, g.symmetries, g.refUC, g.shiftUC, g.symmetries_tables, g.name, g.order = T.number, spinor, syms, P, s, T.symmetries, T.name, len(syms)
    g.Lattice = np.eye(3); g.alat = None
    return g
@case(150)
def adapted_table(rng):
    sp = bool(rng.integers(0, 2)); T = table(rand_sg(rng), sp)
    P = prim_cell(rng, T); s = rng.choice([0, .25, .5, 1/3, .125], 3) * (rng.random() < 0.7)
    ops = crystal_ops(rng, T, P, s)
    SO = target('irrep.spacegroup', 'SymmetryOperation')
    # metric compatible with the operations
    L = latt_for(rng, ops)
    syms = [SO(R, t, L, ind=i + 1, spinor=sp) for i, (R, t) in enumerate(ops)]
    for q in syms: q.sign = int(rng.choice([1, -1]))
    if rng.random() < 0.3 and len(syms) > 1:        # crystal with part of the operations, numbered as in the table
        keep = sorted(rng.choice(len(syms), rng.integers(1, len(syms)), replace=False)); syms = [syms[i] for i in keep]
    g = fake_sg(T, P, s, syms, sp)
    names = sorted({i.kpname for i in T.irreps}); kn = names[rng.integers(0, len(names))]
    irr = [i for i in T.irreps if i.kpname == kn]
    K = np.linalg.inv(P.T) @ irr[0].k + rng.integers(-1, 2, 3)
    given(table=T.number, spinor=sp, refUC=P, shiftUC=s, kpname=kn, K=K, inds=[q.ind for q in syms])
    for d in (0.1, 0.5, -0.2):
        e = np.zeros(3); e[rng.integers(0, 3)] = d
        ok(raises(g.get_irreps_from_table, kn, K + e) is not None, 'no error for a k-point %s that is not %s', K + e, kn)
    ok(raises(g.get_irreps_from_table, 'no' + kn, K) is not None, 'no error for an unknown label')
    tab = g.get_irreps_from_table(kn, K)
    ok(set(tab) == {i.name for i in irr}, 'irreps %s instead of %s', set(tab), {i.name for i in irr})
    for i in irr:
        want = {}
        for q in syms:
            if q.ind not in i.characters: continue
            tr = np.linalg.inv(P) @ (q.translation + q.rotation @ s - s)
            want[q.ind] = i.characters[q.ind] * q.sign * np.exp(2j * np.pi * np.dot(T.symmetries[q.ind - 1].t - tr, i.k))
        ok(set(tab[i.name]) == set(want), 'operations of %s: %s instead of %s', i.name, sorted(tab[i.name]), sorted(want))
        for n in want: close(tab[i.name][n], want[n], 'character of %s at operation %d' % (i.name, n), 1e-7)
    return (T.number, sp, kn, len(syms))
