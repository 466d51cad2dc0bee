"""all shipped irrep tables, exhaustively, as loaded by the code"""
from gen import *
def load():
    i = INDEX[0] % 460; sg, spinor = i // 2 + 1, bool(i % 2); given(table='irreps-SG=%d-%s.dat' % (sg, 'spin' if spinor else 'scal'))
    T = target('irreptables', 'IrrepTable')
    return sg, spinor, T(sg, spinor)
h = 0.5
CENTRING = {'P': [], 'A': [(0, h, h)], 'B': [(h, 0, h)], 'C': [(h, h, 0)], 'I': [(h, h, h)], 'F': [(0, h, h), (h, 0, h), (h, h, 0)], 'R': [(2/3, 1/3, 1/3), (1/3, 2/3, 2/3)]}
def lattice(t): return np.array([(0, 0, 0)] + CENTRING[t.name.strip()[0]], float)
def near_lattice(d, C):
    """nearest translation of the (centred) lattice for every row"""
    c = np.stack([np.round(d - v) + v for v in C]); e = np.abs(c - d).max(axis=2); i = e.argmin(axis=0)
    return c[i, np.arange(len(d))]
def equivalent(dk, C, tol=1e-3): return np.abs(dk - np.round(dk)).max() < tol and np.all(np.abs(C @ np.round(dk) - np.round(C @ np.round(dk))) < tol)
def products(t, spinor):
    """index of the product, lattice translation and sign for every pair of operations"""
    n = len(t.symmetries); R = np.array([s.R for s in t.symmetries]); tr = np.array([s.t for s in t.symmetries])
    ind = {}; C = lattice(t)
    for i in range(n):
        k = tuple(R[i].ravel()); ok(k not in ind, 'rotation of operation %d occurs twice', i + 1); ind[k] = i
        ok(abs(abs(np.linalg.det(R[i])) - 1) < 1e-9, 'rotation %d is not unimodular', i + 1)
    P = np.zeros((n, n), int); T = np.zeros((n, n, 3)); W = np.ones((n, n))
    for i in range(n):
        Q = R[i] @ R
        for j in range(n):
            k = ind.get(tuple(Q[j].ravel())); ok(k is not None, 'product of operations %d and %d is missing', i + 1, j + 1); P[i, j] = k
        d = tr[i] + tr @ R[i].T - tr[P[i]]
        T[i] = near_lattice(d, C); ok(np.abs(d - T[i]).max() < 1e-3, 'translations of the products of operation %d', i + 1)
    ok(np.array_equal(R[0], np.eye(3)) and np.abs(tr[0]).max() < 1e-9, 'the first operation is not the identity')
    if spinor:
        S = np.array([s.S for s in t.symmetries])
        for i in range(n):
            ok(np.abs(S[i] @ S[i].conj().T - np.eye(2)).max() < 1e-3, 'spinor matrix %d is not unitary', i + 1)
            A = S[i] @ S; B = S[P[i]]
            w = np.einsum('jab,jab->j', A, B.conj()).real / 2; W[i] = np.round(w)
            ok(np.abs(A - W[i][:, None, None] * B).max() < 1e-3 and np.all(np.abs(W[i]) == 1), 'spinor matrices of the products of operation %d', i + 1)
    return R, tr, P, T, W
@case(460, 460)
def tables(rng):
    sg, spinor, t = load()
    R, tr, P, T, W = products(t, spinor); C = lattice(t); n = len(t.symmetries)
    ok(t.nsym == n, 'number of operations %s instead of %d', n, t.nsym)
    pts = {}
    for ir in t.irreps: pts.setdefault(ir.kpname, []).append(ir)
    ok(len(pts) > 0, 'no k-points')
    for name, irs in pts.items():
        k = irs[0].k; ok(all(np.array_equal(ir.k, k) for ir in irs), 'two coordinates for k-point %s', name)
        names = [ir.name for ir in irs]; ok(len(set(names)) == len(names), 'irrep label twice at %s', name)
        G = sorted(i for i in irs[0].characters); ok(all(sorted(ir.characters) == G for ir in irs), 'different operations in the irreps of %s', name)
        lg = [i + 1 for i in range(n) if equivalent(np.linalg.inv(R[i]).T @ k - k, C)]
        ok(G == lg, 'operations %s listed at %s leave k invariant: %s', G, name, lg)
        g = np.array(G) - 1; m = len(g); loc = {v: i for i, v in enumerate(g)}
        ok(all(P[a, b] in loc for a in g for b in g), 'operations of %s are not a subgroup', name)
        X = np.array([[ir.characters[i + 1] for i in g] for ir in irs]); d = np.array([ir.dim for ir in irs])
        ok(0 in loc and np.abs(X[:, loc[0]] - d).max() < 1e-3, 'dimensions at %s: %s and characters of the identity %s', name, d, X[:, loc.get(0, 0)])
        M = X @ X.conj().T / m; i, j = np.unravel_index(np.abs(M - np.eye(len(M))).argmax(), M.shape)
        ok(np.abs(M - np.eye(len(M))).max() < 1e-2, 'product of the characters of %s and %s at %s is %s', names[i], names[j], name, M[i, j])
        ok(int((d ** 2).sum()) == m, 'the squared dimensions at %s add up to %d instead of %d', name, int((d ** 2).sum()), m)
        # characters of irreducible (projective) representations: chi(a) chi(b) = d/|G| sum_x chi(a x b x^-1)
        w = W[np.ix_(g, g)] * np.exp(2j * np.pi * (T[np.ix_(g, g)] @ k))
        idx = np.full(n, -1); idx[g] = range(m); p = idx[P[np.ix_(g, g)]]; x = np.arange(m)
        inv = np.argmax(p == loc[0], axis=1)
        c = p[p, inv[:, None]]; wc = w * w[p, inv[:, None]] / w[x, inv][:, None]
        for a in range(m):
            S = (X[:, p[a][c]] * (wc * w[a][c])).sum(axis=1) * (d / m)[:, None]; D = np.abs(S - X[:, a][:, None] * X)
            i, b = np.unravel_index(D.argmax(), D.shape)
            ok(D[i, b] < 1e-2, 'irrep %s at %s: the characters of operations %d and %d do not multiply as those of an irrep', names[i], name, g[a] + 1, g[b] + 1)
    return (sg, spinor)
